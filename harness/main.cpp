#include "h.hpp"
#include <signal.h>

static void on_term(int) { // watchdog: leave a core of information
    char b[400];
    int n = snprintf(b, sizeof b, "\nHANG case %lu [%s]\n", h::ctx().cur, h::ctx().st->label);
    if (write(1, b, n) < 0) {
    }
    _exit(75);
}

extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:"
           "detect_stack_use_after_return=0:handle_segv=1:allow_user_segv_handler=1:print_summary=1:"
           "malloc_context_size=12:quarantine_size_mb=64";
}
extern "C" const char *__ubsan_default_options() {
    return "print_stacktrace=1:exitcode=99";
}
extern "C" const char *__tsan_default_options() {
    return "halt_on_error=1:exitcode=99:second_deadlock_stack=1:history_size=4:detect_deadlocks=1";
}
// the address index reads optimistically and validates what it has read; C10 decides it
extern "C" const char *__tsan_default_suppressions() {
    return "race:critnib.c\nrace:libtbbmalloc\n";
}

int main(int argc, char **argv) {
    h::main_thread = true;
    h::Ctx &c = h::ctx();
    c.argc = argc;
    c.argv = argv;
    c.st = &c.local;
    uint64_t a = 0, b = 1;
    for (int i = 1; i < argc; i++) {
        std::string s = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (s == "--seed")
            c.seed = strtoull(val().c_str(), 0, 10);
        else if (s == "--from")
            a = strtoull(val().c_str(), 0, 10);
        else if (s == "--to")
            b = strtoull(val().c_str(), 0, 10);
        else if (s == "--mode")
            c.mode = val();
        else if (s == "--thorough")
            c.thorough = true;
        else if (s == "--verbose")
            c.verbose = true;
        else if (s == "--status") {
            int fd = open(val().c_str(), O_RDWR);
            if (fd >= 0) {
                void *p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                close(fd);
                if (p != MAP_FAILED)
                    c.st = (h::StatusPage *)p;
            }
        }
    }
    signal(SIGTERM, on_term);
    c.cur = a;
    c.st->cur = a;
    harness_begin();
    for (uint64_t i = a; i < b; i++) {
        c.cur = i;
        c.st->cur = i;
        h::label("-");
        h::Rng r(h::mix(c.seed, h::mix(i, std::hash<std::string>()(c.mode))));
        run_case(i, r);
        c.st->done++;
        h::progress();
        if (c.nviol > 200)
            break;
    }
    h::label("end");
    harness_end();
    for (auto &s : c.stats)
        printf("\nSTAT %s %lu\n", s.first.c_str(), s.second);
    for (auto &s : c.maxima)
        printf("\nMAX %s %lu\n", s.first.c_str(), s.second);
    printf("\nSIGS");
    for (auto s : c.sigs)
        printf(" %lx", s);
    printf("\nDONE\n");
    fflush(stdout);
    h::label("exit"); // library destructor runs now
    exit(c.nviol ? 3 : 0);
}
