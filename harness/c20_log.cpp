// Logger (C20). modes:
//   conf    - generated UMF_LOG settings (valid and malformed), then messages of all levels, lengths and contents, in a child
//             whose stdout, stderr and log file are captured and compared with a model
//   cycle   - the library initialized and torn down repeatedly with a log file
//   threads - several threads log at once into one file
#include "h.hpp"
#include <cerrno>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <umf.h>
#include <umf/memory_provider.h>
#include <umf/providers/provider_os_memory.h>
extern "C" {
#include "utils_log.h"
}
#undef LOG_DEBUG
#undef LOG_INFO
#undef LOG_WARN
#undef LOG_ERR
#undef LOG_FATAL
using namespace h;
namespace {
std::string dir;
const char *LV[] = {"debug", "info", "warning", "error", "fatal"};
const char *LS[] = {"DEBUG", "INFO ", "WARN ", "ERROR", "FATAL"};

std::string slurp(const std::string &p) {
    std::string s;
    FILE *f = fopen(p.c_str(), "r");
    if (!f)
        return s;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)))
        s.append(b, n);
    fclose(f);
    return s;
}
bool exists(const std::string &p) { return access(p.c_str(), F_OK) == 0; }
std::vector<std::string> lines(const std::string &s, bool *ended) {
    std::vector<std::string> v;
    size_t i = 0;
    while (i < s.size()) {
        size_t j = s.find('\n', i);
        if (j == std::string::npos) {
            *ended = false;
            v.push_back(s.substr(i));
            return v;
        }
        v.push_back(s.substr(i, j - i));
        i = j + 1;
    }
    *ended = true;
    return v;
}

struct Conf { // what the settings mean
    int out = 0; // 0 disabled 1 stdout 2 stderr 3 file
    std::string path;
    int level = 3, flush = 3;
    bool ts = false, pid = false;
    std::string env;
    bool set = true;
};
std::string randPath(Rng &r, bool *openable) {
    *openable = true;
    std::string p = dir + "/";
    switch (r.below(8)) {
    case 0: // text that looks like an option
        p += std::vector<std::string>{"level:debug", "pid:yes", "output:stderr", "timestamp:yes,x", "flush:debug", "output:file,y",
                                      "xlevel:info"}[r.below(7)];
        return p;
    case 1: {
        p += "with space " + std::to_string(r.below(100)) + ".log";
        return p;
    }
    case 2: // as long as it may be
        for (size_t n = 250 + r.below(10); p.size() < n;) // 256 bytes are the limit
            p += 'q';
        *openable = p.size() <= 256;
        return p;
    case 3:
        if (r.chance(1, 2)) {
            *openable = false;
            return dir + "/nosuchdir/x.log";
        }
        if (r.chance(1, 2)) {
            *openable = false;
            p += std::string(300 + r.below(3000), 'z');
            return p;
        }
        *openable = false;
        return dir; // a directory
    default:
        return p + "log" + std::to_string(r.below(1000));
    }
}
Conf randConf(Rng &r) {
    Conf c;
    if (r.chance(1, 20)) {
        c.set = false;
        return c;
    }
    std::vector<std::string> opts;
    bool openable = true;
    int kind = (int)r.below(12);
    if (kind < 3) {
        c.out = 1;
        opts.push_back("output:stdout");
    } else if (kind < 5) {
        c.out = 2;
        opts.push_back("output:stderr");
    } else if (kind < 10) {
        c.path = randPath(r, &openable);
        c.out = openable ? 3 : 0;
        opts.push_back("output:file," + c.path);
    } else { // missing or malformed
        c.out = 0;
        static const std::vector<std::string> bad = {"", "output:", "output:stdou", "output:stdoutx", "output:file", "output:file,", "Output:stdout",
                                                     "output=stdout", "xoutput:stderr", "output:stderr,", "output :stdout", "output:null",
                                                     "output:file:/tmp/umf_c20_never", " output:stdout", "%s%n%s", "output"};
        std::string b = r.pick(bad);
        if (r.chance(1, 8)) {
            b = "";
            size_t n = r.below(3000);
            for (size_t i = 0; i < n; i++)
                b += (char)r.range(1, 255);
            for (auto &ch : b) // separators could complete an option by chance
                if (ch == 'o' || ch == '\n')
                    ch = '.';
        }
        opts.push_back(b);
    }
    auto opt = [&](const char *name, int n, const char *const *vals, int dflt) {
        int v = dflt;
        switch (r.below(6)) {
        case 0:
            break;
        case 1: { // not a value: ignored
            static const std::vector<std::string> bad = {":", ":verbose", "", ":0", "=debug", ":debugx", ":yess", ":DEBUG", ":yes,", ":infox", ": info"};
            opts.push_back(std::string(r.chance(1, 6) ? "x" : "") + name + r.pick(bad));
            break;
        }
        default:
            v = (int)r.below(n);
            opts.push_back(std::string(name) + ":" + vals[v]);
        }
        return v;
    };
    static const char *const YN[] = {"no", "yes"};
    int l = opt("level", 5, LV, 3), f = opt("flush", 5, LV, 3), t = opt("timestamp", 2, YN, 0), p = opt("pid", 2, YN, 0);
    if (c.out) {
        c.level = l;
        c.flush = f;
        c.ts = t;
        c.pid = p;
    }
    for (size_t i = opts.size(); i > 1; i--)
        std::swap(opts[i - 1], opts[r.below(i)]);
    for (size_t i = 0; i < opts.size(); i++)
        c.env += (i ? ";" : "") + opts[i];
    if (r.chance(1, 4))
        c.env += ";";
    if (r.chance(1, 8))
        c.env = ";;" + c.env;
    return c;
}

struct Msg {
    int level;
    bool p;
    int err;
    std::string func, text;
    std::string full() const { return func + ": " + text + (p ? std::string(": ") + strerror(err) : ""); }
};
std::string randText(Rng &r, size_t n) {
    std::string s;
    for (size_t i = 0; i < n; i++)
        s += (char)(r.chance(1, 12) ? '%' : r.chance(1, 30) ? (char)r.range(128, 255) : (char)r.range(32, 126));
    return s;
}
Msg randMsg(Rng &r, int level = -1) {
    Msg m;
    m.level = level >= 0 ? level : (int)r.below(5);
    m.p = r.chance(2, 5);
    int errs[] = {0, EINVAL, ENOMEM, ENOENT, EAGAIN, 9999, -1};
    m.err = r.chance(1, 2) ? errs[r.below(7)] : (int)r.below(140);
    size_t fl = r.chance(1, 15) ? r.range(60, 600) : r.range(1, 30);
    for (size_t i = 0; i < fl; i++)
        m.func += (char)r.range('a', 'z');
    size_t n;
    switch (r.below(8)) {
    case 0: // about the size of the line buffer
        n = 8192 - fl - 2 - std::min<size_t>(r.below(60), 60) + r.below(12);
        break;
    case 1:
        n = 8192 - fl - r.below(40) - (m.p ? strlen(strerror(m.err)) : 0) + 4;
        break;
    case 2:
        n = r.chance(1, 3) ? r.below(60000) : r.below(9000);
        break;
    case 3:
        n = r.below(3);
        break;
    default:
        n = r.below(200);
    }
    m.text = randText(r, n);
    return m;
}
// emits m and tells whether errno survived
bool emit(const Msg &m) {
    errno = m.err;
    auto lv = (utils_log_level_t)m.level;
    if (m.p)
        utils_plog(lv, m.func.c_str(), "%s", m.text.c_str());
    else if (m.text.find('%') == std::string::npos && m.text.size() % 2)
        utils_log(lv, m.func.c_str(), m.text.c_str(), 0);
    else
        utils_log(lv, m.func.c_str(), "%.1s%s", m.text.c_str(), m.text.size() ? m.text.c_str() + 1 : "");
    return errno == m.err;
}

// one line of the log against what it should be; "" if fine
std::string judge(const std::string &l, const Msg &m, const Conf &c, time_t t0, time_t t1, int pid, long tid) {
    const char *s = l.c_str(), *e = s + l.size();
    if (*s++ != '[')
        return "does not begin with a bracket";
    if (c.ts) {
        struct tm tm = {};
        int n = 0;
        if (sscanf(s, "%4d-%2d-%2dT%2d:%2d:%2d %n", &tm.tm_year, &tm.tm_mon, &tm.tm_mday, &tm.tm_hour, &tm.tm_min, &tm.tm_sec, &n) != 6 ||
            n != 20)
            return "no timestamp";
        tm.tm_year -= 1900;
        tm.tm_mon--;
        tm.tm_isdst = -1;
        time_t t = mktime(&tm);
        if (t < t0 - 1 || t > t1 + 1)
            return "wrong timestamp";
        s += n;
    }
    if (c.pid) {
        unsigned long a, b;
        int n = 0;
        if (sscanf(s, "PID:%lu TID:%lu %n", &a, &b, &n) != 2 || !n)
            return "no process and thread";
        if ((int)a != pid || (tid && (long)b != tid))
            return "wrong process or thread";
        s += n;
        while (*s == ' ')
            s++;
    }
    std::string h = std::string(LS[m.level]) + " UMF] ";
    if ((size_t)(e - s) < h.size() || memcmp(s, h.data(), h.size()))
        return "wrong level";
    s += h.size();
    std::string body(s, e), want = m.full();
    if (body == want)
        return "";
    static const std::string T = "[truncated...]";
    if (want.size() > 8000 && body.size() >= T.size() && body.compare(body.size() - T.size(), T.size(), T) == 0) {
        body.resize(body.size() - T.size());
        if (body.size() >= 8000 && want.compare(0, body.size(), body) == 0) {
            cnt("truncated_lines");
            return "";
        }
        return "truncated wrongly";
    }
    return "wrong text";
}
bool wellFormed(const std::string &l) { return l.size() > 12 && l[0] == '[' && l.find(" UMF] ") != std::string::npos; }

struct Shared {
    int errno_lost;
    int lost_index;
    int not_flushed;
    int checked_flush;
    char done;
    int fds0, fds1;
};
Shared *sh;

void conf_case(Rng &r) {
    Conf c = randConf(r);
    std::string o = dir + "/stdout", e = dir + "/stderr";
    unlink(o.c_str());
    unlink(e.c_str());
    if (c.out == 3)
        unlink(c.path.c_str());
    bool full = c.out == 3 && r.chance(1, 10);
    if (full) { // a device that refuses to be written
        size_t at = c.env.find(c.path);
        if (c.path.size() > 12 && at != std::string::npos) {
            c.env.replace(at, c.path.size(), "/dev/full");
            c.path = "/dev/full";
        }
    }
    std::vector<Msg> ms;
    size_t n = r.range(1, 25);
    for (size_t i = 0; i < n; i++)
        ms.push_back(randMsg(r));
    memset(sh, 0, sizeof *sh);
    label("conf %.200s", c.env.c_str());
    sample("UMF_LOG='%.300s' %zu messages", c.set ? c.env.c_str() : "(unset)", n);
    time_t t0 = time(nullptr);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int fo = open(o.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0600), fe = open(e.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0600);
        dup2(fo, 1);
        dup2(fe, 2);
        if (c.set)
            setenv("UMF_LOG", c.env.c_str(), 1);
        else
            unsetenv("UMF_LOG");
        utils_log_init();
        for (size_t i = 0; i < ms.size(); i++) {
            if (!emit(ms[i]) && !sh->errno_lost++)
                sh->lost_index = (int)i;
            int lv = ms[i].level;
            if (!full && lv >= c.flush && lv >= c.level && (c.out || lv == 4)) { // visible at once
                std::string s = slurp(c.out == 3 ? c.path : c.out == 1 ? o : e);
                size_t k = std::min<size_t>(ms[i].text.size(), 60);
                std::string tail = ms[i].func + ": " + ms[i].text.substr(0, k);
                sh->checked_flush++;
                if (s.size() < tail.size() || s.back() != '\n' || s.rfind(tail) == std::string::npos)
                    sh->not_flushed++;
            }
        }
        fflush(nullptr);
        sh->done = 1;
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    time_t t1 = time(nullptr);
    progress();
    cnt("children");
    if (!sh->done || !WIFEXITED(st) || WEXITSTATUS(st)) {
        std::string se = slurp(e);
        viol("C20:crash", "logging ended the process (status %d): UMF_LOG='%.100s' %zu messages; %.900s", st, c.env.c_str(), n,
             [&] {
                 size_t k = se.find("ERROR: AddressSanitizer");
                 if (k == std::string::npos)
                     k = se.find("Assertion failed");
                 return k == std::string::npos ? se.substr(0, 900) : se.substr(k, 900);
             }()
                 .c_str());
        return;
    }
    CHECK(!sh->errno_lost, "C20:errno", "errno changed while logging %d of %zu messages (output %d %s, first: level %d, errno %d)", sh->errno_lost, n,
          c.out, c.path.c_str(), ms[sh->lost_index].level, ms[sh->lost_index].err);
    CHECK(!sh->not_flushed, "C20:not-flushed", "%d of %d messages at or above the flush level were not written at once", sh->not_flushed,
          sh->checked_flush);
    cnt("flush_checks", sh->checked_flush);
    cnt("messages", n);
    Sig sg;
    sg.add(c.out).add(c.level).add(c.flush).add(c.ts * 2 + c.pid);
    for (auto &m : ms)
        sg.add(m.level * 7 + m.p).add(m.text.size());
    sig(sg.v);
    if (full)
        return;
    // what should be where
    std::string so = slurp(o), se = slurp(e), sf = c.out == 3 ? slurp(c.path) : "";
    const std::string &main = c.out == 1 ? so : c.out == 3 ? sf : se;
    CHECK(c.out == 1 || so.empty(), "C20:misdirected", "UMF_LOG='%.200s': %zu bytes on stdout: %.100s", c.env.c_str(), so.size(), so.c_str());
    CHECK(c.out == 2 || c.out == 0 || se.empty(), "C20:misdirected", "UMF_LOG='%.200s': %zu bytes on stderr: %.100s", c.env.c_str(), se.size(),
          se.c_str());
    CHECK(!exists("/tmp/umf_c20_never"), "C20:misdirected", "a file was created");
    bool ended;
    auto ls = lines(main, &ended);
    CHECK(ended, "C20:last-line", "the last line does not end");
    size_t li = 0;
    if (c.out == 0 && c.set) {
        // told why, once, on stderr
        CHECK(!ls.empty() && wellFormed(ls[0]) && ls[0].compare(0, 11, "[ERROR UMF]") == 0, "C20:malformed-silent",
              "malformed UMF_LOG='%.200s' is not reported on stderr: '%.200s'", c.env.c_str(), ls.empty() ? "" : ls[0].c_str());
        cnt("disabled");
        // a setting may itself contain line ends and anything else
        std::vector<const Msg *> f;
        for (auto &m : ms)
            if (m.level == 4)
                f.push_back(&m);
        CHECK(ls.size() >= f.size() + 1, "C20:fatal-lost", "disabled logger: %zu lines for %zu fatal messages", ls.size(), f.size());
        if (ls.size() >= f.size()) {
            li = ls.size() - f.size();
            for (size_t i = 0; i < li; i++)
                CHECK(i == 0 || ls[i].compare(0, 2, "[D") != 0, "C20:disabled-logs", "a disabled logger writes '%.200s'", ls[i].c_str());
            for (auto m : f) {
                auto w = judge(ls[li++], *m, c, t0, t1, pid, 0);
                CHECK(w.empty(), "C20:fatal-line", "disabled logger, fatal message: %s: '%.200s'", w.c_str(), ls[li - 1].c_str());
            }
            CHECK(li <= f.size() + 1 || c.env.find('\n') != std::string::npos, "C20:disabled-logs", "a disabled logger wrote %zu lines for %zu fatal messages: '%.200s'", ls.size(), f.size(),
                  ls.size() > 1 ? ls[1].c_str() : "");
        }
        return;
    }
    // lines of the logger itself come first
    std::vector<const Msg *> want;
    for (auto &m : ms)
        if ((c.set ? m.level >= c.level : m.level == 4))
            want.push_back(&m);
    while (ls.size() - li > want.size() && ls[li].find(" UMF] utils_log_init:") != std::string::npos) {
        CHECK(c.level <= 1, "C20:below-level", "level %s: '%.200s'", LV[c.level], ls[li].c_str());
        CHECK(wellFormed(ls[li]), "C20:line", "'%.200s'", ls[li].c_str());
        li++;
    }
    CHECK(ls.size() - li == want.size(), ls.size() - li < want.size() ? "C20:lost" : "C20:extra",
          "UMF_LOG='%.200s' (level %s): %zu messages due, %zu lines, first '%.150s' last '%.150s'", c.env.c_str(), LV[c.level], want.size(),
          ls.size() - li, ls.size() > li ? ls[li].c_str() : "", ls.empty() ? "" : ls.back().c_str());
    for (size_t i = 0; i < want.size() && li < ls.size(); i++, li++) {
        auto w = judge(ls[li], *want[i], c, t0, t1, pid, pid);
        if (!w.empty()) {
            viol("C20:line", "UMF_LOG='%.150s': %s: %zu bytes '%.150s' for %zu bytes '%.150s', errno %d", c.env.c_str(), w.c_str(), ls[li].size(),
                 ls[li].c_str(), want[i]->full().size(), want[i]->full().c_str(), want[i]->err);
            break;
        }
        cnt("lines_checked");
    }
    if (c.out == 3)
        unlink(c.path.c_str());
}

int fdsOf(const std::string &p) {
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    while (dirent *e = readdir(d)) {
        char l[512];
        ssize_t k = readlinkat(dirfd(d), e->d_name, l, sizeof l - 1);
        if (k > 0) {
            l[k] = 0;
            n += p == l;
        }
    }
    closedir(d);
    return n;
}
void cycle_case(Rng &r) {
    int level = (int)r.below(5), flush = (int)r.below(5);
    std::string p = dir + "/cycle.log", p2 = dir + "/cycle2.log";
    unlink(p.c_str());
    unlink(p2.c_str());
    int cycles = (int)r.range(2, 8);
    bool swap = r.chance(1, 4);
    memset(sh, 0, sizeof *sh);
    label("cycle");
    uint64_t seed = r.next();
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int fe = open((dir + "/stderr").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
        dup2(fe, 2);
        std::string env = std::string("level:") + LV[level] + ";flush:" + LV[flush] + ";timestamp:no;pid:no;output:file,";
        umfTearDown(); // the use taken when the library was loaded
        Rng q(seed);
        for (int i = 0; i < cycles; i++) {
            setenv("UMF_LOG", (env + (swap && i % 2 ? p2 : p)).c_str(), 1);
            umfInit();
            char f[32];
            snprintf(f, sizeof f, "m%d", i);
            for (int l = 0; l < 5; l++)
                utils_log((utils_log_level_t)l, f, "cycle %d level %d", i, l);
            umf_memory_provider_handle_t h = nullptr;
            umfMemoryProviderCreate(umfOsMemoryProviderOps(), nullptr, &h); // logs an error
            umfTearDown();
            (i == 0 ? sh->fds0 : sh->fds1) = fdsOf(p) + fdsOf(p2);
        }
        fflush(nullptr);
        sh->done = 1;
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    progress();
    if (!sh->done || st) {
        viol("C20:crash", "initializing repeatedly with a log file ended with %d: %.300s", st, slurp(dir + "/stderr").c_str());
        return;
    }
    CHECK(sh->fds1 <= std::max(sh->fds0, 1) + (swap ? 1 : 0), "C20:descriptors", "%d descriptors of the log file after the first use of the library, %d after %d uses", sh->fds0, sh->fds1,
          cycles);
    // all messages there, once, in order
    std::string s = slurp(p);
    for (int file = 0; file < (swap ? 2 : 1); file++) {
        bool ended;
        auto ls = lines(slurp(file ? p2 : p), &ended);
        CHECK(ended, "C20:last-line", "the last line does not end");
        std::vector<std::string> got, want;
        for (auto &l : ls) {
            CHECK(wellFormed(l), "C20:line", "'%.200s'", l.c_str());
            if (l.find(" level ") != std::string::npos && l.find("cycle ") != std::string::npos && l.find("UMF] m") != std::string::npos)
                got.push_back(l.substr(l.find("cycle ")));
            bool below = false;
            for (int k = 0; k < level; k++)
                below |= l.compare(1, 5, LS[k]) == 0;
            CHECK(!below, "C20:below-level", "level %s: '%.200s'", LV[level], l.c_str());
        }
        for (int i = 0; i < cycles; i++)
            for (int l = level; l < 5; l++)
                if (!swap || i % 2 == file)
                    want.push_back("cycle " + std::to_string(i) + " level " + std::to_string(l));
        CHECK(got == want, got.size() == want.size() ? "C20:order" : "C20:lost", "%d uses of the library: %zu messages expected, %zu found, or out of order (first '%s')", cycles,
              want.size(), got.size(), got.empty() ? "" : got[0].c_str());
    }
    cnt("cycles", cycles);
    sig(Sig().add(level).add(flush).add(cycles).add(swap).v);
}

void mt_case(Rng &r) {
    Conf c;
    c.out = 3;
    c.path = dir + "/mt.log";
    c.level = (int)r.below(4);
    c.flush = (int)r.below(5);
    c.ts = r.chance(1, 2);
    c.pid = r.chance(1, 2);
    c.env = std::string("level:") + LV[c.level] + ";flush:" + LV[c.flush] + ";timestamp:" + (c.ts ? "yes" : "no") + ";pid:" + (c.pid ? "yes" : "no") +
            ";output:file," + c.path;
    label("threads");
    setenv("UMF_LOG", c.env.c_str(), 1);
    utils_log_init();
    fflush(nullptr);
    if (truncate(c.path.c_str(), 0))
        abort();
    int nt = (int)r.range(2, 8);
    std::vector<std::vector<Msg>> ms(nt);
    for (int t = 0; t < nt; t++) {
        size_t n = r.range(5, 40);
        for (size_t i = 0; i < n; i++) {
            Msg m = randMsg(r);
            m.func = "t" + std::to_string(t) + "n" + std::to_string(i) + "z";
            if (m.p && m.text.size() > 8000)
                m.p = false;
            ms[t].push_back(m);
        }
    }
    std::vector<long> tids(nt);
    std::atomic<int> lost{0}, ready{0};
    time_t t0 = time(nullptr);
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; t++)
        ts.emplace_back([&, t] {
            tids[t] = syscall(SYS_gettid);
            ready++;
            while (ready < nt)
                ;
            for (auto &m : ms[t])
                if (!emit(m))
                    lost++;
            progress();
        });
    for (auto &t : ts)
        t.join();
    time_t t1 = time(nullptr);
    fflush(nullptr);
    CHECK(lost == 0, "C20:errno", "errno changed while logging %d messages", lost.load());
    bool ended;
    auto ls = lines(slurp(c.path), &ended);
    CHECK(ended, "C20:last-line", "the last line does not end");
    std::vector<size_t> next(nt, 0);
    Sig sg;
    for (auto &l : ls) {
        size_t at = l.find(" UMF] t");
        int t;
        size_t i;
        if (at == std::string::npos || sscanf(l.c_str() + at + 7, "%dn%zuz", &t, &i) != 2 || t < 0 || t >= nt || i >= ms[t].size()) {
            viol("C20:torn", "a line of no message: '%.200s'", l.c_str());
            return;
        }
        while (next[t] < ms[t].size() && ms[t][next[t]].level < c.level)
            next[t]++;
        CHECK(next[t] == i, next[t] < i ? "C20:lost" : "C20:order", "thread %d: message %zu after %zu", t, i, next[t]);
        next[t] = i + 1;
        auto w = judge(l, ms[t][i], c, t0, t1, getpid(), tids[t]);
        if (!w.empty()) {
            viol("C20:torn", "%s: %zu bytes '%.150s' for %zu bytes '%.150s'", w.c_str(), l.size(), l.c_str(), ms[t][i].full().size(),
                 ms[t][i].full().c_str());
            return;
        }
        sg.add(t);
        cnt("mt_lines");
    }
    for (int t = 0; t < nt; t++) {
        while (next[t] < ms[t].size() && ms[t][next[t]].level < c.level)
            next[t]++;
        CHECK(next[t] == ms[t].size(), "C20:lost", "thread %d: message %zu of %zu is missing", t, next[t], ms[t].size());
    }
    sig(sg.v);
}
} // namespace

void harness_begin() {
    const char *s = getenv("VERIF_SCRATCH");
    dir = std::string(s && strlen(s) < 150 ? s : "/tmp") + "/c20." + std::to_string(getpid());
    mkdir(dir.c_str(), 0700);
    sh = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
void run_case(uint64_t, Rng &r) {
    if (ctx().mode == "conf")
        conf_case(r);
    else if (ctx().mode == "cycle")
        cycle_case(r);
    else
        mt_case(r);
}
void harness_end() {
    DIR *d = opendir(dir.c_str());
    while (dirent *e = readdir(d))
        if (e->d_name[0] != '.')
            unlinkat(dirfd(d), e->d_name, 0);
    closedir(d);
    rmdir(dir.c_str());
}
