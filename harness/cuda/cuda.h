/* What the CUDA memory provider needs of the CUDA driver API: declarations for
 * building it against a stand-in driver (no CUDA toolkit here).  Names and
 * values follow the driver API's documentation. */
#ifndef VERIF_CUDA_H
#define VERIF_CUDA_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int CUdevice;
typedef unsigned long long CUdeviceptr;
typedef struct CUctx_st *CUcontext;
typedef enum cudaError_enum {
    CUDA_SUCCESS = 0,
    CUDA_ERROR_INVALID_VALUE = 1,
    CUDA_ERROR_OUT_OF_MEMORY = 2,
    CUDA_ERROR_NOT_INITIALIZED = 3,
    CUDA_ERROR_DEINITIALIZED = 4,
    CUDA_ERROR_NO_DEVICE = 100,
    CUDA_ERROR_INVALID_DEVICE = 101,
    CUDA_ERROR_INVALID_CONTEXT = 201,
    CUDA_ERROR_MAP_FAILED = 205,
    CUDA_ERROR_ALREADY_MAPPED = 208,
    CUDA_ERROR_INVALID_HANDLE = 400,
    CUDA_ERROR_NOT_FOUND = 500,
    CUDA_ERROR_ILLEGAL_ADDRESS = 700,
    CUDA_ERROR_LAUNCH_FAILED = 719,
    CUDA_ERROR_NOT_PERMITTED = 800,
    CUDA_ERROR_NOT_SUPPORTED = 801,
    CUDA_ERROR_UNKNOWN = 999
} CUresult;
typedef struct CUipcMemHandle_st {
    char reserved[64];
} CUipcMemHandle;
typedef enum { CU_MEM_LOCATION_TYPE_INVALID = 0, CU_MEM_LOCATION_TYPE_DEVICE = 1 } CUmemLocationType;
typedef enum { CU_MEM_ALLOCATION_TYPE_INVALID = 0, CU_MEM_ALLOCATION_TYPE_PINNED = 1 } CUmemAllocationType;
typedef enum { CU_MEM_ALLOC_GRANULARITY_MINIMUM = 0, CU_MEM_ALLOC_GRANULARITY_RECOMMENDED = 1 } CUmemAllocationGranularity_flags;
typedef enum { CU_MEM_HANDLE_TYPE_NONE = 0 } CUmemAllocationHandleType;
typedef struct {
    CUmemLocationType type;
    int id;
} CUmemLocation;
typedef struct {
    CUmemAllocationType type;
    CUmemAllocationHandleType requestedHandleTypes;
    CUmemLocation location;
    void *win32HandleMetaData;
    struct {
        unsigned char compressionType, gpuDirectRDMACapable;
        unsigned short usage;
        unsigned char reserved[4];
    } allocFlags;
} CUmemAllocationProp;
typedef enum { CU_MEM_ATTACH_GLOBAL = 1, CU_MEM_ATTACH_HOST = 2, CU_MEM_ATTACH_SINGLE = 4 } CUmemAttach_flags;
typedef enum { CU_IPC_MEM_LAZY_ENABLE_PEER_ACCESS = 1 } CUipcMem_flags;
#define CU_MEMHOSTALLOC_PORTABLE 1
#define CU_MEMHOSTALLOC_DEVICEMAP 2
#define CU_MEMHOSTALLOC_WRITECOMBINED 4
#ifdef __cplusplus
}
#endif
#endif
