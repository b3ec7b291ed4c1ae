// declarations of the GPU run-time, as far as boost/fiber/hip/waitfor.hpp uses it (no GPU tool kit is installed here)
#pragma once
typedef struct ihip_stream_stub * hipStream_t;
typedef enum hipError { hipSuccess = 0, hipErrorInvalidValue = 1, hipErrorNotReady = 600, hipErrorUnknown = 999 } hipError_t;
typedef void (* hipStreamCallback_t)( hipStream_t stream, hipError_t status, void * userData);
extern "C" hipError_t hipStreamAddCallback( hipStream_t stream, hipStreamCallback_t callback, void * userData, unsigned int flags);
// not used at the commit the contracts were written for
extern "C" hipError_t hipStreamQuery( hipStream_t stream);
extern "C" hipError_t hipStreamSynchronize( hipStream_t stream);
extern "C" hipError_t hipGetLastError();
