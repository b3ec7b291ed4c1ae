// declarations of the GPU run-time, as far as boost/fiber/cuda/waitfor.hpp uses it (no GPU tool kit is installed here)
#pragma once
typedef struct cu_stream_stub * cudaStream_t;
typedef enum cudaError { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorNotReady = 600, cudaErrorUnknown = 999 } cudaError_t;
typedef void (* cudaStreamCallback_t)( cudaStream_t stream, cudaError_t status, void * userData);
extern "C" cudaError_t cudaStreamAddCallback( cudaStream_t stream, cudaStreamCallback_t callback, void * userData, unsigned int flags);
// not used at the commit the contracts were written for
extern "C" cudaError_t cudaStreamQuery( cudaStream_t stream);
extern "C" cudaError_t cudaStreamSynchronize( cudaStream_t stream);
extern "C" cudaError_t cudaGetLastError();
