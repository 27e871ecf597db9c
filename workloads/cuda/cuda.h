// Stand-in for the CUDA runtime: device memory is a separate region of the
// simulated machine, kernels run thread by thread in an order decided by the seed.
#ifndef SIM_CUDA_H
#define SIM_CUDA_H
#include "../../engine/sim.h"
#include <cstddef>
#include <functional>
#include <tuple>
#include <utility>

#define __host__
#define __device__
#define __global__
#define __shared__
#define __constant__
#define __forceinline__ inline

struct dim3 { unsigned x, y, z; dim3(unsigned x = 1, unsigned y = 1, unsigned z = 1) : x(x), y(y), z(z) {} };
struct uint3 { unsigned x, y, z; };
extern uint3 threadIdx, blockIdx;
extern dim3 blockDim, gridDim;

enum cudaError_t { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorMemoryAllocation = 2, cudaErrorInvalidConfiguration = 9, cudaErrorInsufficientDriver = 35, cudaErrorNoDevice = 100 };
typedef cudaError_t cudaError;
enum cudaMemcpyKind { cudaMemcpyHostToHost, cudaMemcpyHostToDevice, cudaMemcpyDeviceToHost, cudaMemcpyDeviceToDevice, cudaMemcpyDefault };
typedef struct CUstream_st *cudaStream_t;

namespace simcuda {
cudaError_t malloc_(void **p, size_t n);
void enqueue(dim3 grid, dim3 block, std::function<void()> thread);
void enter_device(void *stack_limit);
void leave_device();
struct DeviceScope { sim::LibOp op; explicit DeviceScope(void *limit) : op("device code") { enter_device(limit); } ~DeviceScope() { leave_device(); } };

template<size_t... I> struct Indices {};
template<size_t N, size_t... I> struct Make : Make<N - 1, N - 1, I...> {};
template<size_t... I> struct Make<0, I...> { typedef Indices<I...> type; };

template<typename F, typename T, size_t... I> __attribute__((noinline)) void call(const F& f, const T& args, Indices<I...>)
{
    T local(args);
    // arguments have been copied to the device, it can see nothing above this frame
    DeviceScope scope(__builtin_frame_address(0));
    f(std::get<I>(local)...);
}
struct Launch
{
    dim3 grid, block;
    template<typename F, typename... A> void run(F f, A... a)
    {
        sim::Outside o;
        std::tuple<A...> args(a...);
        enqueue(grid, block, [f, args]() { call(f, args, typename Make<sizeof...(A)>::type()); });
    }
};
inline Launch launch(dim3 grid, dim3 block, size_t = 0, cudaStream_t = 0) { Launch l = { grid, block }; return l; }
}

template<typename T> cudaError_t cudaMalloc(T **p, size_t n) { void *r = *p; cudaError_t e = simcuda::malloc_(&r, n); *p = static_cast<T*>(r); return e; }
cudaError_t cudaFree(void *p);
cudaError_t cudaMemcpy(void *dst, const void *src, size_t n, cudaMemcpyKind kind);
cudaError_t cudaMemcpyAsync(void *dst, const void *src, size_t n, cudaMemcpyKind kind, cudaStream_t = 0);
cudaError_t cudaMemset(void *dst, int value, size_t n);
inline cudaError_t cudaMemsetAsync(void *dst, int value, size_t n, cudaStream_t = 0) { return cudaMemset(dst, value, n); }
cudaError_t cudaDeviceSynchronize();
inline cudaError_t cudaStreamSynchronize(cudaStream_t) { return cudaDeviceSynchronize(); }
cudaError_t cudaThreadSynchronize();
cudaError_t cudaGetLastError();
cudaError_t cudaPeekAtLastError();
const char *cudaGetErrorString(cudaError_t);
inline const char *cudaGetErrorName(cudaError_t e) { return cudaGetErrorString(e); }
inline cudaError_t cudaStreamCreate(cudaStream_t *s) { *s = 0; return cudaSuccess; }
inline cudaError_t cudaStreamDestroy(cudaStream_t) { return cudaSuccess; }
struct cudaDeviceProp { char name[256]; size_t totalGlobalMem; int major, minor, multiProcessorCount; };
cudaError_t cudaGetDevice(int *device);
cudaError_t cudaGetDeviceCount(int *count);
cudaError_t cudaGetDeviceProperties(cudaDeviceProp *prop, int device);
#endif
