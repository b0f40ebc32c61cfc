// The part of CUDA's language that kernels use, for running them on the simulated device (see cusim.cc).
// Every access to memory goes through hooks inserted by the compiler (-fsanitize=thread with our own runtime).
#pragma once
#include <math.h>
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <string.h>

#define __device__
#define __host__
#define __global__ __attribute__((visibility("default"), used))
#define __constant__ static
#define __forceinline__ inline
#define __noinline__ __attribute__((noinline))
#define __launch_bounds__(...)
#define __align__(n) __attribute__((aligned(n)))
#define __restrict__ __restrict
#define __shared__ static __attribute__((section("cushared")))

struct cusim_dim3 { unsigned x, y, z; };
extern "C" {
extern cusim_dim3 cusim_threadIdx, cusim_blockIdx, cusim_blockDim, cusim_gridDim;
void *cusim_dyn_shared(void);
void cusim_syncthreads(int site);
int cusim_syncthreads_count(int pred);
void cusim_syncwarp(unsigned mask);
uint64_t cusim_exchange(unsigned mask, uint64_t v, int op, int arg, int width, int size);
unsigned cusim_ballot(unsigned mask, int pred);
float cusim_atomicAddf(float *, float);
double cusim_atomicAddd(double *, double);
int cusim_atomicAddi(int *, int);
unsigned long long cusim_atomicAddl(unsigned long long *, unsigned long long);
int cusim_atomicMaxi(int *, int);
int cusim_atomicMini(int *, int);
int cusim_atomicExchi(int *, int);
int cusim_atomicCASi(int *, int, int);
unsigned long long cusim_atomicCASl(unsigned long long *, unsigned long long, unsigned long long);
void cusim_fence(void);
}
typedef cusim_dim3 dim3;
#define threadIdx cusim_threadIdx
#define blockIdx cusim_blockIdx
#define blockDim cusim_blockDim
#define gridDim cusim_gridDim
static const int warpSize = 32;

static inline void __syncthreads() { cusim_syncthreads(0); }
static inline int __syncthreads_count(int p) { return cusim_syncthreads_count(p); }
static inline int __syncthreads_or(int p) { return cusim_syncthreads_count(p) > 0; }
static inline void __syncwarp(unsigned mask = 0xffffffffu) { cusim_syncwarp(mask); }
static inline void __threadfence() { cusim_fence(); }
static inline void __threadfence_block() { cusim_fence(); }
static inline unsigned __ballot_sync(unsigned m, int p) { return cusim_ballot(m, p); }
static inline int __any_sync(unsigned m, int p) { return cusim_ballot(m, p) != 0; }
static inline int __all_sync(unsigned m, int p) { return cusim_ballot(m, p) == m; }

template <class T> static inline T cusim_shfl(unsigned m, T v, int op, int arg, int width) {
    union { T t; uint64_t u; } a;
    a.u = 0;
    a.t = v;
    a.u = cusim_exchange(m, a.u, op, arg, width, sizeof(T));
    return a.t;
}
template <class T> static inline T __shfl_sync(unsigned m, T v, int l, int w = 32) { return cusim_shfl(m, v, 0, l, w); }
template <class T> static inline T __shfl_up_sync(unsigned m, T v, unsigned d, int w = 32) { return cusim_shfl(m, v, 1, (int) d, w); }
template <class T> static inline T __shfl_down_sync(unsigned m, T v, unsigned d, int w = 32) { return cusim_shfl(m, v, 2, (int) d, w); }
template <class T> static inline T __shfl_xor_sync(unsigned m, T v, int d, int w = 32) { return cusim_shfl(m, v, 3, d, w); }

static inline float atomicAdd(float *p, float v) { return cusim_atomicAddf(p, v); }
static inline double atomicAdd(double *p, double v) { return cusim_atomicAddd(p, v); }
static inline int atomicAdd(int *p, int v) { return cusim_atomicAddi(p, v); }
static inline unsigned atomicAdd(unsigned *p, unsigned v) { return (unsigned) cusim_atomicAddi((int *) p, (int) v); }
static inline unsigned long long atomicAdd(unsigned long long *p, unsigned long long v) { return cusim_atomicAddl(p, v); }
static inline int atomicMax(int *p, int v) { return cusim_atomicMaxi(p, v); }
static inline int atomicMin(int *p, int v) { return cusim_atomicMini(p, v); }
static inline int atomicExch(int *p, int v) { return cusim_atomicExchi(p, v); }
static inline int atomicCAS(int *p, int c, int v) { return cusim_atomicCASi(p, c, v); }
static inline unsigned long long atomicCAS(unsigned long long *p, unsigned long long c, unsigned long long v) { return cusim_atomicCASl(p, c, v); }

template <class T> static inline T __ldg(const T *p) { return *p; }
#define __expf expf
#define __logf logf
#define __sinf sinf
#define __cosf cosf
#define __powf powf
static inline float __fdividef(float a, float b) { return a / b; }
static inline float rsqrtf(float x) { return 1.0f / sqrtf(x); }
static inline void sincospif(float x, float *s, float *c) { *s = sinf(x * (float) M_PI); *c = cosf(x * (float) M_PI); }
static inline long long __double_as_longlong(double d) { long long v; memcpy(&v, &d, 8); return v; }
static inline double __longlong_as_double(long long l) { double d; memcpy(&d, &l, 8); return d; }
static inline int __float_as_int(float f) { int v; memcpy(&v, &f, 4); return v; }
static inline float __int_as_float(int i) { float f; memcpy(&f, &i, 4); return f; }
static inline int min(int a, int b) { return a < b ? a : b; }
static inline int max(int a, int b) { return a > b ? a : b; }
static inline unsigned min(unsigned a, unsigned b) { return a < b ? a : b; }
static inline unsigned max(unsigned a, unsigned b) { return a > b ? a : b; }
static inline float min(float a, float b) { return fminf(a, b); }
static inline float max(float a, float b) { return fmaxf(a, b); }
static inline double min(double a, double b) { return fmin(a, b); }
static inline double max(double a, double b) { return fmax(a, b); }
