// Simulated device, implementation (included by one translation unit)
#ifndef SIM_DEVICE_H
#define SIM_DEVICE_H
#include "cuda.h"
#include <map>
#include <set>
#include <vector>
#include <deque>
#include <algorithm>
#include <sys/mman.h>
#include <string.h>
#include <stdint.h>

extern "C" { extern char __executable_start, end; extern char __data_start; }

uint3 threadIdx, blockIdx;
dim3 blockDim, gridDim;

namespace simcuda {
static const uintptr_t BASE = (uintptr_t(1) << 40) + (uintptr_t(1) << 37);
static const size_t SIZE = size_t(64) << 20;
struct Block { size_t n; bool tracked; };
struct State
{
    std::map<uintptr_t, Block> live;
    std::vector<std::pair<uintptr_t, size_t> > freed;
    std::set<uintptr_t> alive;                 // member objects with a life time on the device
    std::deque<std::pair<std::pair<dim3, dim3>, std::function<void()> > > queue;
    uintptr_t next;
    uint64_t limit, used;
    bool deferred, zero_ok, device, accessed;
    uintptr_t stack_limit;
    cudaError_t last;
    uint64_t launches, threads;
};
static State *st;

inline bool in_device(uintptr_t a) { return a - BASE < SIZE; }
static std::map<uintptr_t, Block>::iterator find(uintptr_t a)
{
    std::map<uintptr_t, Block>::iterator i = st->live.upper_bound(a);
    if (i == st->live.begin()) return st->live.end();
    --i;
    return a < i->first + i->second.n ? i : st->live.end();
}
static void check_range(const void *p, size_t n, const char *what)
{
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    if (!in_device(a)) sim::fail("device-memory", "%s: expected device memory, but got a host pointer", what);
    std::map<uintptr_t, Block>::iterator i = find(a);
    if (i == st->live.end()) sim::fail("device-memory", "%s: device memory which is not allocated", what);
    if (a + n > i->first + i->second.n) sim::fail("device-memory", "%s: %zu bytes at offset %llu of a device block of %zu bytes", what, n, (unsigned long long)(a - i->first), i->second.n);
}
static void check_host(const void *p, size_t n, const char *what)
{
    if (in_device(reinterpret_cast<uintptr_t>(p))) sim::fail("device-memory", "%s: expected host memory, but got a device pointer", what);
    if (!p) sim::fail("device-memory", "%s: null pointer", what);
    if (sim::in_arena(p) && !sim::in_heap(p, n)) sim::fail("device-memory", "%s: %zu bytes exceed the host block", what, n);
}
static void on_access(uintptr_t a, size_t n, bool w)
{
    if (in_device(a)) {
        if (!st->device) sim::fail("host-touches-device", "host code %s device memory", w ? "writes to" : "reads from");
        std::map<uintptr_t, Block>::iterator i = find(a);
        if (i == st->live.end()) sim::fail("device-memory", "device code %s device memory which is not allocated", w ? "writes to" : "reads from");
        if (a + n > i->first + i->second.n)
            sim::fail("device-memory", "device code %s %zu bytes at offset %llu of a device block of %zu bytes", w ? "writes" : "reads", n, (unsigned long long)(a - i->first), i->second.n);
        st->accessed = true;
        sim::device_access(a, n, w);
        return;
    }
    if (!st->device) return;
    if (sim::in_stack(reinterpret_cast<void*>(a))) {
        if (a >= st->stack_limit) sim::fail("device-touches-host", "device code %s a variable of a host function", w ? "writes to" : "reads from");
        return;
    }
    bool image = a >= reinterpret_cast<uintptr_t>(&__executable_start) && a < reinterpret_cast<uintptr_t>(&end);
    if (image && !w) return;
    sim::fail("device-touches-host", "device code %s host memory", w ? "writes to" : "reads from");
}
__attribute__((no_sanitize("kernel-address"))) void enter_device(void *limit) { st->device = true; st->stack_limit = reinterpret_cast<uintptr_t>(limit); }
__attribute__((no_sanitize("kernel-address"))) void leave_device() { st->device = false; }

static uint64_t prng(uint64_t& s) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
static void execute(dim3 g, dim3 b, const std::function<void()>& thread)
{
    size_t blocks = size_t(g.x) * g.y * g.z, per = size_t(b.x) * b.y * b.z, n = blocks * per;
    if (n > (size_t(1) << 24)) sim::fail("no-progress", "launch of %zu threads for a small grid", n);
    size_t order = sim::choose(4);
    uint64_t seed = order >= 2 ? sim::choose(1u << 30) * 2654435761u + 88172645463325252ull : 1;
    sim::new_epoch();
    ++st->launches; st->threads += n;
    std::vector<uint32_t> ids(n);
    for (size_t i = 0; i < n; ++i) ids[i] = uint32_t(i);
    if (order == 1) std::reverse(ids.begin(), ids.end());
    if (order == 2) for (size_t i = n; i > 1; --i) std::swap(ids[i - 1], ids[prng(seed) % i]);
    if (order == 3) {
        // blocks in random order, warps of a block in random order
        std::vector<uint32_t> warps;
        for (size_t i = 0; i < n; i += 32) warps.push_back(uint32_t(i));
        for (size_t i = warps.size(); i > 1; --i) std::swap(warps[i - 1], warps[prng(seed) % i]);
        ids.clear();
        for (size_t i = 0; i < warps.size(); ++i) for (size_t k = 0; k < 32 && warps[i] + k < n; ++k) ids.push_back(uint32_t(warps[i] + k));
    }
    gridDim = g; blockDim = b;
    int number = 0;
    for (size_t i = 0; i < n; ++i) {
        uint32_t id = ids[i], t = uint32_t(id % per), k = uint32_t(id / per);
        threadIdx.x = t % b.x; threadIdx.y = t / b.x % b.y; threadIdx.z = t / b.x / b.y;
        blockIdx.x = k % g.x; blockIdx.y = k / g.x % g.y; blockIdx.z = k / g.x / g.y;
        // only threads which access device memory need a number of their own
        sim::set_virtual_thread(number);
        st->accessed = false;
        thread();
        if (st->accessed && number < 65000) ++number;
    }
    sim::set_virtual_thread(-1);
}
static void flush()
{
    while (!st->queue.empty()) {
        auto e = st->queue.front();
        st->queue.pop_front();
        execute(e.first.first, e.first.second, e.second);
    }
}
void enqueue(dim3 g, dim3 b, std::function<void()> thread)
{
    if (st->device) sim::fail("device-memory", "kernel launched by device code");
    size_t per = size_t(b.x) * b.y * b.z;
    if (g.x == 0 || g.y == 0 || g.z == 0 || per == 0 || per > 1024 || b.z > 64 || g.y > 65535 || g.z > 65535 || g.x > 2147483647u) {
        st->last = cudaErrorInvalidConfiguration;
        sim::count("reach.launch_rejected");
        return;
    }
    if (st->deferred) st->queue.push_back(std::make_pair(std::make_pair(g, b), thread));
    else execute(g, b, thread);
}
cudaError_t malloc_(void **p, size_t n)
{
    sim::Outside o;
    if (st->device) sim::fail("device-memory", "allocation by device code");
    if (n == 0) {
        if (st->zero_ok) { *p = 0; return cudaSuccess; }
        return st->last = cudaErrorInvalidValue;
    }
    if (n > st->limit || st->used + n > st->limit || sim::fault_point(sim::FAULT_DEVICE_ALLOC)) {
        // *p is left alone
        sim::count("reach.device_allocation_failed");
        return st->last = cudaErrorMemoryAllocation;
    }
    uintptr_t a = 0;
    size_t up = (n + 255) & ~size_t(255);
    if (!st->freed.empty() && sim::chance(1, 2)) {
        for (size_t k = st->freed.size(); k-- > 0;) if (st->freed[k].second >= up) {
            a = st->freed[k].first;
            st->freed.erase(st->freed.begin() + k);
            break;
        }
    }
    if (!a) {
        a = st->next + 256 * sim::choose(4);
        if (a + up + 512 > BASE + SIZE) return st->last = cudaErrorMemoryAllocation;
        st->next = a + up + 256;
    }
    Block b = { n, false };
    st->live[a] = b;
    st->used += n;
    sim::fill_garbage(reinterpret_cast<void*>(a), up);
    *p = reinterpret_cast<void*>(a);
    return cudaSuccess;
}
static void born(const void *p)
{
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    if (!in_device(a)) return;
    sim::Outside o;
    std::map<uintptr_t, Block>::iterator i = find(a);
    if (i == st->live.end()) sim::fail("device-memory", "member constructed in device memory which is not allocated");
    i->second.tracked = true;
    if (!st->alive.insert(a).second) sim::fail("lifetime", "member on the device constructed twice");
}
static void dead(const void *p)
{
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    if (!in_device(a)) return;
    sim::Outside o;
    if (!st->alive.erase(a)) sim::fail("lifetime", "member on the device destroyed without being alive");
}
static void used(const void *p, const char *how)
{
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    if (!in_device(a)) return;
    sim::Outside o;
    std::map<uintptr_t, Block>::iterator i = find(a);
    // staging buffers hold bytewise copies
    if (i != st->live.end() && i->second.tracked && !st->alive.count(a)) sim::fail("lifetime", "device code %s a member which is not alive", how);
}
static void init()
{
    st = new State();
    void *m = mmap(reinterpret_cast<void*>(BASE), SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (m != reinterpret_cast<void*>(BASE)) sim::fail("harness", "no device memory");
    st->next = BASE + 4096;
    st->limit = SIZE;
    st->used = 0;
    st->deferred = sim::choose(2) != 0;
    st->zero_ok = !sim::choose(2);
    st->device = false;
    st->last = cudaSuccess;
    st->launches = st->threads = 0;
    sim::set_access_hook(on_access);
    sim::set_race_checks(true);
}
static void finish()
{
    flush();
    if (!st->live.empty()) sim::fail("device-leak", "%zu blocks of device memory were never released", st->live.size());
    sim::count("device.launches", st->launches);
    sim::count("device.threads", st->threads);
}
}

cudaError_t cudaFree(void *p)
{
    using namespace simcuda;
    sim::Outside o;
    flush();
    if (!p) return cudaSuccess;
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    std::map<uintptr_t, Block>::iterator i = st->live.find(a);
    if (!in_device(a) || i == st->live.end()) sim::fail("device-memory", "cudaFree() of something which is not (or no longer) allocated on the device");
    std::set<uintptr_t>::iterator m = st->alive.lower_bound(a);
    if (m != st->alive.end() && *m < a + i->second.n) sim::fail("lifetime", "device memory released while it contains members which are alive");
    size_t up = (i->second.n + 255) & ~size_t(255);
    sim::fill_garbage(p, up);
    st->used -= i->second.n;
    st->live.erase(i);
    st->freed.push_back(std::make_pair(a, up));
    return cudaSuccess;
}
cudaError_t cudaMemcpy(void *dst, const void *src, size_t n, cudaMemcpyKind kind)
{
    using namespace simcuda;
    sim::Outside o;
    flush();
    if (n == 0) return cudaSuccess;
    switch (kind) {
    case cudaMemcpyHostToDevice: check_range(dst, n, "copy to device, target"); check_host(src, n, "copy to device, source"); break;
    case cudaMemcpyDeviceToHost: check_host(dst, n, "copy to host, target"); check_range(src, n, "copy to host, source"); break;
    case cudaMemcpyDeviceToDevice: {
        check_range(dst, n, "copy on device, target"); check_range(src, n, "copy on device, source");
        uintptr_t a = reinterpret_cast<uintptr_t>(dst), b = reinterpret_cast<uintptr_t>(src);
        if (a != b && a < b + n && b < a + n) sim::fail("device-memory", "copy on device between overlapping ranges");
        break;
    }
    case cudaMemcpyHostToHost: check_host(dst, n, "copy on host, target"); check_host(src, n, "copy on host, source"); break;
    default:
        if (in_device(reinterpret_cast<uintptr_t>(dst))) check_range(dst, n, "copy, target"); else check_host(dst, n, "copy, target");
        if (in_device(reinterpret_cast<uintptr_t>(src))) check_range(src, n, "copy, source"); else check_host(src, n, "copy, source");
    }
    memmove(dst, src, n);
    return cudaSuccess;
}
cudaError_t cudaMemcpyAsync(void *dst, const void *src, size_t n, cudaMemcpyKind kind, cudaStream_t) { return cudaMemcpy(dst, src, n, kind); }
cudaError_t cudaMemset(void *dst, int v, size_t n) { sim::Outside o; simcuda::flush(); if (n) { simcuda::check_range(dst, n, "memset"); memset(dst, v, n); } return cudaSuccess; }
cudaError_t cudaDeviceSynchronize() { sim::Outside o; simcuda::flush(); return cudaSuccess; }
cudaError_t cudaThreadSynchronize() { return cudaDeviceSynchronize(); }
cudaError_t cudaGetLastError() { cudaError_t e = simcuda::st->last; simcuda::st->last = cudaSuccess; return e; }
cudaError_t cudaPeekAtLastError() { return simcuda::st->last; }
const char *cudaGetErrorString(cudaError_t) { return "simulated"; }
#endif
