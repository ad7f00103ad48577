// Data races under virtual threads: the code under test is compiled with -fsanitize=thread, but linked against
// this runtime instead of the compiler's.  Every memory access is a place where the scheduler may switch threads,
// and vector clocks tell accesses that no synchronisation orders, whichever order they happened to run in.
#include "sim.hpp"
#include "vt.hpp"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <dlfcn.h>
#include <link.h>
#include <sys/mman.h>

namespace
{
const char * sim_begin = nullptr, * sim_end = nullptr; // the simulator's own code
constexpr int N = 6; // threads that are followed
using clk = std::uint32_t;
struct vclock { clk c[N] = {}; void join(const vclock & o) { for (int i = 0; i < N; i++) c[i] = std::max(c[i], o.c[i]); } };
vclock now[N];
std::map<const void *, vclock> objects;
bool started = false; // more than one thread existed
std::uint64_t gap = 0;
bool busy = false;

struct cell { clk w; std::uint8_t wt, wm; std::uint8_t rm[N]; clk r[N]; const void * wpc; const void * rpc[N]; };
constexpr std::size_t page = 4096, cells = page / 8;
std::map<std::uintptr_t, cell *> pages;
std::uintptr_t last_no = ~0ull; cell * last = nullptr;
cell & at(std::uintptr_t a)
{
  std::uintptr_t no = a / page;
  if (no != last_no)
  {
    auto & p = pages[no];
    if (!p) p = static_cast<cell *>(mmap(nullptr, cells * sizeof(cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    last_no = no; last = p;
  }
  return last[a % page / 8];
}
void forget(const void * p, std::size_t n, const void * pc)
{
  if (!p || !vt::enabled || (pc >= sim_begin && pc < sim_end)) return;
  vt::forget(p, n);
  objects.erase(objects.lower_bound(p), objects.lower_bound(static_cast<const char *>(p) + n));
  if (!started) return;
  std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p) & ~7ull, e = reinterpret_cast<std::uintptr_t>(p) + n;
  for (; a < e; a += 8)
  {
    auto it = pages.find(a / page);
    if (it == pages.end()) { a |= page - 8; continue; }
    std::memset(&it->second[a % page / 8], 0, sizeof(cell));
  }
}
// the variables of the program, i.e. of the harness
const char * statics_begin = nullptr, * statics_end = nullptr;
int find_statics(dl_phdr_info * i, std::size_t, void *)
{
  bool first = !statics_end, self = false;
  auto here = reinterpret_cast<const char *>(&find_statics);
  const char * lo = nullptr, * hi = nullptr;
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (auto & h = i->dlpi_phdr[k]; h.p_type == PT_LOAD)
    {
      auto * b = reinterpret_cast<const char *>(i->dlpi_addr + h.p_vaddr), * e = b + h.p_memsz;
      if (!lo || b < lo) lo = b;
      if (e > hi) hi = e;
      if (here >= b && here < e) self = true;
    }
  if (self) { sim_begin = lo; sim_end = hi; }
  if (!first) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (auto & h = i->dlpi_phdr[k]; h.p_type == PT_LOAD && h.p_flags & PF_W)
      statics_begin = reinterpret_cast<const char *>(i->dlpi_addr + h.p_vaddr), statics_end = statics_begin + h.p_memsz;
  return 0; // the first object is the program
}
void name(char * b, std::size_t n, const void * pc)
{
  Dl_info i;
  std::snprintf(b, n, "+0x%lx", dladdr(pc, &i) ? (unsigned long)(static_cast<const char *>(pc) - static_cast<char *>(i.dli_fbase)) : 0ul);
}
[[noreturn]] void race(const char * what, int t, const void * pc, const char * before, int u, const void * pc2)
{
  char a[32], b[32];
  name(a, 32, pc); name(b, 32, pc2);
  busy = true;
  sim::violation("thread:race", "%s by thread %d (at %s) isn't ordered after %s by thread %d (at %s)", what, t, a, before, u, b);
}
void step_();
void access(const void * p, unsigned n, bool write, const void * pc)
{
  if (!started || busy) return;
  int t = vt::self();
  if (t < 0 || t >= N) return;
  step_();
  const char * q = static_cast<const char *>(p);
  if (q >= statics_begin && q < statics_end) return; // statics: the harness's
  std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p);
  while (n)
  {
    unsigned off = a & 7, k = std::min(n, 8 - off);
    std::uint8_t m = static_cast<std::uint8_t>(((1u << k) - 1) << off);
    cell & c = at(a);
    if (c.wm & m && c.wt != t && c.w > now[t].c[c.wt]) race(write ? "a write" : "a read", t, pc, "a write", c.wt, c.wpc);
    if (write)
    {
      for (int i = 0; i < N; i++)
        if (i != t && c.rm[i] & m && c.r[i] > now[t].c[i]) race("a write", t, pc, "a read", i, c.rpc[i]);
      if (c.wt == t && c.w == now[t].c[t]) c.wm |= m; else { c.wt = (std::uint8_t)t; c.w = now[t].c[t]; c.wm = m; }
      c.wpc = pc;
    }
    else
    {
      if (c.r[t] == now[t].c[t]) c.rm[t] |= m; else { c.r[t] = now[t].c[t]; c.rm[t] = m; }
      c.rpc[t] = pc;
    }
    a += k; n -= k;
  }
}
// the number of accesses until threads are switched in the middle of something
void step_()
{
  if (gap == 0)
  {
    gap = 1 + sim::choose(1u << (4 + sim::choose(14, "gap")), "accesses");
    return;
  }
  if (--gap == 0)
  {
    vt::point("access");
  }
}
void acquire(const void * o) { int t = vt::self(); if (t < 0 || t >= N) return; auto it = objects.find(o); if (it != objects.end()) now[t].join(it->second); }
void release(const void * o) { int t = vt::self(); if (t < 0 || t >= N) return; objects[o].join(now[t]); now[t].c[t]++; }
void on_sync(vt::sync k, const void * o, int other)
{
  int t = vt::self();
  if (t < 0 || t >= N) return;
  if (!started) { for (int i = 0; i < N; i++) now[i].c[i] = 1; }
  switch (k)
  {
    case vt::sync::acquire: acquire(o); break;
    case vt::sync::release: release(o); break;
    case vt::sync::create: started = true; if (other < N) now[other].join(now[t]); now[t].c[t]++; break;
    case vt::sync::join: if (other < N) now[t].join(now[other]); break;
  }
}
struct install { install() { vt::on_sync = on_sync; dl_iterate_phdr(find_statics, nullptr); } } install_;
bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
template<typename T, typename F> T atomic(volatile T * a, int mo, F f)
{
  auto * p = const_cast<const T *>(a);
  if (started && !busy && vt::self() >= 0) step_();
  if (started && acq(mo)) acquire(p);
  T r = f();
  if (started && rel(mo)) release(p);
  return r;
}
}
#define PC __builtin_return_address(0)
extern "C"
{
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_read1(void * p) { access(p, 1, false, PC); }
void __tsan_read2(void * p) { access(p, 2, false, PC); }
void __tsan_read4(void * p) { access(p, 4, false, PC); }
void __tsan_read8(void * p) { access(p, 8, false, PC); }
void __tsan_read16(void * p) { access(p, 16, false, PC); }
void __tsan_write1(void * p) { access(p, 1, true, PC); }
void __tsan_write2(void * p) { access(p, 2, true, PC); }
void __tsan_write4(void * p) { access(p, 4, true, PC); }
void __tsan_write8(void * p) { access(p, 8, true, PC); }
void __tsan_write16(void * p) { access(p, 16, true, PC); }
void __tsan_unaligned_read2(void * p) { access(p, 2, false, PC); }
void __tsan_unaligned_read4(void * p) { access(p, 4, false, PC); }
void __tsan_unaligned_read8(void * p) { access(p, 8, false, PC); }
void __tsan_unaligned_read16(void * p) { access(p, 16, false, PC); }
void __tsan_unaligned_write2(void * p) { access(p, 2, true, PC); }
void __tsan_unaligned_write4(void * p) { access(p, 4, true, PC); }
void __tsan_unaligned_write8(void * p) { access(p, 8, true, PC); }
void __tsan_unaligned_write16(void * p) { access(p, 16, true, PC); }
void __tsan_read_range(void * p, unsigned long n) { access(p, (unsigned)n, false, PC); }
void __tsan_write_range(void * p, unsigned long n) { access(p, (unsigned)n, true, PC); }
void __tsan_vptr_read(void ** p) { access(p, 8, false, PC); }
void __tsan_vptr_update(void ** p, void * v) { if (*p != v) access(p, 8, true, PC); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T * a, int mo) { return atomic(const_cast<volatile T *>(a), mo, [=] { return __atomic_load_n(a, __ATOMIC_SEQ_CST); }); } \
void __tsan_atomic##B##_store(volatile T * a, T v, int mo) { atomic(a, mo, [=] { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return T(); }); } \
T __tsan_atomic##B##_exchange(volatile T * a, T v, int mo) { return atomic(a, mo, [=] { return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); }); } \
T __tsan_atomic##B##_fetch_add(volatile T * a, T v, int mo) { return atomic(a, mo, [=] { return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }); } \
T __tsan_atomic##B##_fetch_sub(volatile T * a, T v, int mo) { return atomic(a, mo, [=] { return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }); } \
T __tsan_atomic##B##_fetch_and(volatile T * a, T v, int mo) { return atomic(a, mo, [=] { return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }); } \
T __tsan_atomic##B##_fetch_or(volatile T * a, T v, int mo) { return atomic(a, mo, [=] { return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }); } \
T __tsan_atomic##B##_fetch_xor(volatile T * a, T v, int mo) { return atomic(a, mo, [=] { return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }); } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T * a, T * c, T v, int mo, int) { return atomic(a, mo, [=] { return (T)__atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }); } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T * a, T * c, T v, int mo, int) { return atomic(a, mo, [=] { return (T)__atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T * a, T c, T v, int mo, int) { return atomic(a, mo, [=] { T e = c; __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }); }
AT(8, std::uint8_t) AT(16, std::uint16_t) AT(32, std::uint32_t) AT(64, std::uint64_t)

// initialisation of function-local statics
int __cxa_guard_acquire(char * g)
{
  if (__atomic_load_n(g, __ATOMIC_ACQUIRE)) { if (started) acquire(g); return 0; }
  if (g[1]) vt::wait([g] { return !g[1]; }, "initialisation");
  if (*g) { if (started) acquire(g); return 0; }
  g[1] = 1;
  return 1;
}
void __cxa_guard_release(char * g) { g[1] = 0; __atomic_store_n(g, 1, __ATOMIC_RELEASE); if (started) release(g); }
void __cxa_guard_abort(char * g) { g[1] = 0; }

// memory that is handed out again has no history
void * __libc_malloc(std::size_t); void __libc_free(void *); void * __libc_memalign(std::size_t, std::size_t);
void * aligned_alloc(std::size_t al, std::size_t n) { void * p = __libc_memalign(al, n); forget(p, n, __builtin_return_address(0)); return p; }
int posix_memalign(void ** o, std::size_t al, std::size_t n) { *o = __libc_memalign(al, n); forget(*o, n, __builtin_return_address(0)); return *o ? 0 : 12; }
}
void * operator new(std::size_t n) { void * p = __libc_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); forget(p, n, __builtin_return_address(0)); return p; }
void * operator new[](std::size_t n) { void * p = __libc_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); forget(p, n, __builtin_return_address(0)); return p; }
void * operator new(std::size_t n, std::align_val_t al) { void * p = __libc_memalign((std::size_t)al, n); if (!p) throw std::bad_alloc(); forget(p, n, __builtin_return_address(0)); return p; }
void operator delete(void * p) noexcept { __libc_free(p); }
void operator delete[](void * p) noexcept { __libc_free(p); }
void operator delete(void * p, std::size_t) noexcept { __libc_free(p); }
void operator delete[](void * p, std::size_t) noexcept { __libc_free(p); }
void operator delete(void * p, std::align_val_t) noexcept { __libc_free(p); }
void operator delete(void * p, std::size_t, std::align_val_t) noexcept { __libc_free(p); }
