#include "vt.hpp"
#include "vk.hpp"
#include "sim.hpp"
#include <cerrno>
#include <ctime>
#include <deque>
#include <map>
#include <memory>
#include <vector>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>

namespace vt
{
bool enabled = false;
unsigned rate = 16;
bool spurious = true;
std::function<void()> on_idle;
int fail_create = -1;
void (*on_sync)(sync, const void *, int) = nullptr;
static void hb(sync k, const void * o, int t = -1) { if (on_sync) on_sync(k, o, t); }
namespace
{
struct thr
{
  int id = 0;
  sem_t sem;
  pthread_t real{};
  std::function<bool()> ready; // set while blocked
  const char * what = "";
  std::int64_t deadline = -1;
  bool done = false, detached = false, joined = false;
  void * (*fn)(void *) = nullptr; void * arg = nullptr; void * ret = nullptr;
};
std::vector<std::unique_ptr<thr>> threads;
thread_local thr * me = nullptr;
pthread_key_t key;
struct mtx { int owner = -1; };
std::map<const void *, mtx> mutexes;
struct cnd { std::vector<int> waiting; };
std::map<const void *, cnd> conds;

void touch(const void * p) { [[maybe_unused]] volatile char c = *static_cast<const volatile char *>(p); }

void hand_over(thr * n, bool wait_)
{
  thr * m = me;
  if (n == m) return;
  sem_post(&n->sem);
  if (!wait_) return;
  while (sem_wait(&m->sem) != 0);
}
bool can_run(thr & t) { return !t.done && (!t.ready || t.ready()); }

// picks who runs next; the caller is not eligible when it's blocked or done
bool picking = false; // conditions and idle handlers run inside of the scheduler
struct pick_scope { pick_scope() { picking = true; } ~pick_scope() { picking = false; } };
thr * pick()
{
  pick_scope scope_;
  for (;;)
  {
    std::vector<thr *> r;
    for (auto & t : threads) if (can_run(*t)) r.push_back(t.get());
    std::size_t n = vk::actions();
    if (!r.empty() && (n == 0 || sim::choose(4, "kernel?") != 3)) return r[sim::choose((std::uint32_t)r.size(), "thread")];
    sim::step();
    if (n) { vk::act(sim::choose((std::uint32_t)n, "which")); continue; }
    if (on_idle) on_idle();
    // time passes: the next timer or deadline
    std::int64_t dl = -1;
    for (auto & t : threads) if (!t->done && t->deadline >= 0 && (dl < 0 || t->deadline < dl)) dl = t->deadline;
    if (vk::has_timer() && (dl < 0 || sim::chance(1, 2, "timer-first"))) { if (vk::advance()) continue; }
    if (dl >= 0) { if (sim::steady_ns + sim::steady_base_ns < dl) vk::pass(dl - sim::steady_ns - sim::steady_base_ns); continue; }
    std::string w;
    for (auto & t : threads) if (!t->done) w += " thread " + std::to_string(t->id) + ": " + t->what;
    sim::violation("hang", "no thread can ever run again:%s", w.c_str());
  }
}

void finish_thread(void *)
{
  me->done = true;
  sim::ev("thread %d ends", me->id);
  hand_over(pick(), false);
  for (;;) { static sem_t never; static bool init = (sem_init(&never, 0, 0), true); (void)init; sem_wait(&never); }
}

void * wrapper(void * p)
{
  me = static_cast<thr *>(p);
  while (sem_wait(&me->sem) != 0);
  pthread_setspecific(key, me);
  sim::ev("thread %d starts", me->id);
  me->ret = me->fn(me->arg);
  return me->ret;
}
}

int self() { return me ? me->id : -1; }
int alive() { int n = 0; for (auto & t : threads) n += !t->done; return n; }
bool finished(int id) { return threads[id]->done; }
void forget(const void * p, std::size_t n)
{
  auto * b = static_cast<const char *>(p);
  mutexes.erase(mutexes.lower_bound(b), mutexes.lower_bound(b + n));
}
void sync_finished() { for (auto & t : threads) if (t->done) hb(sync::join, nullptr, t->id); }
int created() { return (int)threads.size(); }

void start()
{
  pthread_key_create(&key, &finish_thread);
  auto t = std::make_unique<thr>();
  sem_init(&t->sem, 0, 0);
  me = t.get();
  threads.push_back(std::move(t));
  enabled = true;
  vk::on_wait = [](std::function<bool()> r, const char * w) { wait(std::move(r), w); };
  vk::on_switch = [](const char * name) { point(name); };
}

void point(const char *)
{
  if (!enabled || !me || picking) return;
  if (threads.size() < 2 || !sim::chance(rate, 64, "switch")) return;
  sim::step();
  thr * n = pick();
  if (n != me) { sim::ev("switch to thread %d", n->id); hand_over(n, true); }
}

void wait(std::function<bool()> ready, const char * what)
{
  if (ready()) return;
  sim::step();
  me->ready = ready;
  me->what = what;
  thr * n = pick();
  if (n != me) { sim::ev("thread %d waits (%s), thread %d runs", me->id, what, n->id); hand_over(n, true); }
  me->ready = nullptr;
}

void sleep(std::int64_t ns)
{
  std::int64_t d = sim::steady_ns + sim::steady_base_ns + ns;
  me->deadline = d;
  wait([d] { return sim::steady_ns + sim::steady_base_ns >= d; }, "sleep");
  me->deadline = -1;
}

namespace
{
template<typename F> F next(const char * name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
bool on() { return enabled && me; }
void lock_(const void * m)
{
  // a mutex that is locked for ever shows up as a hang
  if (mutexes[m].owner >= 0)
  {
    if (mutexes[m].owner == me->id) sim::violation("thread:relock", "a thread locks a mutex it holds");
    wait([m] { return mutexes[m].owner < 0; }, "mutex");
  }
  mutexes[m].owner = me->id;
  hb(sync::acquire, m);
}
void unlock_(const void * m)
{
  auto it = mutexes.find(m);
  if (it == mutexes.end() || it->second.owner != me->id) sim::violation("thread:unlock", "a thread unlocks a mutex it doesn't hold");
  hb(sync::release, m);
  bool contended = false;
  for (auto & t : threads) if (!t->done && t->ready) contended = true;
  if (contended) it->second.owner = -1; else mutexes.erase(it);
}
int cond_wait_(const void * c, const void * m, std::int64_t deadline)
{
  touch(c); touch(m);
  int id = me->id;
  conds[c].waiting.push_back(id);
  unlock_(m);
  bool spur = spurious && sim::chance(1, 16, "spurious");
  me->deadline = deadline;
  auto woken = [c, id] { for (int w : conds[c].waiting) if (w == id) return false; return true; };
  auto late = [deadline] { return deadline >= 0 && sim::steady_ns + sim::steady_base_ns >= deadline; };
  if (spur) { sim::fault("spurious-wakeup"); point("cond"); }
  else wait([=] { return woken() || late(); }, "condition");
  me->deadline = -1;
  int r = !woken() && late() ? ETIMEDOUT : 0;
  std::erase(conds[c].waiting, id);
  if (conds[c].waiting.empty()) conds.erase(c);
  lock_(m);
  return r;
}
}
}
using namespace vt;
extern "C"
{
int pthread_create(pthread_t * out, const pthread_attr_t * attr, void * (*fn)(void *), void * arg)
{
  static auto real = next<int (*)(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *)>("pthread_create");
  if (!on()) return real(out, attr, fn, arg);
  point("create");
  if (fail_create >= 0 && fail_create-- == 0) { sim::fault("fail-thread-create"); return EAGAIN; }
  auto t = std::make_unique<thr>();
  t->id = (int)threads.size();
  t->fn = fn; t->arg = arg;
  sem_init(&t->sem, 0, 0);
  auto * p = t.get();
  int r = real(&p->real, attr, &wrapper, p);
  if (r) sim::harness_error("pthread_create: %d", r);
  *out = p->real;
  threads.push_back(std::move(t));
  hb(sync::create, nullptr, p->id);
  sim::ev("thread %d created", p->id);
  point("created");
  return 0;
}
int pthread_join(pthread_t h, void ** ret)
{
  static auto real = next<int (*)(pthread_t, void **)>("pthread_join");
  if (!on()) return real(h, ret);
  point("join");
  for (auto & t : threads)
    if (t->id && pthread_equal(t->real, h))
    {
      auto * p = t.get();
      if (p == me) return EDEADLK;
      if (p->joined || p->detached) { sim::violation("thread:join", "a thread is joined although it was joined or detached"); }
      wait([p] { return p->done; }, "join");
      p->joined = true;
      hb(sync::join, nullptr, p->id);
      if (ret) *ret = p->ret;
      return 0;
    }
  return ESRCH;
}
int pthread_detach(pthread_t h)
{
  static auto real = next<int (*)(pthread_t)>("pthread_detach");
  if (!on()) return real(h);
  for (auto & t : threads) if (t->id && pthread_equal(t->real, h)) { t->detached = true; return 0; }
  return ESRCH;
}
int pthread_mutex_lock(pthread_mutex_t * m)
{
  static auto real = next<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
  if (!on()) return real(m);
  touch(m);
  point("lock");
  touch(m);
  lock_(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t * m)
{
  static auto real = next<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
  if (!on()) return real(m);
  touch(m);
  point("trylock");
  touch(m);
  auto it = mutexes.find(m);
  if (it != mutexes.end() && it->second.owner >= 0) return EBUSY;
  mutexes[m].owner = me->id;
  hb(sync::acquire, m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t * m)
{
  static auto real = next<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
  if (!on()) return real(m);
  touch(m);
  unlock_(m);
  point("unlock");
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t * m)
{
  static auto real = next<int (*)(pthread_mutex_t *)>("pthread_mutex_destroy");
  if (!on()) return real(m);
  touch(m);
  auto it = mutexes.find(m);
  if (it != mutexes.end() && it->second.owner >= 0) sim::violation("thread:destroy-locked", "a locked mutex is destroyed");
  if (it != mutexes.end()) mutexes.erase(it);
  return 0;
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
  static auto real = next<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait");
  if (!on()) return real(c, m);
  return cond_wait_(c, m, -1);
}
static std::int64_t deadline_of(clockid_t k, const timespec * t)
{
  std::int64_t v = t->tv_sec * 1000000000ll + t->tv_nsec;
  if (k == CLOCK_REALTIME) v = v - (sim::system_base_ns + sim::system_off_ns) + sim::steady_base_ns;
  return v < 0 ? 0 : v;
}
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const timespec * t)
{
  static auto real = next<int (*)(pthread_cond_t *, pthread_mutex_t *, const timespec *)>("pthread_cond_timedwait");
  if (!on()) return real(c, m, t);
  return cond_wait_(c, m, deadline_of(CLOCK_MONOTONIC, t));
}
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const timespec * t)
{
  static auto real = next<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *)>("pthread_cond_clockwait");
  if (!on()) return real(c, m, k, t);
  return cond_wait_(c, m, deadline_of(k, t));
}
int pthread_cond_signal(pthread_cond_t * c)
{
  static auto real = next<int (*)(pthread_cond_t *)>("pthread_cond_signal");
  if (!on()) return real(c);
  touch(c);
  auto it = conds.find(c);
  if (it != conds.end() && !it->second.waiting.empty())
  {
    auto & w = it->second.waiting;
    w.erase(w.begin() + sim::choose((std::uint32_t)w.size(), "wake"));
  }
  point("signal");
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t * c)
{
  static auto real = next<int (*)(pthread_cond_t *)>("pthread_cond_broadcast");
  if (!on()) return real(c);
  touch(c);
  auto it = conds.find(c);
  if (it != conds.end()) it->second.waiting.clear();
  point("broadcast");
  return 0;
}
}
