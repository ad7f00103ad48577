// P14: cobalt threads under a cooperative scheduler that interleaves them at every mutex, condition variable,
// thread operation and system call.
#include "../sim/coro.hpp"
#include "../sim/vk.hpp"
#include "../sim/vt.hpp"
#include <boost/cobalt/thread.hpp>
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/spawn.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/join.hpp>
#include <boost/cobalt/gather.hpp>
#include <boost/asio/steady_timer.hpp>
#include <boost/asio/detached.hpp>
#include <boost/asio/query.hpp>
#include <chrono>

const char * const sim_harness_name = "threads";
const char * sim_class_owner(const char * c) { return "P14"; }
using namespace sim;
using ct = asio::cancellation_type;

// how many event loops of cobalt threads exist
struct census : asio::execution_context::service
{
  using key_type = census;
  static inline asio::execution_context::id id;
  static inline int live = 0;
  explicit census(asio::execution_context & c) : asio::execution_context::service(c) { live++; }
  ~census() { live--; }
  void shutdown() override {}
};

enum class policy { abort, ignore };
struct leaf_script { int ms = 0; policy pol = policy::abort; };
struct body_t
{
  int id = 0;
  std::vector<leaf_script> steps;
  bool kids = false;      // runs a child promise, too
  bool lingers = false;   // waits until it's cancelled
  bool throws = false;
  bool stops = false;     // stops its own event loop and waits then
  body_t * inner = nullptr; // a further thread it runs and awaits
  // what happened
  bool started = false, finished = false, threw = false;
  int tid = -1;
  int locals = 0;
  int requested = 0, seen = 0; // cancellations
  ct last = ct::none;
  bool stopping = false;  // the thread object is being destroyed
};

static int leaves = 0;
struct leaf_state : std::enable_shared_from_this<leaf_state>
{
  asio::steady_timer tim;
  std::optional<cobalt::completion_handler<error_code>> h;
  body_t * b; leaf_script sc;
  leaf_state(asio::any_io_executor ex, body_t * b, leaf_script sc) : tim(ex), b(b), sc(sc) { leaves++; }
  ~leaf_state() { leaves--; }
  void start()
  {
    tim.expires_after(std::chrono::milliseconds(sc.ms));
    tim.async_wait([self = shared_from_this()](error_code ec)
      {
        auto h = std::move(*self->h);
        self->h.reset();
        asio::get_associated_cancellation_slot(h).clear();
        std::move(h)(ec);
      });
  }
};
struct leaf : cobalt::op<error_code>
{
  body_t * b; leaf_script sc;
  leaf(body_t * b, leaf_script sc) : b(b), sc(sc) {}
  void initiate(cobalt::completion_handler<error_code> h) override
  {
    auto st = std::make_shared<leaf_state>(asio::get_associated_executor(h), b, sc);
    auto slot = asio::get_associated_cancellation_slot(h);
    st->h.emplace(std::move(h));
    if (slot.is_connected())
      slot.assign([w = std::weak_ptr<leaf_state>(st)](ct t)
        {
          auto s = w.lock(); if (!s) return;
          if (s->b)
          {
            ev("body %d: cancellation %d", s->b->id, (int)t);
            SIM_CHECK(vt::self() == s->b->tid, "thread:wrong-thread", "a cancellation is delivered on thread %d, the coroutine runs on %d", vt::self(), s->b->tid);
            s->b->seen++; s->b->last = t;
          }
          if (s->sc.pol == policy::abort) s->tim.cancel();
        });
    st->start();
  }
};
struct local_
{
  body_t & b;
  local_(body_t & b) : b(b) { b.locals++; }
  local_(const local_ &) = delete;
  ~local_() { b.locals--; }
};

static void on_own_thread(body_t & b, const char * when)
{
  SIM_CHECK(vt::self() == b.tid, "thread:wrong-thread", "body %d runs on thread %d instead of %d (%s)", b.id, vt::self(), b.tid, when);
}
static cobalt::promise<int> kid(body_t & b)
{
  local_ l(b);
  co_await cobalt::this_coro::throw_if_cancelled(false);
  co_await cobalt::as_tuple(leaf(nullptr, {1}));
  on_own_thread(b, "child");
  co_return 5;
}

static cobalt::task<void> run_inner(body_t & i, body_t & b);
static cobalt::thread run_body(body_t & b)
{
  local_ l(b);
  b.started = true;
  b.tid = vt::self();
  ev("body %d starts on thread %d", b.id, b.tid);
  SIM_CHECK(b.tid != 0, "thread:wrong-thread", "the coroutine runs on the thread that created it");
  auto ex = co_await cobalt::this_coro::executor;
  SIM_CHECK(ex == cobalt::this_thread::get_executor(), "thread:executor", "this_coro::executor and this_thread::get_executor differ");
  asio::use_service<census>(asio::query(ex, asio::execution::context));
  co_await cobalt::this_coro::throw_if_cancelled(false);
  std::optional<cobalt::promise<int>> k;
  if (b.kids) k.emplace(kid(b));
  for (auto & s : b.steps)
  {
    co_await cobalt::as_tuple(leaf(&b, s));
    on_own_thread(b, "step");
  }
  if (b.inner) co_await run_inner(*b.inner, b);
  if (b.stops)
  {
    ev("body %d stops its loop", b.id);
    b.stopping = true;
    static_cast<asio::io_context &>(asio::query(ex, asio::execution::context)).stop();
    co_await cobalt::as_tuple(leaf(&b, {1, policy::ignore}));
    violation("thread:stop", "a coroutine went on after its event loop was stopped");
  }
  if (b.lingers)
    while (!b.seen) co_await cobalt::as_tuple(leaf(&b, {1000000, policy::abort}));
  if (k) SIM_CHECK(co_await std::move(*k) == 5, "thread:child", "wrong result of a child");
  if (b.seen && !b.kids && !b.inner)
    SIM_CHECK((co_await cobalt::this_coro::cancelled) == b.last, "thread:cancelled", "this_coro::cancelled says %d instead of %d", (int)(co_await cobalt::this_coro::cancelled), (int)b.last);
  if (b.throws) { ev("body %d throws", b.id); b.threw = true; throw boom{100 + b.id}; }
  ev("body %d done", b.id);
  b.finished = true;
}

struct awaiter_t
{
  bool done = false, started = false;
  int resumes = 0;
  outcome out;
  int tid = 0;
};
static void after_await(body_t & b, awaiter_t & w, outcome o)
{
  w.resumes++;
  ev("await of body %d: %s", b.id, ONAME(o));
  w.out = o;
  SIM_CHECK(vt::self() == w.tid, "thread:resumed-elsewhere", "the awaiter was resumed on thread %d instead of %d", vt::self(), w.tid);
  SIM_CHECK(b.finished || b.threw || b.stops, "thread:early", "the await of a thread completed before the thread's coroutine did");
  SIM_CHECK(b.stops || b.locals == 0, "thread:early", "the await of a thread completed before its coroutine was destroyed");
  if (b.threw) SIM_CHECK(!o.value && o.code == 100 + b.id, "thread:exception", "the coroutine threw %d, the await reported %s", 100 + b.id, ONAME(o));
  else SIM_CHECK(o.value, "thread:exception", "the coroutine returned, the await reported %s", ONAME(o));
}

// a thread that runs another one
static cobalt::task<void> run_inner(body_t & i, body_t & b)
{
  local_ l(b);
  co_await cobalt::this_coro::throw_if_cancelled(false);
  cobalt::thread t = run_body(i);
  outcome o;
  bool early = chance(1, 2, "early");
  if (!early) co_await cobalt::as_tuple(leaf(nullptr, {3}));
  on_own_thread(b, "before the inner thread");
  if (chance(1, 2, "rvalue")) co_await std::move(t); else co_await t;
  on_own_thread(b, "after the inner thread");
  SIM_CHECK(i.finished && i.locals == 0, "thread:early", "the await of a thread completed before the thread's coroutine did");
}

enum class how { lvalue, rvalue, lvalue_then_join };
static proc await_thread(actor & a, cobalt::thread & t, body_t & b, awaiter_t & w, how h, form f, int delay)
{
  w.started = true;
  if (delay) co_await cobalt::as_tuple(leaf(nullptr, {delay, policy::ignore}));
  ev("awaiting body %d", b.id);
  outcome o;
  switch (f)
  {
    case form::plain:
      try { if (h == how::rvalue) co_await std::move(t); else co_await t; o = outcome::ok(0); }
      catch (...) { o = outcome::err(classify(std::current_exception())); }
      break;
    case form::result:
      if (h == how::rvalue) o = from_result<void>(co_await cobalt::as_result(std::move(t))); else o = from_result<void>(co_await cobalt::as_result(t));
      break;
    case form::tuple:
      if (h == how::rvalue) o = from_tuple(std::get<0>(co_await cobalt::as_tuple(std::move(t)))); else o = from_tuple(std::get<0>(co_await cobalt::as_tuple(t)));
      break;
  }
  after_await(b, w, o);
  if (h == how::lvalue_then_join && t.joinable()) t.join();
  if (h == how::rvalue) SIM_CHECK(!t.joinable(), "thread:joinable", "a thread awaited as an rvalue can still be joined");
  w.done = true;
  W->guard.reset(); // the loop may end now
}

static std::vector<std::unique_ptr<body_t>> bodies;
static body_t & new_body()
{
  auto b = std::make_unique<body_t>();
  b->id = (int)bodies.size() + 1;
  int n = range(0, 3, "steps");
  for (int i = 0; i < n; i++)
  {
    static const int ms[] = {0, 1, 2, 3};
    b->steps.push_back({ms[choose(4, "ms")], (policy)choose(2, "policy")});
  }
  b->kids = chance(1, 3, "kids");
  bodies.push_back(std::move(b));
  return *bodies.back();
}

static ct random_type() { static const ct ts[] = {ct::terminal, ct::total, ct::partial}; return ts[choose(3, "type")]; }

static cobalt::task<int> visitor(body_t & b)
{
  local_ l(b);
  on_own_thread(b, "spawned");
  co_await cobalt::as_tuple(leaf(nullptr, {1}));
  on_own_thread(b, "spawned");
  co_return 7;
}

// awaits a thread on the main loop; cancels it now and then
static void scenario_await()
{
  auto & b = new_body();
  b.lingers = chance(1, 4, "lingers");
  bool late = chance(1, 4, "late");
  // an exception nobody waits for ends the program, so one is thrown only when somebody does
  b.stops = chance(1, 6, "stops");
  if (!b.stops && chance(1, 5, "nested")) { b.inner = &new_body(); }
  if (!b.stops && !late && chance(1, 3, "throws")) { b.throws = true; b.steps.push_back({5, policy::ignore}); }
  int ncancel = b.lingers ? 1 + choose(2, "cancels") : (int)choose(3, "cancels");
  how h = (how)choose(3, "how"); form f = random_form();
  awaiter_t w;
  auto & L = *W->ctx;
  actor a(1);
  {
    cobalt::thread t = run_body(b);
    std::vector<std::unique_ptr<asio::steady_timer>> tims;
    int sent = 0;
    for (int i = 0; i < ncancel; i++)
    {
      // through the thread object only while it's still there
      bool direct = chance(1, 3, "direct");
      auto tm = std::make_unique<asio::steady_timer>(L, std::chrono::milliseconds(late ? 12 + i : range(0, 4, "when")));
      auto type = random_type();
      auto * tmp = tm.get();
      tm->async_wait([&, type, direct](error_code ec)
        {
          if (ec || w.done) return;
          ev("cancel %d %s", (int)type, direct ? "directly" : "through the await");
          fault("cancel");
          if (direct) t.cancel(type); else a.sig.emit(type);
        });
      (void)tmp;
      tims.push_back(std::move(tm));
    }
    // whatever happens: a coroutine that waits for its cancellation gets one
    asio::steady_timer last(L, std::chrono::milliseconds(50));
    if (b.lingers) last.async_wait([&](error_code ec) { if (!ec && !w.done) { ev("cancel at last"); a.sig.emit(ct::terminal); sent++; } });
    asio::post(L, [&] { await_thread(a, t, b, w, h, f, late ? 10 : 0); });
    L.run();
    SIM_CHECK(w.done, "thread:lost-completion", "the event loop ended, but the await of the thread didn't complete");
    ev("loop done");
  }
  SIM_CHECK(w.resumes == 1, "thread:resumes", "the awaiter was resumed %d times", w.resumes);
}

// used like a std::thread
static void scenario_join()
{
  auto & b = new_body();
  b.stops = chance(1, 6, "stops");
  if (chance(1, 5, "no-thread"))
  {
    // no further thread can be started
    vt::fail_create = 0;
    fault("pthread_create");
    bool failed = false;
    try { cobalt::thread t = run_body(b); } catch (std::system_error & e) { failed = true; }
    vt::fail_create = -1;
    SIM_CHECK(failed, "thread:create", "no thread could be started, but this wasn't reported");
    SIM_CHECK(!b.started && b.locals == 0, "thread:create", "the coroutine of a thread that couldn't be started ran");
    if (chance(1, 2, "give-up")) { b.stopping = true; return; }
  }
  cobalt::thread t = run_body(b);
  int n = choose(3, "cancels");
  for (int i = 0; i < n; i++) { t.cancel(random_type()); fault("cancel"); }
  SIM_CHECK(t.joinable(), "thread:joinable", "a new thread isn't joinable");
  if (chance(1, 2, "move"))
  {
    cobalt::thread t2 = std::move(t);
    t2.join();
    SIM_CHECK(b.stops || (b.finished && b.locals == 0), "thread:join", "join returned before the coroutine finished");
    SIM_CHECK(!t2.joinable(), "thread:joinable", "a joined thread is joinable");
  }
  else
  {
    t.join();
    SIM_CHECK(b.stops || (b.finished && b.locals == 0), "thread:join", "join returned before the coroutine finished");
    if (chance(1, 2, "executor"))
    {
      bool bad = false;
      try { t.get_executor(); } catch (std::exception &) { bad = true; }
      SIM_CHECK(bad, "thread:executor", "a finished thread still offers its executor");
    }
    if (chance(1, 3, "late-cancel")) t.cancel();
    if (chance(1, 3, "late-await"))
    {
      awaiter_t w; actor a(1);
      asio::post(*W->ctx, [&] { await_thread(a, t, b, w, (how)choose(3, "how"), random_form(), 0); });
      W->ctx->run();
      SIM_CHECK(w.done && w.resumes == 1, "thread:resumes", "the awaiter of a finished thread was resumed %d times", w.resumes);
    }
  }
}

// destroyed while it runs
static void scenario_destroy()
{
  auto & b = new_body();
  b.lingers = chance(1, 2, "lingers");
  int tid = vt::created();
  int when = range(0, 4, "when");
  {
    cobalt::thread t = run_body(b);
    if (chance(1, 4, "cancel")) { t.cancel(random_type()); fault("cancel"); }
    if (when)
    {
      asio::steady_timer tm(*W->ctx, std::chrono::milliseconds(when - 1));
      tm.async_wait([](error_code) {});
      W->guard.reset();
      W->ctx->run();
    }
    b.stopping = true;
    ev("destroying the thread");
    fault("destroy");
  }
  SIM_CHECK(vt::finished(tid), "thread:not-joined", "the thread still runs after its object was destroyed");
  SIM_CHECK(b.locals == 0, "thread:leak", "the coroutine of a destroyed thread is still there");
}

static void scenario_detach()
{
  auto & b = new_body();
  int tid = vt::created();
  {
    cobalt::thread t = run_body(b);
    t.detach();
    ev("detached");
    if (chance(1, 3, "cancel")) t.cancel();
  }
  vt::wait([tid] { return vt::finished(tid); }, "end of the detached thread");
  vt::sync_finished();
  SIM_CHECK(b.finished, "thread:detach", "a detached thread ended before its coroutine did");
}

// tasks spawned onto the thread
static proc spawner(actor & a, cobalt::thread & t, body_t & b, awaiter_t & w, int n)
{
  for (int i = 0; i < n; i++)
  {
    int r = co_await cobalt::spawn(t.get_executor(), visitor(b), cobalt::use_op);
    SIM_CHECK(r == 7, "thread:spawn", "a spawned task returned %d", r);
    SIM_CHECK(vt::self() == w.tid, "thread:resumed-elsewhere", "the awaiter of a spawned task was resumed on thread %d", vt::self());
  }
  t.cancel(ct::terminal);
  if (chance(1, 2, "await")) { co_await t; after_await(b, w, outcome::ok(0)); }
  else { t.join(); SIM_CHECK(b.finished, "thread:join", "join returned before the coroutine finished"); }
  w.done = true;
  W->guard.reset(); // the loop may end now
}
static void scenario_spawn()
{
  auto & b = new_body();
  b.lingers = true;
  b.tid = vt::created();
  awaiter_t w; actor a(1);
  {
    cobalt::thread t = run_body(b);
    asio::post(*W->ctx, [&] { spawner(a, t, b, w, range(1, 2, "visitors")); });
    W->ctx->run();
  }
  SIM_CHECK(w.done, "thread:lost-completion", "the event loop ended before the awaiter was done");
}

// several threads awaited together
static proc together(actor & a, cobalt::thread & t1, cobalt::thread & t2, body_t & b1, body_t & b2, awaiter_t & w, int kind)
{
  int x = x_none;
  std::size_t won = 9;
  try
  {
    switch (kind)
    {
      case 0: co_await cobalt::join(t1, t2); break;
      case 1: co_await cobalt::gather(t1, t2); break;
      case 2: won = co_await cobalt::race(t1, t2); break;
    }
  }
  catch (...) { x = classify(std::current_exception()); }
  ev("together: %s", xname(x));
  SIM_CHECK(x == x_none, "thread:exception", "awaiting two threads together threw %s", xname(x));
  SIM_CHECK(vt::self() == w.tid, "thread:resumed-elsewhere", "the awaiter was resumed on thread %d", vt::self());
  if (kind != 2) SIM_CHECK(b1.finished && b2.finished && b1.locals + b2.locals == 0, "thread:early", "the await completed before both threads did");
  else SIM_CHECK(won < 2 && (won ? b2 : b1).finished, "thread:early", "race says thread %zu won, it isn't done", won);
  w.resumes++;
  if (kind == 2) b1.stopping = b2.stopping = true; // an argument that wasn't awaited any more is stopped
  w.done = true;
  W->guard.reset(); // the loop may end now
}
static void scenario_together()
{
  auto & b1 = new_body();
  auto & b2 = new_body();
  int kind = choose(3, "kind");
  awaiter_t w; actor a(1);
  {
    cobalt::thread t1 = run_body(b1);
    cobalt::thread t2 = run_body(b2);
    asio::post(*W->ctx, [&] { together(a, t1, t2, b1, b2, w, kind); });
    W->ctx->run();
  }
  SIM_CHECK(w.done && w.resumes == 1, "thread:lost-completion", "the event loop ended before the awaiter was done");
}

static void idle()
{
  // nothing takes longer than a few milliseconds here
  if (steady_ns > 100'000'000'000ll)
    violation("thread:stuck", "an await, a join or the end of a thread never happened");
}

// the memory resource of the main thread: like the one of cobalt::main it isn't synchronised
struct main_memory : cobalt::pmr::memory_resource
{
  std::map<void *, std::size_t> live;
  void * do_allocate(std::size_t n, std::size_t al) override
  {
    check("allocates from");
    void * p = std::aligned_alloc(al < 16 ? 16 : al, (n + 63) / 64 * 64);
    live[p] = n;
    return p;
  }
  void do_deallocate(void * p, std::size_t n, std::size_t al) override
  {
    check("frees into");
    SIM_CHECK(live.count(p) && live[p] == n, "thread:memory", "a wrong block is freed");
    live.erase(p);
    std::free(p);
  }
  bool do_is_equal(const cobalt::pmr::memory_resource & o) const noexcept override { return this == &o; }
  void check(const char * what)
  {
    SIM_CHECK(vt::self() == 0, "thread:foreign-memory", "thread %d %s the memory resource of thread 0", vt::self(), what);
  }
};
static main_memory mem;

void sim_main()
{
  vk::enabled = true;
  vk::cfg.time_passes = false;
  vk::cfg.pipe_latency = false;
  vt::rate = 4u << choose(4, "rate");
  vt::on_idle = idle;
  static world w; W = &w;
  vt::start();
  cobalt::this_thread::set_default_resource(&mem);
  int first = census::live;
  switch (choose(6, "scenario"))
  {
    case 0: scenario_join(); break;
    case 1: scenario_await(); break;
    case 2: scenario_destroy(); break;
    case 3: scenario_detach(); break;
    case 4: scenario_spawn(); break;
    case 5: scenario_together(); break;
  }
  vt::wait([] { return vt::alive() == 1; }, "end of the threads");
  vt::sync_finished();
  ev("checking");
  W->ctx->shut();
  for (auto & b : bodies)
  {
    SIM_CHECK(b->locals == 0, "thread:leak", "%d coroutines of thread %d were not destroyed", b->locals, b->id);
    SIM_CHECK(b->stopping || b->finished || b->threw, "thread:not-run", "the coroutine of thread %d didn't run to its end", b->id);
  }
  SIM_CHECK(leaves == 0, "thread:leak", "%d operations were not destroyed", leaves);
  SIM_CHECK(census::live == first, "thread:leak", "the event loops of %d threads were not destroyed", census::live - first);
  finish_run();
}
