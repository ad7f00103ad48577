// P05 (and P17, P19): tasks awaited, spawned, dropped, moved; run() in every way it can end.
#include "../sim/fiber.hpp"
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/spawn.hpp>
#include <boost/cobalt/run.hpp>
#include <boost/cobalt/this_thread.hpp>
#include <boost/asio/bind_allocator.hpp>
#include <boost/asio/bind_cancellation_slot.hpp>
#include <boost/asio/bind_executor.hpp>
using namespace sim;

const char * const sim_harness_name = "task";
const char * sim_class_owner(const char * c)
{
  std::string s = c;
#ifdef SIM_FIBER
  if (s.rfind("oom:", 0) == 0 || s.rfind("alloc:", 0) == 0 || s.find(":leak-escaped") != std::string::npos) return "P17";
  return "P27";
#endif
  if (s.rfind("task:", 0) == 0 || s.rfind("spawn:", 0) == 0 || s.rfind("run:", 0) == 0) return "P05";
  if (s.rfind("exec:", 0) == 0) return "P19";
  if (s.rfind("oom:", 0) == 0 || s.rfind("alloc:", 0) == 0) return "P17";
  return "";
}

namespace
{
struct setup { bool cancels, moves, drops, oom, ctxs; } cfg;
std::vector<std::unique_ptr<body>> bodies;
std::map<int, int> want_ctx; // body -> context it has to run on, -1 any
ledger * L, * G;
asio::cancellation_type cancel_kind()
{
  static const asio::cancellation_type cts[] = {asio::cancellation_type::terminal, asio::cancellation_type::partial, asio::cancellation_type::total, asio::cancellation_type::all};
  return cts[choose(4, "ct")];
}

body & new_body()
{
  bodies.push_back(std::make_unique<body>());
  random_body(*bodies.back(), (int)bodies.size());
  return *bodies.back();
}

void on_ctx(body & b, const char * when)
{
  int k = want_ctx[b.id];
  if (k >= 0) SIM_CHECK(W->running == k, "exec:wrong-context", "task %d %s on context %d instead of %d", b.id, when, W->running, k);
  if (k >= 0) SIM_CHECK(W->running == k, "task:executor", "task %d %s on context %d instead of %d", b.id, when, W->running, k);
}

template<typename T>
#ifdef SIM_FIBER
T task_fiber(cobalt::experimental::context<cobalt::task<T>, body &, held> c, body & b, held h)
#else
cobalt::task<T> task_body(body & b, held h)
#endif
{
  b.started++;
  held local(h);
  ev("task %d starts", b.id);
  try
  {
    on_ctx(b, "starts");
    SIM_CHECK((AWAIT(cobalt::this_coro::executor)) == W->exec(std::max(0, want_ctx[b.id])), "exec:reported", "this_coro::executor is not the executor task %d was started on", b.id);
    auto al = AWAIT(cobalt::this_coro::allocator);
    SIM_CHECK(al.resource() == G, "alloc:reported", "this_coro::allocator of a task is not the global default resource");
    for (int i = 0; i < b.nsteps; i++)
    {
      auto sc = random_script(i, true);
      if (cfg.ctxs) sc.ctx = (int)choose(W->more.size() + 1, "opctx");
      sim_op o(sc);
      b.cur = o.log; b.cur_external = sc.mode == op_mode::external;
      if (chance(1, 2, "tolerate")) { auto [ec, v] = AWAIT(cobalt::as_tuple(o)); if (ec == asio::error::operation_aborted) b.saw_cancel = true; }
      else AWAIT(o);
      b.cur.reset();
      on_ctx(b, "resumes");
    }
    if (b.throws) throw boom{1000 + b.id};
  }
  NO_UNWIND
  catch (...)
  {
    b.cur.reset();
    on_ctx(b, "resumes");
    b.ended++;
    b.out = outcome::err(classify(std::current_exception()));
    ev("task %d throws %s", b.id, xname(b.out.code));
    if (b.out.code == x_abort) SIM_CHECK(b.cancel_ok, "task:spurious-cancel", "task %d ended with operation_aborted although nobody cancelled it", b.id);
    throw;
  }
  b.ended++;
  b.out = outcome::ok(std::is_void_v<T> ? 0 : b.id);
  ev("task %d returns", b.id);
  if constexpr (!std::is_void_v<T>) RETURN make_val<T>(b.id);
}

#ifdef SIM_FIBER
template<typename T>
cobalt::task<T> task_body(body & b, held h)
{
  return cobalt::experimental::make_context<cobalt::task<T>>(&task_fiber<T>, std::allocator_arg, stacks{}, b, std::move(h));
}
#endif

// --- spawn ---------------------------------------------------------------------
struct spawned
{
  int id = 0;
  body * b = nullptr;
  outcome expect;      // for tasks that were already complete
  int calls = 0;
  int ctx = 0;
  bool in_call = false;
  outcome got;
  asio::cancellation_signal sig;
  bool has_slot = false;
  long live = 0;
};
std::vector<std::unique_ptr<spawned>> spawns;

struct spawn_handler
{
  spawned * s;
  explicit spawn_handler(spawned * s) : s(s) { s->live++; }
  spawn_handler(const spawn_handler & o) : s(o.s) { s->live++; }
  spawn_handler(spawn_handler && o) noexcept : s(o.s) { s->live++; }
  ~spawn_handler() { s->live--; }
  void called(outcome o)
  {
    ev("spawn %d completes with %s", s->id, ONAME(o));
    s->calls++;
    SIM_CHECK(s->calls == 1, "spawn:twice", "completion handler invoked %d times", s->calls);
    SIM_CHECK(!s->in_call, "spawn:inline", "completion handler invoked inside spawn()");
    SIM_CHECK(W->running == s->ctx, "spawn:executor", "completion handler invoked on context %d instead of %d", W->running, s->ctx);
    SIM_CHECK(W->running == s->ctx, "exec:wrong-context", "completion handler invoked on context %d instead of %d", W->running, s->ctx);
    if (s->b) SIM_CHECK(s->b->ended == 1 && s->b->live == 0, "spawn:early", "completion handler invoked before the task had finished (%d, %ld)", s->b->ended, s->b->live);
    outcome want = s->b ? s->b->out : s->expect;
    SIM_CHECK(o == want, "spawn:outcome", "completion handler got %s, the task ended with %s", ONAME(o), ONAME(want));
    s->got = o;
  }
  template<typename T> void operator()(std::exception_ptr e, T v) { called(e ? outcome::err(classify(e)) : outcome::ok(id_of(v))); }
  void operator()(std::exception_ptr e) { called(e ? outcome::err(classify(e)) : outcome::ok(0)); }
};

template<typename T>
struct slot
{
  std::optional<cobalt::task<T>> t;
  body * b = nullptr;
  outcome fixed; // noop: the outcome
  bool started = false, awaiting = false, spent = false, moved = false;
  void clear() { t.reset(); b = nullptr; fixed = {}; started = awaiting = spent = moved = false; }
};

template<typename T>
struct stage
{
  std::vector<slot<T>> s;
  std::map<int, body *> waiting;

  void create(slot<T> & x)
  {
    x.clear();
    if (chance(1, 8, "noop"))
    {
      if constexpr (std::is_void_v<T>) { x.t.emplace(cobalt::noop<void>{}); x.fixed = outcome::ok(0); }
      else { x.t.emplace(cobalt::noop<T>(900)); x.fixed = outcome::ok(900); }
      return;
    }
    auto & b = new_body();
    want_ctx[b.id] = -1;
    bool oom = cfg.oom && chance(1, 3, "oom");
    auto before = G->allocs, tbefore = L->allocs;
    if (oom) G->fail_at = (std::int64_t)G->allocs;
    ev("create %d", b.id);
    try { x.t.emplace(task_body<T>(b, held(b))); }
    catch (std::bad_alloc &)
    {
      SIM_CHECK(oom, "oom:spurious", "bad_alloc although no allocation failed");
      SIM_CHECK(b.started == 0 && b.live == 0, "oom:half-started", "creation failed: started %d, %ld parameter(s) left", b.started, b.live);
      b.ended = 1;
      x.t.reset();
      return;
    }
    SIM_CHECK(!oom, "oom:swallowed", "failed allocation was not reported");
    SIM_CHECK(G->allocs == before + 1 && L->allocs == tbefore, "alloc:wrong-resource", "task frame was not allocated from the global default resource");
    G->fail_at = -1;
    x.b = &b;
    SIM_CHECK(b.started == 0, "task:eager", "task body ran before it was awaited");
  }

  void spawn(slot<T> & x)
  {
    spawns.push_back(std::make_unique<spawned>());
    auto * sp = spawns.back().get();
    sp->id = (int)spawns.size();
    sp->b = x.fixed.set ? nullptr : x.b;
    sp->expect = x.fixed;
    if (x.moved) { sp->b = nullptr; sp->expect = outcome::err(x_moved); }
    int ectx = cfg.ctxs ? (int)choose(W->more.size() + 1, "ectx") : 0;
    bool bind = cfg.ctxs && chance(1, 2, "bind");
    sp->ctx = bind ? (int)choose(W->more.size() + 1, "hctx") : ectx;
    sp->has_slot = cfg.cancels && chance(1, 2, "slot");
    bool alloc = chance(1, 3, "alloc");
    if (sp->b) want_ctx[sp->b->id] = ectx;
    x.spent = true; x.started = true;
    bool oom = cfg.oom && chance(1, 4, "oom");
    ev("spawn %d: task %d on %d, handler on %d", sp->id, sp->b ? sp->b->id : 0, ectx, sp->ctx);
    if (oom)
    {
      int k = range(0, 2, "oomk");
      L->fail_at = (std::int64_t)L->allocs + k;
      L->failed = false;
    }
    sp->in_call = true;
    body * b = sp->b;
    try
    {
      spawn_handler h(sp);
      boost::cobalt::pmr::polymorphic_allocator<void> pa{L};
      auto ex = W->exec(ectx);
      auto hx = W->exec(sp->ctx);
      auto with_exec = [&](auto tok)
      {
        if (bind) { if (alloc) cobalt::spawn(ex, std::move(*x.t), asio::bind_executor(hx, asio::bind_allocator(pa, std::move(tok)))); else cobalt::spawn(ex, std::move(*x.t), asio::bind_executor(hx, std::move(tok))); }
        else if (alloc) cobalt::spawn(W->context(ectx), std::move(*x.t), asio::bind_allocator(pa, std::move(tok)));
        else cobalt::spawn(W->context(ectx), std::move(*x.t), std::move(tok));
      };
      if (sp->has_slot) with_exec(asio::bind_cancellation_slot(sp->sig.slot(), std::move(h)));
      else with_exec(std::move(h));
    }
    catch (std::bad_alloc &)
    {
      SIM_CHECK(oom && L->failed, "oom:spurious", "spawn threw bad_alloc although no allocation failed");
      L->fail_at = -1; L->failed = false;
      sp->in_call = false;
      x.t.reset();
      sp->sig.slot().clear();
      if (b) SIM_CHECK(b->started == 0 && b->live == 0, "oom:half-started", "spawn failed with bad_alloc: task started %d, %ld object(s) left", b->started, b->live);
      SIM_CHECK(sp->live == 0, "oom:leak", "spawn failed with bad_alloc and left its handler behind");
      sp->calls = -1;
      if (b) b->ended = 3;
      return;
    }
    sp->in_call = false;
    if (oom)
    {
      SIM_CHECK(!L->failed, "oom:swallowed", "failed allocation in spawn was not reported");
      L->fail_at = -1; L->failed = false;
    }
    x.t.reset();
    if (sp->has_slot)
      for (int k = range(0, 2, "nsig"); k > 0; k--)
        W->add([sp, ectx]
        {
          body * b = sp->b;
          if (sp->calls) return;
          if (b) b->cancel_ok = true;
          fault("cancel-spawned");
          auto keep = b && b->can_see_cancel() ? b->cur : nullptr;
          int before = keep ? keep->n_cancels : 0;
          sp->sig.emit(cancel_kind());
          if (keep)
            asio::post(W->exec(ectx), [keep, before]
            {
              if (!keep->completed)
                SIM_CHECK(keep->n_cancels > before, "spawn:cancel", "cancellation of the spawned task did not reach its operation");
              probe("spawn-cancel-checked");
            });
        }, choose(2, "direct"));
  }

  proc run_actor(actor & a, int n)
  {
    for (int k = 0; k < n; k++)
    {
      auto i = choose((std::uint32_t)s.size(), "slot");
      auto & x = s[i];
      static const int ops[] = {0, 0, 1, 1, 2, 3, 4, 5};
      int op = ops[choose(8, "act")];
      if (x.awaiting) { co_await yield_{false}; continue; }
      if (!x.t || x.spent) { x.t.reset(); create(x); continue; }
      switch (op)
      {
        case 0:
        {
          auto f = random_form();
          bool moved = x.moved, fixed = x.fixed.set;
          body * b = moved || fixed ? nullptr : x.b;
          auto h0 = W->handler_no;
          if (b) want_ctx[b->id] = 0;
          x.awaiting = true;
          waiting[a.id] = b;
          ev("actor %d awaits slot %u task %d", a.id, i, b ? b->id : 0);
          outcome o;
          try
          {
            if (f == form::plain) { if constexpr (std::is_void_v<T>) { co_await *x.t; o = outcome::ok(0); } else o = outcome::ok(id_of(co_await *x.t)); }
            else if (f == form::result) o = from_result(co_await cobalt::as_result(*x.t));
            else o = from_tuple(co_await cobalt::as_tuple(*x.t));
          }
          catch (...)
          {
            o = outcome::err(classify(std::current_exception()));
            SIM_CHECK(f == form::plain, "task:form", "await as result or tuple threw %s", xname(o.code));
          }
          waiting[a.id] = nullptr;
          x.awaiting = false;
          ev("actor %d got %s", a.id, ONAME(o));
          if (moved) { SIM_CHECK(o == outcome::err(x_moved) && h0 == W->handler_no, "task:error", "await of a moved-from task gave %s", ONAME(o)); break; }
          x.spent = true;
          if (fixed) { SIM_CHECK(o == x.fixed && h0 == W->handler_no, "task:outcome", "await of a finished task gave %s", ONAME(o)); break; }
          SIM_CHECK(b->started == 1 && b->ended == 1, "task:outcome", "task %d started %d, ended %d times when its awaiter resumed", b->id, b->started, b->ended);
          SIM_CHECK(o == b->out, "task:outcome", "await gave %s but the task ended with %s", ONAME(o), ONAME(b->out));
          break;
        }
        case 1: spawn(x); break;
        case 2:
          if (!cfg.moves || x.moved) break;
          for (auto & y : s)
            if (!y.t)
            {
              ev("move");
              y.clear();
              y.t.emplace(std::move(*x.t));
              y.b = x.b; y.fixed = x.fixed;
              if (x.fixed.set) x.spent = true; else x.moved = true;
              probe("move-construct");
              break;
            }
          break;
        case 3:
        {
          if (!cfg.drops) break;
          ev("drop");
          bool mine = !x.moved && !x.fixed.set;
          x.t.reset();
          if (mine)
          {
            fault("drop-task");
            SIM_CHECK(x.b->started == 0 && x.b->live == 0, "task:drop", "dropped task: started %d, %ld object(s) left", x.b->started, x.b->live);
            x.b->ended = 2;
          }
          break;
        }
        case 4: co_await yield_{false}; break;
        case 5: co_await yield_{true}; break;
      }
    }
  }
};

template<typename T>
void scenario()
{
  ledger led("thread default"), glob("global default");
  L = &led; G = &glob;
  auto * old_global = boost::cobalt::pmr::set_default_resource(&glob);
  cobalt::this_thread::set_default_resource(&led);
  stage<T> st;
  st.s.resize(range(1, 3, "slots"));
  std::vector<std::unique_ptr<actor>> as;
  auto wp = std::make_unique<world>();
  W = wp.get();
  if (cfg.ctxs) W->add_context();
  W->on_exception = [](std::exception_ptr e) { SIM_CHECK(false, "task:escaped", "exception %s reached the event loop", xname(classify(e))); finish_run(); };
  int n = range(1, 3, "actors");
  for (int i = 0; i < n; i++)
  {
    as.push_back(std::make_unique<actor>(i));
    asio::post(W->ctx->get_executor(), [&st, a = as.back().get()] { st.run_actor(*a, range(1, 7, "len")); });
  }
  if (cfg.cancels)
    for (int k = range(0, 2, "ncancel"); k > 0; k--)
    {
      auto * a = as[choose(n, "victim")].get();
      W->add([&st, a]
      {
        body * b = st.waiting[a->id];
        bool can = b && b->can_see_cancel();
        auto keep = b ? b->cur : nullptr;
        int before = keep ? keep->n_cancels : 0;
        if (b) { b->cancel_ok = true; fault("cancel-awaiter"); }
        a->sig.emit(cancel_kind());
        if (can) SIM_CHECK(keep->n_cancels == before + 1, "task:forward", "cancelling the awaiter emitted %d cancellations to the operation", keep->n_cancels - before);
      }, true);
    }
  bool early = !cfg.ctxs && chance(1, 4, "early");
  if (early)
  {
    int steps = range(0, 40, "steps");
    while (steps-- > 0 && W->step_once());
    fault("destroy-context");
  }
  else
  {
    W->run();
    for (auto & a : as) SIM_CHECK(a->finished, "task:hang", "actor %d never resumed from its await of a task", a->id);
    for (auto & s : spawns) SIM_CHECK(s->calls == 1 || s->calls == -1, "spawn:lost", "completion handler of spawn %d was never invoked", s->id);
    for (auto & b : bodies) SIM_CHECK(b->started <= 1 && b->ended <= 1 || b->ended == 2 || b->ended == 3, "task:outcome", "task %d started %d times", b->id, b->started);
  }
  bool slots_first = chance(1, 2, "slots-first");
  if (slots_first) for (auto & x : st.s) if (!x.awaiting) x.t.reset();
  W->guard.reset();
  wp.reset();
  st.s.clear();
  for (auto & a : as) SIM_CHECK(a->finished || a->destroyed || !a->started, "task:leak", "awaiting actor %d leaked", a->id);
  for (auto & s : spawns) s->sig.slot().clear();
  for (auto & b : bodies) SIM_CHECK(b->live == 0, "task:leak", "state of task %d not destroyed (%ld objects left)", b->id, b->live);
  for (auto & s : spawns) SIM_CHECK(s->live == 0, "spawn:leak", "completion handler of spawn %d not destroyed", s->id);
  SIM_CHECK(led.live.empty(), "memory:leak", "%zu allocation(s) from the thread resource never returned", led.live.size());
  SIM_CHECK(glob.live.empty(), "memory:leak", "%zu allocation(s) from the global resource never returned", glob.live.size());
  check_stacks();
  boost::cobalt::pmr::set_default_resource(old_global);
  cobalt::this_thread::set_default_resource(old_global);
  W = nullptr;
}

// --- run() -----------------------------------------------------------------------
struct runrec { body b; bool abandon = false, nest = false, foreign_exec = false; outcome got; };
void do_run(runrec & r, int depth);

cobalt::task<mval> run_body(runrec & r, held h, int depth)
{
  body & b = r.b;
  b.started++;
  held local(h);
  auto ex = co_await cobalt::this_coro::executor;
  SIM_CHECK(cobalt::this_thread::has_executor() && cobalt::this_thread::get_executor() == ex, "run:executor", "this_thread::get_executor inside run() is not the loop running the task");
  // drives the simulated outside world from within run()'s own loop
  struct pump
  {
    cobalt::executor ex; body * b; int idle = 0;
    void operator()()
    {
      if (b->ended || !b->live) return;
      idle = W->step_once() ? 0 : idle + 1;

      if (idle > 4) return;
      auto e = ex;
      asio::post(e, std::move(*this));
    }
  };
  asio::post(ex, pump{ex, &b});
  try
  {
    for (int i = 0; i < b.nsteps; i++)
    {
      auto sc = random_script(i, true);
      if (r.abandon && i == 0) { sc.mode = op_mode::external; sc.abandon = true; fault("abandoned-op"); }
      sim_op o(sc);
      auto [ec, v] = co_await cobalt::as_tuple(o);
      if (ec && chance(1, 2, "rethrow")) throw boost::system::system_error(ec);
    }
    if (r.nest && depth < 2) { runrec r2; random_body(r2.b, b.id + 10); do_run(r2, depth + 1); SIM_CHECK(cobalt::this_thread::get_executor() == ex, "run:executor", "nested run() did not restore the executor"); }
    if (b.throws) throw boom{1000 + b.id};
  }
  catch (...) { b.ended++; b.out = outcome::err(classify(std::current_exception())); throw; }
  b.ended++;
  b.out = outcome::ok(b.id);
  co_return mval(b.id);
}

void do_run(runrec & r, int depth)
{
  bool had = cobalt::this_thread::has_executor();
  std::optional<cobalt::executor> ex;
  if (had) ex = cobalt::this_thread::get_executor();
  auto * res = cobalt::this_thread::get_default_resource();
  bool oom = cfg.oom && depth == 0;
  std::optional<cobalt::task<mval>> t;
  t.emplace(run_body(r, held(r.b), depth));
  SIM_CHECK(r.b.started == 0, "task:eager", "task body ran before run()");
  if (oom) { L->fail_at = (std::int64_t)L->allocs + range(0, 3, "oomk"); L->failed = false; }
  outcome o;
  bool broken = false;
  try { o = outcome::ok(id_of(cobalt::run(std::move(*t)))); }
  catch (std::future_error &) { broken = true; o = outcome::err(x_other); }
  catch (...) { o = outcome::err(classify(std::current_exception())); }
  bool failed = L->failed;
  L->fail_at = -1; L->failed = false;
  t.reset();
  ev("run returns %s", ONAME(o));
  r.got = o;
  SIM_CHECK(cobalt::this_thread::get_default_resource() == res, "run:resource", "run() did not restore the thread's memory resource (outcome %s)", ONAME(o));
  SIM_CHECK(cobalt::this_thread::has_executor() == had, "run:executor", "run() left the thread %s an executor (outcome %s)", had ? "without" : "with", ONAME(o));
  if (had) SIM_CHECK(cobalt::this_thread::get_executor() == *ex, "run:executor", "run() did not restore the thread's executor (outcome %s)", ONAME(o));
  if (failed) SIM_CHECK(o == outcome::err(x_badalloc) || (r.b.ended && o == r.b.out), "oom:swallowed", "run() with a failing allocation gave %s", ONAME(o));
  else if (r.b.ended) SIM_CHECK(o == r.b.out && !broken, "run:outcome", "run() gave %s but the task ended with %s", ONAME(o), ONAME(r.b.out));
  else SIM_CHECK(broken, "run:outcome", "run() gave %s although the task never finished", ONAME(o));
  SIM_CHECK(r.b.live == 0, "run:leak", "run() left %ld object(s) of the task behind", r.b.live);
}

void run_scenario()
{
  ledger led("thread default"), glob("global default");
  L = &led; G = &glob;
  auto * old_global = boost::cobalt::pmr::set_default_resource(&glob);
  auto * old = cobalt::this_thread::set_default_resource(&led);
  bool had = chance(1, 2, "had-executor");
  {
    auto wp = std::make_unique<world>();
    W = wp.get();
    W->post_only = true;
    // a second loop, so that the thread can have no executor while W lives
    if (!had)
    {
      asio::io_context tmp;
      cobalt::this_thread::set_executor(tmp.get_executor());
    }
    SIM_CHECK(cobalt::this_thread::has_executor() == had, "run:executor", "the thread's executor outlived its event loop");
    int n = range(1, 2, "runs");
    for (int i = 0; i < n; i++)
    {
      runrec r;
      random_body(r.b, 1 + i * 100, 3);
      r.abandon = !cfg.oom && r.b.nsteps && chance(1, 6, "abandon");
      r.nest = !r.abandon && !cfg.oom /* libstdc++ pools do not survive a failing upstream */ && chance(1, 4, "nest");
      do_run(r, 0);
    }
    W->run();
  }
  SIM_CHECK(led.live.empty(), "memory:leak", "%zu allocation(s) from the thread resource never returned", led.live.size());
  SIM_CHECK(glob.live.empty(), "memory:leak", "%zu allocation(s) from the global resource never returned", glob.live.size());
  boost::cobalt::pmr::set_default_resource(old_global);
  cobalt::this_thread::set_default_resource(old);
  W = nullptr;
}
}

void sim_main()
{
  int t = choose(3, "type");
  bool faults = !chance(1, 4, "fault-free");
  cfg.cancels = faults && chance(1, 2);
  cfg.moves = chance(1, 2);
  cfg.drops = faults && chance(1, 2);
  cfg.ctxs = chance(1, 2);
  cfg.oom = owns("oom:") && chance(1, 2);
  if (t == 0) scenario<mval>(); else if (t == 1) scenario<void>(); else run_scenario();
}
