// P04 P26 (and P17): promises and detached coroutines under random creation, await, move,
// assignment, drop, detach, cancellation, operation outcomes and destruction of the event loop.
#include "../sim/fiber.hpp"
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/detached.hpp>
using namespace sim;

const char * const sim_harness_name = "promise";
const char * sim_class_owner(const char * c)
{
  std::string s = c;
#ifdef SIM_FIBER
  if (s.rfind("detached:", 0) == 0) return "P26";
  if (s.rfind("oom:", 0) == 0 || s == "promise:leak-escaped") return "P17";
  return "P27";
#endif
  if (s.rfind("promise:", 0) == 0) return "P04";
  if (s.rfind("detached:", 0) == 0) return "P26";
  if (s.rfind("oom:", 0) == 0) return "P17";
  return "";
}

namespace
{
struct setup { bool cancels, moves, drops, oom; } cfg;

std::vector<std::unique_ptr<body>> bodies;
ledger * L;

body & new_body()
{
  bodies.push_back(std::make_unique<body>());
  random_body(*bodies.back(), (int)bodies.size());
  return *bodies.back();
}

// one step of a body: await a scripted operation
#define BODY_STEPS(b)                                                                       \
    for (int i = 0; i < b.nsteps; i++)                                                      \
    {                                                                                       \
      auto sc = random_script(i, true);                                                     \
      sim_op o(sc);                                                                         \
      b.cur = o.log; b.cur_external = sc.mode == op_mode::external;                         \
      bool tolerate = chance(1, 2, "tolerate");                                             \
      if (tolerate) { auto [ec, v] = AWAIT(cobalt::as_tuple(o)); (void)v; if (ec == asio::error::operation_aborted) b.saw_cancel = true; } \
      else AWAIT(o);                                                                        \
      b.cur.reset();                                                                        \
    }

template<typename T>
#ifdef SIM_FIBER
T prom_fiber(cobalt::experimental::context<cobalt::promise<T>, body &, held> c, body & b, held h)
#else
cobalt::promise<T> prom_body(body & b, held h)
#endif
{
  b.started++;
  held local(h);
  ev("body %d starts", b.id);
  try
  {
    BODY_STEPS(b)
    if (b.throws) throw boom{1000 + b.id};
  }
  NO_UNWIND
  catch (...)
  {
    b.cur.reset();
    b.ended++;
    b.out = outcome::err(classify(std::current_exception()));
    ev("body %d throws %s", b.id, xname(b.out.code));
    throw;
  }
  b.ended++;
  b.out = outcome::ok(std::is_void_v<T> ? 0 : b.id);
  ev("body %d returns", b.id);
  if constexpr (!std::is_void_v<T>) RETURN make_val<T>(b.id);
}

#ifdef SIM_FIBER
template<typename T>
cobalt::promise<T> prom_body(body & b, held h)
{
  return cobalt::experimental::make_context<cobalt::promise<T>>(&prom_fiber<T>, std::allocator_arg, stacks{}, b, std::move(h));
}
#endif

// --- detached ------------------------------------------------------------------
struct det
{
  body b;
  asio::cancellation_signal sig;
  bool has_source = false;
  bool received = false; // the coroutine was sent a cancellation it should know about
};
std::vector<std::unique_ptr<det>> dets;

cobalt::detached det_body(det & d, held h)
{
  body & b = d.b;
  b.started++;
  held local(h);
  ev("detached %d starts", b.id);
  SIM_CHECK((co_await cobalt::this_coro::executor) == W->exec(), "detached:this-coro", "executor is not the thread's executor");
  SIM_CHECK((co_await cobalt::this_coro::allocator).resource() == L, "detached:this-coro", "allocator is not the thread's default resource");
  bool tic = co_await cobalt::this_coro::throw_if_cancelled();
  SIM_CHECK(tic, "detached:this-coro", "throw_if_cancelled does not default to true");
  if (d.has_source) co_await cobalt::this_coro::reset_cancellation_source(d.sig.slot());
  if (chance(1, 2, "tic-off")) { co_await cobalt::this_coro::throw_if_cancelled(false); tic = false; }
  bool threw = false;
  for (int i = 0; i < b.nsteps && !threw; i++)
  {
    auto c = co_await cobalt::this_coro::cancelled;
    SIM_CHECK((c != asio::cancellation_type::none) == d.received, "detached:cancelled", "cancelled reports %u, cancellation %s received", (unsigned)c, d.received ? "was" : "was not");
    auto sc = random_script(i, true);
    sim_op o(sc);
    b.cur = o.log; b.cur_external = sc.mode == op_mode::external;
    bool before = d.received;
    try
    {
      auto [ec, v] = co_await cobalt::as_tuple(o);
      (void)v;
      SIM_CHECK(!(before && tic), "detached:throw-if-cancelled", "await in a cancelled coroutine did not throw");
      SIM_CHECK(ec != asio::error::operation_aborted || d.received, "detached:spurious-cancel", "operation aborted without a cancellation");
      if (ec != asio::error::operation_aborted) SIM_CHECK(ec == sc.ec && (ec || v == sc.value), "detached:result", "operation completed with %d/%d instead of %d/%d", ec.value(), v, sc.ec.value(), sc.value);
    }
    catch (boost::system::system_error & e)
    {
      SIM_CHECK(e.code() == asio::error::operation_aborted && before && tic, "detached:throw-if-cancelled", "await threw %s although not cancelled", xname(classify_ec(e.code())));
      threw = true;
    }
    b.cur.reset();
  }
  b.ended++;
  ev("detached %d ends", b.id);
  if (b.throws) { b.dropped = true; b.out = outcome::err(1000 + b.id); throw boom{1000 + b.id}; }
}

// --- promise slots -------------------------------------------------------------
template<typename T>
struct slot
{
  std::optional<cobalt::promise<T>> p;
  body * b = nullptr;       // whose outcome it holds
  bool noop = false;
  int noop_id = 0;
  bool taken = false;
  bool moved_unfinished = false; // moved from before completion
  bool moved_done = false;
  bool awaited = false;
  bool attached = false;
  bool usable() const { return p && b && !taken && !moved_unfinished && !moved_done; }
};

int cancels_seen(body * b) { return b && b->cur ? b->cur->n_cancels : 0; }

template<typename T>
struct stage
{
  std::vector<slot<T>> s;

  void create(slot<T> & x)
  {
    if (chance(1, 8, "noop"))
    {
      int id = 900;
      if constexpr (std::is_void_v<T>) x.p.emplace(cobalt::noop<void>{});
      else x.p.emplace(cobalt::noop<T>(id));
      auto & b = new_body();
      b.out = outcome::ok(std::is_void_v<T> ? 0 : id); b.ended = 1; b.started = 1;
      x.b = &b; x.taken = x.moved_unfinished = x.moved_done = x.awaited = false; x.attached = false;
      return;
    }
    auto & b = new_body();
    b.cancel_ok = false;
    bool oom = cfg.oom && chance(1, 3, "oom");
    if (oom) L->fail_at = (std::int64_t)L->allocs;
    ev("create %d", b.id);
    try { x.p.emplace(prom_body<T>(b, held(b))); }
    catch (std::bad_alloc &)
    {
      SIM_CHECK(oom, "oom:spurious", "bad_alloc although no allocation failed");
      SIM_CHECK(b.started == 0, "oom:half-started", "creation failed but the coroutine ran");
      SIM_CHECK(b.live == 0, "oom:leak", "creation failed and left %ld parameter(s) behind", b.live);
      b.ended = 1;
      x.p.reset(); x.b = nullptr;
      return;
    }
    if (oom) { SIM_CHECK(!L->failed || false, "oom:swallowed", "failed allocation was not reported"); L->fail_at = -1; }
    L->failed = false;
    x.b = &b; x.taken = x.moved_unfinished = x.moved_done = x.awaited = false; x.attached = true;
    SIM_CHECK(b.started == 1, "promise:start", "promise body started %d times at the call", b.started);
    SIM_CHECK(x.p->ready() == (b.ended == 1), "promise:ready", "ready() %d directly after creation, body ended %d", x.p->ready(), b.ended);
    SIM_CHECK(x.p->attached(), "promise:attached", "a new promise is not attached");
  }

  // the promise object in x is about to be destroyed or overwritten
  template<typename F>
  void drop(slot<T> & x, F && f)
  {
    body * b = x.b;
    bool live = x.p && b && !x.moved_unfinished && !x.moved_done && !b->ended;
    bool expect = live && x.attached;
    bool can = live && b->can_see_cancel();
    int before = cancels_seen(b);
    auto keep = b ? b->cur : nullptr;
    if (live) { b->dropped = true; if (x.attached) { b->cancel_ok = true; fault("drop-attached"); } }
    f();
    int after = keep ? keep->n_cancels : 0;
    if (can)
    {
      if (expect) SIM_CHECK(after == before + 1, "promise:cancel", "dropping an attached unfinished promise emitted %d cancellations", after - before);
      else SIM_CHECK(after == before, "promise:cancel", "dropping a detached promise cancelled its operation");
    }
    else if (keep) SIM_CHECK(after == before || expect, "promise:cancel", "operation cancelled although the promise was %s", live ? "detached" : "finished or moved from");
  }

  void check_slot(slot<T> & x)
  {
    if (!x.p) return;
    if (x.moved_unfinished || x.moved_done) { SIM_CHECK(x.p->ready(), "promise:ready", "a moved-from promise is not ready"); SIM_CHECK(!x.p->attached(), "promise:attached", "a moved-from promise is attached"); return; }
    SIM_CHECK(x.p->ready() == (x.b->ended > 0), "promise:ready", "ready() is %d although body %d %s", x.p->ready(), x.b->id, x.b->ended ? "has ended" : "is running");
    SIM_CHECK(static_cast<bool>(*x.p) == !x.taken, "promise:ready", "promise tests %s but its outcome %s taken", *x.p ? "true" : "false", x.taken ? "was" : "was not");
    SIM_CHECK(x.p->attached() == x.attached, "promise:attached", "attached() is %d", x.p->attached());
  }

  void check_out(slot<T> & x, outcome o, const char * how)
  {
    SIM_CHECK(x.b->ended == 1, "promise:outcome", "%s: %s delivered but body %d ended %d times", how, ONAME(o), x.b->id, x.b->ended);
    SIM_CHECK(o == x.b->out, "promise:outcome", "%s delivered %s but body %d ended with %s", how, ONAME(o), x.b->id, ONAME(x.b->out));
  }

  void get(slot<T> & x)
  {
    outcome o;
    x.taken = true;
    try { if constexpr (std::is_void_v<T>) { x.p->get(); o = outcome::ok(0); } else o = outcome::ok(id_of(x.p->get())); }
    catch (...) { o = outcome::err(classify(std::current_exception())); }
    check_out(x, o, "get()");
  }

  proc run_actor(actor & a, int n)
  {
    for (int k = 0; k < n; k++)
    {
      for (auto & x : s) check_slot(x);
      auto i = choose((std::uint32_t)s.size(), "slot");
      auto & x = s[i];
      static const int ops[] = {0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8};
      int op = ops[choose(11, "act")];
      if (!x.p) { create(x); continue; }
      switch (op)
      {
        case 0: // await
        {
          if (x.moved_done || x.taken) break;
          auto f = random_form();
          bool bad_moved = x.moved_unfinished, bad_again = x.awaited;
          auto h0 = W->handler_no;
          bool was_done = x.b->ended > 0;
          bool own = !bad_moved && !bad_again;
          if (own) x.awaited = true;
          ev("actor %d awaits slot %u body %d", a.id, i, x.b->id);
          if (bad_moved) probe("await-moved-from");
          if (bad_again) probe("await-concurrently");
          waiting[a.id] = own && !was_done ? x.b : nullptr;
          cur_wait[a.id] = own ? "promise" : "error await";
          outcome o;
          try
          {
            if (f == form::plain) { if constexpr (std::is_void_v<T>) { co_await *x.p; o = outcome::ok(0); } else o = outcome::ok(id_of(co_await *x.p)); }
            else if (f == form::result) o = from_result(co_await cobalt::as_result(*x.p));
            else o = from_tuple(co_await cobalt::as_tuple(*x.p));
          }
          catch (...)
          {
            o = outcome::err(classify(std::current_exception()));
            SIM_CHECK(f == form::plain, "promise:form", "await as result or tuple threw %s", xname(o.code));
          }
          waiting[a.id] = nullptr;
          cur_wait[a.id] = nullptr;
          ev("actor %d got %s", a.id, ONAME(o));
          if (bad_moved) { SIM_CHECK(o == outcome::err(x_moved) && h0 == W->handler_no, "promise:error", "await of a moved-from promise gave %s", ONAME(o)); break; }
          if (bad_again) { SIM_CHECK(o == outcome::err(x_awaited) && h0 == W->handler_no, "promise:error", "concurrent await gave %s", ONAME(o)); break; }
          x.awaited = false;
          x.taken = true;
          if (was_done) SIM_CHECK(h0 == W->handler_no, "promise:outcome", "await of a finished promise suspended");
          check_out(x, o, "await");
          break;
        }
        case 1: // move construct
        {
          if (!cfg.moves || x.awaited || x.moved_unfinished || x.moved_done || x.taken) break;
          for (auto & y : s)
            if (!y.p)
            {
              ev("move body %d", x.b->id);
              y.p.emplace(std::move(*x.p));
              y.b = x.b; y.taken = y.awaited = y.moved_unfinished = y.moved_done = false; y.attached = x.attached;
              (x.b->ended ? x.moved_done : x.moved_unfinished) = true;
              x.attached = false;
              probe("move-construct");
              break;
            }
          break;
        }
        case 2: // move assign
        {
          if (!cfg.moves || x.awaited || x.moved_unfinished || x.moved_done || x.taken) break;
          auto & y = s[choose((std::uint32_t)s.size(), "to")];
          if (&y == &x || !y.p || y.awaited) break;
          ev("assign body %d over %d", x.b->id, y.b->id);
          drop(y, [&] { *y.p = std::move(*x.p); });
          y.b = x.b; y.taken = y.moved_unfinished = y.moved_done = false; y.attached = x.attached;
          (x.b->ended ? x.moved_done : x.moved_unfinished) = true;
          x.attached = false;
          probe("move-assign");
          break;
        }
        case 3: // drop
          if (!cfg.drops || x.awaited) break;
          ev("drop body %d", x.b->id);
          drop(x, [&] { x.p.reset(); });
          x.b = nullptr;
          break;
        case 4:
          if (x.awaited || x.moved_unfinished || x.moved_done) break;
          if (x.attached) x.p->detach(); else x.p->attach();
          x.attached = !x.attached;
          break;
        case 5: // cancel
        {
          if (!cfg.cancels) break;
          body * b = x.b;
          bool live = !x.moved_unfinished && !x.moved_done && !b->ended;
          bool can = live && b->can_see_cancel();
          int before = cancels_seen(b);
          auto keep = b->cur;
          if (live) { b->cancel_ok = true; fault("cancel"); }
          static const asio::cancellation_type cts[] = {asio::cancellation_type::all, asio::cancellation_type::terminal, asio::cancellation_type::partial, asio::cancellation_type::total};
          x.p->cancel(cts[choose(4, "ct")]);
          int after = keep ? keep->n_cancels : 0;
          if (can) SIM_CHECK(after == before + 1, "promise:cancel", "cancel() emitted %d cancellations", after - before);
          else if (keep && !live) SIM_CHECK(after == before, "promise:cancel", "cancel() of a finished or moved-from promise cancelled something");
          break;
        }
        case 6: // get
          if (x.awaited || x.moved_unfinished || x.moved_done || x.taken || !x.p->ready()) break;
          get(x);
          break;
        case 7: co_await yield_{false}; break;
        case 8: co_await yield_{true}; break;
      }
    }
  }
  std::map<int, body *> waiting;
  std::map<int, const char *> cur_wait;
};

template<typename T>
void scenario()
{
  ledger led("thread default");
  L = &led;
  cobalt::this_thread::set_default_resource(&led);
  stage<T> st;
  st.s.resize(range(1, 3, "slots"));
  std::vector<std::unique_ptr<actor>> as;
  auto wp = std::make_unique<world>();
  W = wp.get();
  W->on_exception = [](std::exception_ptr e)
  {
    int c = classify(e);
    ev("escaped %s", xname(c));
    for (auto & d : dets)
      if (d->b.ended && !d->b.escaped && d->b.out == outcome::err(c)) { d->b.escaped = true; return; }
    for (auto & b : bodies)
      if (b->ended && !b->escaped && b->out == outcome::err(c) && b->dropped) { b->escaped = true; probe("escaped-exception"); return; }
    SIM_CHECK(false, "promise:escaped", "exception %s reached the event loop although its promise was still owned", xname(c));
  };
  int n = range(1, 3, "actors");
  for (int i = 0; i < n; i++)
  {
    as.push_back(std::make_unique<actor>(i));
    asio::post(W->ctx->get_executor(), [&st, a = as.back().get()] { st.run_actor(*a, range(1, 8, "len")); });
  }
  if (cfg.cancels)
    for (int k = range(0, 2, "ncancel"); k > 0; k--)
    {
      auto * a = as[choose(n, "victim")].get();
      W->add([&st, a]
      {
        body * b = st.waiting[a->id];
        bool can = b && b->can_see_cancel();
        auto keep = b ? b->cur : nullptr;
        int before = cancels_seen(b);
        if (b) { b->cancel_ok = true; fault("cancel-awaiter"); }
        a->sig.emit(asio::cancellation_type::terminal);
        if (can) SIM_CHECK(keep->n_cancels == before + 1, "promise:forward", "cancelling the awaiter emitted %d cancellations to the operation", keep->n_cancels - before);
      }, true);
    }
  // detached coroutines
  int nd = owns("detached:") || owns("P26") ? range(1, 3, "ndet") : (int)choose(2, "ndet");
  for (int i = 0; i < nd; i++)
  {
    dets.push_back(std::make_unique<det>());
    auto * d = dets.back().get();
    random_body(d->b, 100 + i);
    d->b.nsteps = range(1, 4, "dsteps");
    d->b.throws = chance(1, 12, "dthrows");
    d->has_source = chance(1, 2, "source");
    W->add([d]
    {
      bool oom = cfg.oom && chance(1, 3, "oom");
      if (oom) L->fail_at = (std::int64_t)L->allocs;
      bool threw = false;
      try { det_body(*d, held(d->b)); }
      catch (std::bad_alloc &) { threw = true; }
      catch (boom &) { if (!d->b.throws) throw; }
      if (oom) SIM_CHECK(threw && d->b.started == 0 && d->b.live == 0, "oom:half-started", "creating a detached with failing allocation: threw %d, started %d, parameters left %ld", threw, d->b.started, d->b.live);
      else SIM_CHECK(!threw, "oom:spurious", "bad_alloc although no allocation failed");
      if (oom) d->b.ended = 2;
      L->fail_at = -1; L->failed = false;
      if (!threw) SIM_CHECK(d->b.started == 1, "detached:start", "detached body started %d times at the call", d->b.started);
    });
    if (d->has_source && cfg.cancels)
      for (int k = range(0, 2, "nsig"); k > 0; k--)
        W->add([d]
        {
          if (!d->b.started || d->b.ended) return;
          bool can = d->b.can_see_cancel();
          int before = cancels_seen(&d->b);
          auto keep = d->b.cur;
          d->received = true;
          fault("cancel-detached");
          d->sig.emit(asio::cancellation_type::terminal);
          if (can) SIM_CHECK(keep->n_cancels == before + 1, "detached:cancel", "the source's cancellation reached the operation %d times", keep->n_cancels - before);
        }, true);
  }

  bool early = chance(1, 4, "early");
  if (early)
  {
    int steps = range(0, 40, "steps");
    while (steps-- > 0 && W->step_once());
    fault("destroy-context");
  }
  else
  {
    W->run();
    for (auto & a : as)
      SIM_CHECK(a->finished, "promise:hang", "actor %d never resumed from its %s", a->id, st.cur_wait[a->id] ? st.cur_wait[a->id] : "?");
    for (auto & d : dets)
      SIM_CHECK(d->b.ended, "detached:ended", "detached coroutine never ended");
    for (auto & b : bodies) SIM_CHECK(b->ended == 1 && b->started <= 1, "promise:outcome", "body %d started %d, ended %d times", b->id, b->started, b->ended);
    for (auto & x : st.s)
    {
      st.check_slot(x);
      if (x.usable() && chance(1, 2, "get-at-end")) st.get(x);
    }
  }
  bool slots_first = chance(1, 2, "slots-first");
  if (slots_first)
    for (auto & x : st.s)
      if (!x.awaited && x.p) { st.drop(x, [&] { x.p.reset(); }); }
  W->guard.reset();
  wp->on_exception = nullptr;
  wp.reset();
  if (!slots_first)
    for (auto & x : st.s)
      if (x.usable())
      {
        SIM_CHECK(x.p->ready(), "promise:ready", "promise not ready although its event loop is gone");
        if (!x.b->ended)
        {
          outcome o;
          try { x.p->get(); o = outcome::ok(0); } catch (...) { o = outcome::err(classify(std::current_exception())); }
          SIM_CHECK(o == outcome::err(x_unexpected), "promise:outcome", "promise whose coroutine was destroyed gives %s", ONAME(o));
        }
      }
  st.s.clear();
  for (auto & a : as) SIM_CHECK(a->finished || a->destroyed || !a->started, "promise:leak", "awaiting actor %d leaked", a->id);
  for (auto & d : dets) if (!d->b.throws) SIM_CHECK(d->b.live == 0, "detached:leak", "state of detached coroutine %d not destroyed (%ld objects left)", d->b.id, d->b.live);
  bool esc = false;
  for (auto & d : dets) if (d->b.throws && d->b.ended == 1) esc = true;
  for (auto & b : bodies)
  {
    if (b->escaped) { esc = true; continue; }
    SIM_CHECK(b->live == 0, "promise:leak", "state of promise coroutine %d not destroyed (%ld objects left)", b->id, b->live);
  }
  if (!esc) SIM_CHECK(led.live.empty(), "memory:leak", "%zu allocation(s) never returned", led.live.size());
  for (auto & b : bodies)
    if (b->escaped) SIM_CHECK(b->live == 0, "promise:leak-escaped", "frame of a coroutine whose exception went to the event loop is not destroyed");
  for (auto & d : dets)
    if (d->b.throws && d->b.ended == 1) SIM_CHECK(d->b.live == 0, "detached:leak-escaped", "frame of a detached coroutine whose exception went to the event loop is not destroyed");
  check_stacks();
  cobalt::this_thread::set_default_resource(boost::cobalt::pmr::get_default_resource());
  W = nullptr;
}
}

void sim_main()
{
  int t = choose(2, "type");
  bool faults = !chance(1, 4, "fault-free");
  cfg.cancels = faults && chance(1, 2);
  cfg.moves = chance(1, 2);
  cfg.drops = faults && chance(1, 2);
  cfg.oom = owns("oom:") && chance(1, 2);
  if (t == 0) scenario<mval>(); else scenario<void>();
}
