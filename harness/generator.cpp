// P06 (and P17): generators, eager and lazy, with and without push values, under random await,
// get, cancel, move, assignment, drop, operation outcomes and destruction of the event loop.
#include "../sim/fiber.hpp"
#include <boost/cobalt/generator.hpp>
using namespace sim;

const char * const sim_harness_name = "generator";
const char * sim_class_owner(const char * c)
{
  std::string s = c;
#ifdef SIM_FIBER
  if (s.rfind("oom:", 0) == 0 || s.rfind("alloc:", 0) == 0 || s.find(":leak-escaped") != std::string::npos) return "P17";
  return "P27";
#endif
  if (s.rfind("gen:", 0) == 0) return "P06";
  if (s.rfind("oom:", 0) == 0) return "P17";
  return "";
}

namespace
{
struct setup { bool cancels, moves, drops, oom, gets; } cfg;
ledger * L;

struct gbody : body
{
  bool lazy = false;
  bool past_initial = false;
  int nyield = 0;
  int emitted = 0;            // values handed to co_yield so far
  int reads = 0;              // values the consumer has taken
  bool at_yield = false;      // suspended at co_yield (or initial)
  int yield_no = -1;          // which one, 0 = initial
  std::map<int, int> assigned; // yield -> id of the value pushed to it
  std::vector<int> seq;       // values produced in order
  bool exc_taken = false, ret_taken = false;
  bool unread() const { return (int)seq.size() > reads; }
  bool unread_exc() const { return ended && !out.value && !exc_taken; }
};
std::vector<std::unique_ptr<gbody>> bodies;
int next_push = 5000;

template<typename T> int push_id(T & t) { return id_of(t); }

template<typename Y, typename P>
void got_push(gbody & b, int no, int id)
{
  if constexpr (!std::is_void_v<P>)
  {
    auto it = b.assigned.find(no);
    SIM_CHECK(it != b.assigned.end(), "gen:push", "yield %d of generator %d resumed with push %d although none was passed to it", no, b.id, id);
    if (it != b.assigned.end()) SIM_CHECK(it->second == id, "gen:push", "yield %d of generator %d received push %d instead of %d", no, b.id, id, it->second);
  }
  SIM_CHECK(!b.dropped, "gen:zombie", "generator %d resumed past co_yield although its handle is gone", b.id);
}

template<typename Y, typename P>
#ifdef SIM_FIBER
Y gen_fiber(cobalt::experimental::context<cobalt::generator<Y, P>, gbody &, held> c, gbody & b, held h)
#else
cobalt::generator<Y, P> gen_body(gbody & b, held h)
#endif
{
  b.started++;
  held local(h);
  ev("gen %d starts", b.id);
  try
  {
    if (b.lazy)
    {
      b.at_yield = true; b.yield_no = 0;
      if constexpr (std::is_void_v<P>) { AWAIT(cobalt::this_coro::initial); got_push<Y, P>(b, 0, 0); }
      else { auto p = AWAIT(cobalt::this_coro::initial); got_push<Y, P>(b, 0, push_id(p)); }
      b.at_yield = false;
      b.past_initial = true;
      ev("gen %d past initial", b.id);
    }
    for (int k = 1; ; k++)
    {
      int n = (int)choose(3, "ops");
      for (int i = 0; i < n; i++)
      {
        auto sc = random_script(i, chance(1, 4, "experr"));
        sim_op o(sc);
        b.cur = o.log; b.cur_external = sc.mode == op_mode::external;
        if (chance(2, 3, "tolerate")) { auto [ec, v] = AWAIT(cobalt::as_tuple(o)); (void)v; }
        else AWAIT(o);
        b.cur.reset();
      }
      if (k > b.nyield) break;
      int id = b.id * 100 + k;
      SIM_CHECK(b.emitted == b.reads, "gen:ahead", "generator %d yields value %d although only %d of %d were taken", b.id, k, b.reads, b.emitted);
      b.emitted++;
      ev("gen %d yields %d", b.id, id);
      b.at_yield = true; b.yield_no = k;
      if (!b.dropped) b.seq.push_back(id);
      if constexpr (std::is_void_v<P>) { YIELD(make_val<Y>(id)); got_push<Y, P>(b, k, 0); }
      else { auto p = YIELD(make_val<Y>(id)); got_push<Y, P>(b, k, push_id(p)); }
      b.at_yield = false;
    }
    if (b.throws) throw boom{1000 + b.id};
  }
  NO_UNWIND
  catch (...)
  {
    b.at_yield = false;
    b.cur.reset();
    b.ended++;
    b.out = outcome::err(classify(std::current_exception()));
    ev("gen %d throws %s", b.id, xname(b.out.code));
    if (b.out.code == x_abort) SIM_CHECK(b.cancel_ok, "gen:spurious-cancel", "generator %d ended with operation_aborted although nobody cancelled it", b.id);
    throw;
  }
  int id = b.id * 100 + 99;
  SIM_CHECK(b.emitted == b.reads, "gen:ahead", "generator %d returns although only %d of %d values were taken", b.id, b.reads, b.emitted);
  b.ended++;
  b.seq.push_back(id);
  b.out = outcome::ok(id);
  ev("gen %d returns %d", b.id, id);
  RETURN make_val<Y>(id);
}

#ifdef SIM_FIBER
template<typename Y, typename P>
cobalt::generator<Y, P> gen_body(gbody & b, held h)
{
  return cobalt::experimental::make_context<cobalt::generator<Y, P>>(&gen_fiber<Y, P>, std::allocator_arg, stacks{}, b, std::move(h));
}
#endif

template<typename Y, typename P>
struct slot
{
  std::optional<cobalt::generator<Y, P>> g;
  gbody * b = nullptr;
  bool moved = false, moved_done = false, awaited = false;
};

int cancels_seen(body * b) { return b && b->cur ? b->cur->n_cancels : 0; }

template<typename Y, typename P>
struct stage
{
  std::vector<slot<Y, P>> s;
  std::map<int, gbody *> waiting;

  void create(slot<Y, P> & x)
  {
    x.moved = x.moved_done = x.awaited = false;
    bodies.push_back(std::make_unique<gbody>());
    auto & b = *bodies.back();
    b.id = (int)bodies.size();
    b.nyield = range(0, 3, "yields");
    b.throws = chance(1, 4, "throws");
    if (chance(1, 10, "noop"))
    {
      x.g.emplace(cobalt::noop<Y>(77));
      b.seq.push_back(77); b.ended = b.started = 1; b.out = outcome::ok(77);
      x.b = &b;
      return;
    }
    b.lazy = chance(1, 2, "lazy");
    bool oom = cfg.oom && chance(1, 3, "oom");
    if (oom) L->fail_at = (std::int64_t)L->allocs;
    try { x.g.emplace(gen_body<Y, P>(b, held(b))); }
    catch (std::bad_alloc &)
    {
      SIM_CHECK(oom, "oom:spurious", "bad_alloc although no allocation failed");
      SIM_CHECK(b.started == 0 && b.live == 0, "oom:half-started", "creation failed: started %d, %ld parameter(s) left", b.started, b.live);
      b.ended = 1;
      L->failed = false;
      x.g.reset(); x.b = nullptr;
      return;
    }
    SIM_CHECK(!oom, "oom:swallowed", "failed allocation was not reported");
    x.b = &b;
    SIM_CHECK(b.started == 1, "gen:start", "generator body started %d times at the call", b.started);
    SIM_CHECK(!b.past_initial, "gen:eager", "a lazy generator ran past initial at the call");
  }

  void check(slot<Y, P> & x)
  {
    if (!x.g || x.moved || x.moved_done) return;
    auto & b = *x.b;
    bool rd = b.unread() || b.unread_exc();
    SIM_CHECK(x.g->ready() == rd, "gen:ready", "ready() of generator %d is %d, unread values %zu, ended %d", b.id, x.g->ready(), b.seq.size() - b.reads, b.ended);
    SIM_CHECK(static_cast<bool>(*x.g) == (!b.ended || rd), "gen:ready", "generator %d tests %d, ended %d, something unread %d", b.id, (bool)*x.g, b.ended, rd);
    if (b.lazy && !b.assigned.count(0) && !std::is_void_v<P>) SIM_CHECK(!b.past_initial, "gen:eager", "a lazy generator ran before its first await");
  }

  template<typename F>
  void drop(slot<Y, P> & x, F && f)
  {
    auto * b = x.b;
    bool live = x.g && b && !x.moved && !x.moved_done && !b->ended;
    bool can = live && b->can_see_cancel();
    int before = cancels_seen(b);
    auto keep = b ? b->cur : nullptr;
    bool parked = live && b->at_yield && (b->lazy || b->unread());
    if (live) { b->dropped = true; b->cancel_ok = true; fault("drop"); }
    f();
    int after = keep ? keep->n_cancels : 0;
    if (can) SIM_CHECK(after == before + 1, "gen:cancel", "dropping a running generator emitted %d cancellations", after - before);
    else if (keep && !live) SIM_CHECK(after == before, "gen:cancel", "dropping a finished or moved-from generator cancelled something");
    if (parked)
    {
      probe("dropped-at-yield");
      SIM_CHECK(b->live == 0, "gen:drop", "dropping a generator suspended at co_yield left its coroutine behind");
      b->ended = 2;
    }
  }

  // what an await or get gave, the k-th element being due
  void check_out(gbody & b, outcome o, const char * how)
  {
    if (o.value)
    {
      SIM_CHECK(b.unread(), "gen:value", "%s delivered %d but generator %d has produced only %zu value(s), all taken", how, o.code, b.id, b.seq.size());
      if (b.unread()) SIM_CHECK(b.seq[b.reads] == o.code, "gen:value", "%s delivered %d, value %d of generator %d is %d", how, o.code, b.reads + 1, b.id, b.seq[b.reads]);
      b.reads++;
    }
    else
    {
      SIM_CHECK(!b.unread(), "gen:lost", "%s failed with %s although value %d of generator %d is unread", how, xname(o.code), b.reads + 1, b.id);
      SIM_CHECK(b.ended, "gen:value", "%s failed with %s although generator %d is still running", how, xname(o.code), b.id);
      if (b.unread_exc()) { SIM_CHECK(o == b.out, "gen:value", "%s delivered %s, generator %d ended with %s", how, ONAME(o), b.id, ONAME(b.out)); b.exc_taken = true; }
      else SIM_CHECK(o.code == x_other, "gen:end", "%s past the end gave %s", how, ONAME(o));
    }
  }

  proc run_actor(actor & a, int n)
  {
    for (int k = 0; k < n; k++)
    {
      for (auto & x : s) check(x);
      auto i = choose((std::uint32_t)s.size(), "slot");
      auto & x = s[i];
      if (!x.g) { create(x); continue; }
      static const int ops[] = {0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7};
      int op = ops[choose(12, "act")];
      switch (op)
      {
        case 0: // await
        {
          if (x.moved_done) break;
          auto & b = *x.b;
          constexpr bool tuple_ok = std::is_copy_constructible_v<Y>;
          auto f = random_form();
          if (f == form::tuple && !tuple_ok) f = form::result;
          bool own = !x.moved && !x.awaited;
          auto h0 = W->handler_no;
          bool was_unread = b.unread() || b.unread_exc() || b.ended;
          int pid = ++next_push;
          bool lval = std::is_same_v<P, int> && chance(1, 2, "lvalue-push");
          bool gave = false;
          if (own && b.unread() && !b.ended) { b.assigned[b.yield_no] = pid; gave = true; }
          else if (own && b.at_yield && !b.assigned.count(b.yield_no)) { b.assigned[b.yield_no] = pid; gave = true; }
          if (own) { x.awaited = true; waiting[a.id] = &b; }
          if (x.awaited && !own) probe("await-concurrently");
          ev("actor %d awaits gen %d push %d", a.id, b.id, pid);
          outcome o;
          try
          {
            if constexpr (std::is_void_v<P>)
            {
              if (f == form::plain) o = outcome::ok(id_of(co_await *x.g));
              else if (f == form::result) o = from_result(co_await cobalt::as_result(*x.g));
              else if constexpr (tuple_ok) o = from_tuple(co_await cobalt::as_tuple(*x.g));
            }
            else if constexpr (std::is_same_v<P, int>)
            {
              const int cp = pid;
              if (f == form::plain) { if (lval) o = outcome::ok(id_of(co_await (*x.g)(cp))); else o = outcome::ok(id_of(co_await (*x.g)(int(pid)))); }
              else if (f == form::result) { if (lval) o = from_result(co_await cobalt::as_result((*x.g)(cp))); else o = from_result(co_await cobalt::as_result((*x.g)(int(pid)))); }
              else if constexpr (tuple_ok) o = from_tuple(co_await cobalt::as_tuple((*x.g)(int(pid))));
            }
            else
            {
              P pv(pid);
              if (f == form::plain) o = outcome::ok(id_of(co_await (*x.g)(std::move(pv))));
              else o = from_result(co_await cobalt::as_result((*x.g)(std::move(pv))));
            }
          }
          catch (...)
          {
            o = outcome::err(classify(std::current_exception()));
            SIM_CHECK(f == form::plain, "gen:form", "await as result or tuple threw %s", xname(o.code));
          }
          ev("actor %d got %s", a.id, ONAME(o));
          if (!own && x.moved) { SIM_CHECK(o == outcome::err(x_moved) && h0 == W->handler_no, "gen:error", "await of a moved-from generator gave %s", ONAME(o)); x.moved_done = true; probe("await-moved-from"); break; }
          if (!own) { SIM_CHECK(o == outcome::err(x_awaited) && h0 == W->handler_no, "gen:error", "concurrent await gave %s", ONAME(o)); break; }
          waiting[a.id] = nullptr;
          x.awaited = false;
          if (was_unread) SIM_CHECK(h0 == W->handler_no, "gen:suspend", "await of a ready or finished generator suspended");
          check_out(b, o, "await");
          // the push of an await that waited for the value belongs to the yield of that value
          if (o.value && !gave && !b.ended && b.at_yield && !b.assigned.count(b.yield_no)) b.assigned[b.yield_no] = pid;
          break;
        }
        case 1: // get
        {
          if (!cfg.gets || x.awaited || x.moved || x.moved_done || !x.g->ready()) break;
          auto & b = *x.b;
          outcome o;
          probe("get");
          try { o = outcome::ok(id_of(x.g->get())); } catch (...) { o = outcome::err(classify(std::current_exception())); }
          ev("actor %d get gives %s", a.id, ONAME(o));
          if (o.value) check_out(b, o, "get()");
          else SIM_CHECK(b.unread_exc() && o == b.out, "gen:value", "get() delivered %s, generator %d ended with %s", ONAME(o), b.id, ONAME(b.out));
          break;
        }
        case 2: // move construct
        {
          if (!cfg.moves || x.awaited || x.moved || x.moved_done) break;
          for (auto & y : s)
            if (!y.g)
            {
              ev("move gen %d", x.b->id);
              bool done = x.b->ended;
              y.g.emplace(std::move(*x.g));
              y.b = x.b; y.moved = y.moved_done = y.awaited = false;
              (done ? x.moved_done : x.moved) = true;
              probe("move-construct");
              break;
            }
          break;
        }
        case 3: // move assign
        {
          if (!cfg.moves || x.awaited || x.moved || x.moved_done) break;
          auto & y = s[choose((std::uint32_t)s.size(), "to")];
          if (&y == &x || !y.g || y.awaited) break;
          ev("assign gen %d over %d", x.b->id, y.b->id);
          bool done = x.b->ended;
          drop(y, [&] { *y.g = std::move(*x.g); });
          y.b = x.b; y.moved = y.moved_done = false;
          (done ? x.moved_done : x.moved) = true;
          probe("move-assign");
          break;
        }
        case 4: // drop
          if (!cfg.drops || x.awaited) break;
          ev("drop gen %d", x.b->id);
          drop(x, [&] { x.g.reset(); });
          x.b = nullptr;
          break;
        case 5: // cancel
        {
          if (!cfg.cancels) break;
          gbody * b = x.b;
          bool live = !x.moved && !x.moved_done && !b->ended;
          bool can = live && b->can_see_cancel();
          int before = cancels_seen(b);
          auto keep = b->cur;
          if (live) { b->cancel_ok = true; fault("cancel"); }
          x.g->cancel(asio::cancellation_type::terminal);
          int after = keep ? keep->n_cancels : 0;
          if (can) SIM_CHECK(after == before + 1, "gen:cancel", "cancel() emitted %d cancellations", after - before);
          else if (keep && !live) SIM_CHECK(after == before, "gen:cancel", "cancel() of a finished or moved-from generator cancelled something");
          break;
        }
        case 6: co_await yield_{false}; break;
        case 7: co_await yield_{true}; break;
      }
    }
  }
};

template<typename Y, typename P>
void scenario()
{
  ledger led("thread default");
  L = &led;
  cobalt::this_thread::set_default_resource(&led);
  stage<Y, P> st;
  st.s.resize(range(1, 3, "slots"));
  std::vector<std::unique_ptr<actor>> as;
  auto wp = std::make_unique<world>();
  W = wp.get();
  W->on_exception = [](std::exception_ptr e)
  {
    int c = classify(e);
    ev("escaped %s", xname(c));
    for (auto & b : bodies)
      if (b->ended && !b->escaped && b->out == outcome::err(c) && b->dropped) { b->escaped = true; probe("escaped-exception"); return; }
    SIM_CHECK(false, "gen:escaped", "exception %s reached the event loop although its generator was still owned", xname(c));
  };
  int n = range(1, 2, "actors");
  for (int i = 0; i < n; i++)
  {
    as.push_back(std::make_unique<actor>(i));
    asio::post(W->ctx->get_executor(), [&st, a = as.back().get()] { st.run_actor(*a, range(1, 14, "len")); });
  }
  if (cfg.cancels)
    for (int k = range(0, 2, "ncancel"); k > 0; k--)
    {
      auto * a = as[choose(n, "victim")].get();
      W->add([&st, a]
      {
        gbody * b = st.waiting[a->id];
        bool can = b && b->can_see_cancel();
        auto keep = b ? b->cur : nullptr;
        int before = cancels_seen(b);
        if (b) { b->cancel_ok = true; fault("cancel-awaiter"); }
        a->sig.emit(asio::cancellation_type::terminal);
        if (can) SIM_CHECK(keep->n_cancels == before + 1, "gen:forward", "cancelling the awaiter emitted %d cancellations to the operation", keep->n_cancels - before);
      }, true);
    }
  bool early = chance(1, 4, "early");
  if (early)
  {
    int steps = range(0, 40, "steps");
    while (steps-- > 0 && W->step_once());
    fault("destroy-context");
  }
  else
  {
    W->run();
    for (auto & a : as) SIM_CHECK(a->finished, "gen:hang", "actor %d never resumed from its await of a generator", a->id);
    for (auto & x : st.s)
    {
      st.check(x);
      // an eager generator has reached its next co_yield by now
      if (x.g && !x.moved && !x.moved_done && !x.b->ended && x.b->started && !x.b->lazy && !x.awaited)
        SIM_CHECK(x.b->at_yield, "gen:stuck", "eager generator %d neither ended nor reached its next co_yield", x.b->id);
    }
  }
  bool slots_first = chance(1, 2, "slots-first");
  if (slots_first)
    for (auto & x : st.s)
      if (!x.awaited && x.g) st.drop(x, [&] { x.g.reset(); });
  W->guard.reset();
  wp->on_exception = nullptr;
  wp.reset();
  if (!slots_first)
    for (auto & x : st.s)
      if (x.g && !x.awaited && !x.moved && !x.moved_done && !x.b->ended && !x.b->at_yield)
        SIM_CHECK(x.g->ready(), "gen:ready", "generator not ready although its coroutine is gone with the event loop");
  st.s.clear();
  for (auto & a : as) SIM_CHECK(a->finished || a->destroyed || !a->started, "gen:leak", "awaiting actor %d leaked", a->id);
  bool esc = false;
  for (auto & b : bodies)
  {
    if (b->escaped) { esc = true; continue; }
    SIM_CHECK(b->live == 0, "gen:leak", "state of generator coroutine %d not destroyed (%ld objects left)", b->id, b->live);
  }
  if (!esc) SIM_CHECK(led.live.empty(), "memory:leak", "%zu allocation(s) never returned", led.live.size());
  for (auto & b : bodies)
    if (b->escaped) SIM_CHECK(b->live == 0, "gen:leak-escaped", "frame of a generator whose exception went to the event loop is not destroyed");
  check_stacks();
  cobalt::this_thread::set_default_resource(boost::cobalt::pmr::get_default_resource());
  W = nullptr;
}
}

void sim_main()
{
  int t = choose(4, "type");
  bool faults = !chance(1, 4, "fault-free");
  cfg.cancels = faults && chance(1, 2);
  cfg.moves = chance(1, 2);
  cfg.drops = faults && chance(1, 2);
  cfg.gets = chance(1, 3);
  cfg.oom = owns("oom:") && chance(1, 2);
  switch (t)
  {
    case 0: scenario<mval, void>(); break;
    case 1: scenario<int, int>(); break;
    case 2: scenario<mval, mval>(); break;
    case 3: scenario<int, void>(); break;
  }
}
