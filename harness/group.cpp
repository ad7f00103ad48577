// wait_group (P10) and with() (P11); allocation failures: P17.
#include "../sim/coro.hpp"
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/wait_group.hpp>
#include <boost/cobalt/with.hpp>
#include <deque>
#include <set>
using namespace sim;
const char * const sim_harness_name = "group";
const char * sim_class_owner(const char * c)
{
  std::string s = c;
  if (s.rfind("group:", 0) == 0) return "P10";
  if (s.rfind("with:", 0) == 0) return "P11";
  if (s.rfind("oom:", 0) == 0) return "P17";
  return "";
}

namespace
{
ledger * L;
bool cancels, early, oom;

// a coroutine body that waits for operations
struct child
{
  int idx = 0;
  body b;
  std::vector<std::shared_ptr<op_log>> logs;
  bool in_group = false;      // pushed and not yet removed
  bool collected = false;     // its outcome was consumed by wait()
  bool asked = false;         // somebody asked for its cancellation
  bool pending_external() const { return !logs.empty() && logs.back()->initiated && !logs.back()->completed && logs.back()->ext; }
  int n_cancels() const { int n = 0; for (auto & l : logs) n += l->n_cancels; return n; }
  bool done() const { return b.ended > 0; }
};

#define CHILD_BODY(c)                                                                             \
  body & b = c.b;                                                                                 \
  b.started++;                                                                                    \
  held local(h);                                                                                  \
  try                                                                                             \
  {                                                                                               \
    for (int i = 0; i < b.nsteps; i++)                                                            \
    {                                                                                             \
      auto sc = random_script(i, false);                                                          \
      sim_op o(sc);                                                                               \
      o.log->ext = sc.mode == op_mode::external;                                                  \
      c.logs.push_back(o.log);                                                                    \
      if (chance(1, 2, "tolerate")) (void)co_await cobalt::as_tuple(o);                           \
      else co_await o;                                                                            \
    }                                                                                             \
    if (b.throws) throw boom{1000 + b.id};                                                        \
  }                                                                                               \
  catch (...)                                                                                     \
  {                                                                                               \
    b.ended++;                                                                                    \
    b.out = outcome::err(classify(std::current_exception()));                                     \
    ev("%d throws %s", b.id, xname(b.out.code));                                                  \
    throw;                                                                                        \
  }                                                                                               \
  b.ended++;                                                                                      \
  ev("%d returns", b.id);

template<typename T> cobalt::promise<T> prom(child & c, held h)
{
  CHILD_BODY(c)
  b.out = outcome::ok(std::is_void_v<T> ? 0 : b.id);
  if constexpr (!std::is_void_v<T>) co_return make_val<T>(b.id);
}
template<typename T> cobalt::task<T> tsk(child & c, held h)
{
  CHILD_BODY(c)
  b.out = outcome::ok(std::is_void_v<T> ? 0 : b.id);
  if constexpr (!std::is_void_v<T>) co_return make_val<T>(b.id);
}

// ---------------------------------------------------------------------------------------------
struct group_run
{
  std::unique_ptr<cobalt::wait_group> wg;
  std::deque<child> kids;
  asio::cancellation_type normal{}, exc{};
  bool waiting_one = false, waiting_all = false, cancelled = false;
  std::set<int> awaited;       // the children a wait began with
  std::multiset<int> reported; // outcomes of wait_one

  int held() const { int n = 0; for (auto & k : kids) if (k.in_group) n++; return n; }
  int reapable() const { int n = 0; for (auto & k : kids) if (k.in_group && k.done() && !k.collected) n++; return n; }

  void push()
  {
    kids.emplace_back();
    auto & k = kids.back();
    k.idx = (int)kids.size() - 1;
    random_body(k.b, k.idx + 1);
    if (k.b.nsteps == 0 && chance(1, 2, "slow")) k.b.nsteps = 1;
    if (L->fail_at >= 0) L->fail_at = -1;
    ev("push %d", k.b.id);
    wg->push_back(prom<void>(k, sim::held(k.b)));
    k.in_group = true;
    check_size();
  }
  void check_size()
  {
    SIM_CHECK((int)wg->size() == held(), "group:size", "size() is %zu but %d promises were pushed and not reaped", wg->size(), held());
  }
  void reap()
  {
    // an outcome a wait has already collected is the wait's to remove
    if (waiting_all) for (auto i : awaited) if (kids[i].done()) kids[i].collected = true;
    int want = reapable();
    auto n = wg->reap();
    ev("reap %zu", n);
    SIM_CHECK((int)n == want, "group:reap", "reap() removed %zu promises but %d had completed", n, want);
    for (auto & k : kids) if (k.in_group && k.done() && !k.collected) k.in_group = false;
    check_size();
  }
  // every child that can see it is cancelled exactly once
  template<typename F> void cancelling(asio::cancellation_type ct, const char * how, F && f, bool only_awaited = false)
  {
    std::vector<std::pair<child *, std::shared_ptr<op_log>>> v;
    std::vector<int> before;
    for (auto & k : kids)
      if (k.in_group && (!only_awaited || awaited.count(k.idx)))
      {
        k.asked |= ct != asio::cancellation_type::none;
        if (k.pending_external()) { v.push_back({&k, k.logs.back()}); before.push_back(k.logs.back()->n_cancels); }
      }
    f();
    for (std::size_t i = 0; i < v.size(); i++)
    {
      int d = v[i].second->n_cancels - before[i], want = ct == asio::cancellation_type::none ? 0 : 1;
      if (v[i].first->b.ended || v[i].second->completed) continue;
      // a second emission only reaches an operation that is still pending
      if (before[i]) want = std::min(want, d);
      SIM_CHECK(d == want, "group:cancel", "%s reached promise %d %d times instead of %d", how, v[i].first->b.id, d, want);
      if (want && !before[i]) SIM_CHECK(v[i].second->cancels == (ct & asio::cancellation_type(7)), "group:cancel", "%s of type %u reached promise %d as %u", how, (unsigned)ct, v[i].first->b.id, (unsigned)v[i].second->cancels);
    }
  }
  void cancel()
  {
    static const asio::cancellation_type cts[] = {asio::cancellation_type::all, asio::cancellation_type::terminal, asio::cancellation_type::partial, asio::cancellation_type::total};
    auto ct = cts[choose(4, "ct")];
    fault("group-cancel");
    cancelling(ct, "cancel()", [&] { wg->cancel(ct); });
  }
  void check_running()
  {
    bool any = false, all = true;
    for (auto i : awaited) { if (kids[i].done()) any = true; else all = false; }
    if (waiting_one) SIM_CHECK(!any, "group:late", "wait_one() still waits although a promise has completed");
    if (waiting_all) SIM_CHECK(!all, "group:late", "the wait goes on although all promises have completed");
    for (auto & k : kids)
      if (!k.asked) SIM_CHECK(k.n_cancels() == 0, "group:disturbed", "promise %d was cancelled though nobody asked", k.b.id);
    for (auto & k : kids)
      if (k.in_group && !k.done()) SIM_CHECK(k.b.live > 0, "group:dropped", "promise %d is gone from the group", k.b.id);
  }
  void begin(const char * w) { awaited.clear(); for (auto & k : kids) if (k.in_group) awaited.insert(k.idx); cancelled = false; ev("%s with %d", w, held()); }

  // done, awaited children in an order independent way
  void end_one(outcome got, int before)
  {
    ev("wait_one: %s", ONAME(got));
    if (awaited.empty()) { SIM_CHECK(got.value, "group:outcome", "wait_one() on an empty group threw"); check_size(); return; }
    // which one was removed?
    std::vector<child *> match;
    for (auto i : awaited) { auto & k = kids[i]; if (k.in_group && k.done() && k.b.out.value == got.value && (got.value || k.b.out.code == got.code)) match.push_back(&k); }
    SIM_CHECK(!match.empty(), "group:outcome", "wait_one() gave %s but no promise ended so (or it was reported before)", ONAME(got));
    if (match.empty()) return;
    match[0]->in_group = false; // equal ones are interchangeable
    int extra = held();
    SIM_CHECK((int)wg->size() == extra, "group:size", "after wait_one() size() is %zu instead of %d", wg->size(), extra);
  }
  void end_all(const char * w)
  {
    for (auto i : awaited)
    {
      auto & k = kids[i];
      SIM_CHECK(k.done(), "group:early", "%s completed before promise %d", w, k.b.id);
      k.in_group = false;
    }
    ev("%s done", w);
    SIM_CHECK((int)wg->size() == held(), "group:size", "after %s size() is %zu instead of %d", w, wg->size(), held());
  }
};

proc group_actor(actor & me, group_run & g)
{
  int n = range(1, 8, "ops");
  while (n-- > 0)
  {
    switch (choose(9, "group-op"))
    {
      case 0: case 1: case 2: g.push(); break;
      case 3: co_await yield_{chance(1, 2, "far")}; break;
      case 4: g.reap(); break;
      case 5: g.cancel(); break;
      case 6:
      {
        g.begin("wait_one");
        int before = g.held();
        outcome got;
        g.waiting_one = true;
        if (chance(1, 2, "as-result")) { auto r = co_await cobalt::as_result(g.wg->wait_one()); got = r.has_error() ? outcome::err(classify(r.error())) : outcome::ok(0); }
        else
        {
          try { co_await g.wg->wait_one(); got = outcome::ok(0); }
          catch (...) { got = outcome::err(classify(std::current_exception())); }
        }
        g.waiting_one = false;
        g.end_one(got, before);
        break;
      }
      case 7:
      {
        g.begin("wait");
        g.waiting_all = true;
        bool threw = false;
        try
        {
          if (chance(1, 2, "op")) co_await *g.wg;
          else co_await g.wg->wait();
        }
        catch (...) { threw = true; }
        g.waiting_all = false;
        SIM_CHECK(!threw, "group:outcome", "waiting for all threw");
        g.end_all("wait");
        break;
      }
      case 8:
      {
        bool ex = chance(1, 2, "with-exception");
        auto ct = ex ? g.exc : g.normal;
        g.begin("await_exit");
        if (ct != asio::cancellation_type::none) fault("group-cancel");
        std::optional<cobalt::detail::gather_wrapper> w;
        g.cancelling(ct, "await_exit()", [&] { w.emplace(g.wg->await_exit(ex ? std::make_exception_ptr(boom{1}) : nullptr)); });
        g.waiting_all = true;
        bool threw = false;
        try { co_await std::move(*w); }
        catch (...) { threw = true; }
        g.waiting_all = false;
        SIM_CHECK(!threw, "group:outcome", "await_exit() threw");
        g.end_all("await_exit");
        break;
      }
    }
    g.check_size();
  }
  // the end of its scope cancels what is left
  for (auto & k : g.kids) if (k.in_group) { k.asked = true; k.in_group = false; k.b.dropped = true; }
  g.wg.reset();
}

void group_scenario()
{
  auto gp = std::make_unique<group_run>();
  auto & g = *gp;
  static const asio::cancellation_type cts[] = {asio::cancellation_type::none, asio::cancellation_type::all, asio::cancellation_type::terminal, asio::cancellation_type::total};
  switch (choose(3, "levels"))
  {
    case 0: g.wg = std::make_unique<cobalt::wait_group>(); g.normal = asio::cancellation_type::none; g.exc = asio::cancellation_type::all; break;
    case 1: g.normal = cts[choose(4, "normal")]; g.wg = std::make_unique<cobalt::wait_group>(g.normal); g.exc = asio::cancellation_type::all; break;
    case 2: g.normal = cts[choose(4, "normal")]; g.exc = cts[choose(4, "exc")]; g.wg = std::make_unique<cobalt::wait_group>(g.normal, g.exc); break;
  }
  actor a(0);
  auto wp = W;
  W->after_handler = [&] { g.check_running(); };
  W->add([&] { group_actor(a, g); });
  for (int i = range(0, 3, "meanwhile"); i > 0; i--)
    W->add([&, what = choose(3, "what")]
    {
      if (!g.wg || !a.started) return;
      switch (what) { case 0: g.push(); break; case 1: g.check_size(); break; case 2: g.reap(); break; }
    });
  if (cancels)
    for (int i = range(1, 2, "ncancel"); i > 0; i--)
      W->add([&]
      {
        if (!(g.waiting_one || g.waiting_all)) return;
        static const asio::cancellation_type cs[] = {asio::cancellation_type::all, asio::cancellation_type::terminal, asio::cancellation_type::partial, asio::cancellation_type::total};
        auto ct = cs[choose(4, "ct")];
        fault("cancel-waiter");
        g.cancelled = true;
        g.cancelling(ct, "cancelling the waiter", [&] { a.sig.emit(ct); }, true);
      }, true);
  if (early)
  {
    int steps = range(0, 30, "steps");
    while (steps-- > 0 && W->step_once());
    fault("destroy-context");
  }
  else
  {
    W->run();
    SIM_CHECK(a.finished, "group:hang", "the coroutine using the wait_group was never resumed");
  }
  W->after_handler = nullptr;
  bool fin = a.finished;
  W->guard.reset();
  delete W; W = nullptr;
  SIM_CHECK(fin || a.destroyed || !a.started, "memory:leak", "the coroutine using the wait_group leaked");
  g.wg.reset();
  bool esc = false;
  for (auto & k : g.kids)
    if (k.b.ended && !k.b.out.value && k.b.live) esc = true; // P04's known leak
    else SIM_CHECK(k.b.live == 0, "memory:leak", "state of promise %d not destroyed (%ld objects left)", k.b.id, k.b.live);
  if (!esc) SIM_CHECK(L->live.empty(), "memory:leak", "%zu allocation(s) never returned", L->live.size());
}

// ---------------------------------------------------------------------------------------------
struct with_run
{
  child bd, td;                // the body and the teardown
  body fun;                    // captured state of the functors and the resource
  int calls = 0;               // of the teardown
  outcome given;               // what the teardown was given
  bool res_live = false;
  int res_destroyed = 0;
  int modify = 0;              // 0 leaves, 1 resets, 2 replaces the exception
  bool begun = false, finished = false, after_teardown = false, failed_oom = false, cancelled = false;
  outcome got;
};

struct resource
{
  with_run * r;
  held h;
  explicit resource(with_run & r) : r(&r), h(r.fun) { r.res_live = true; }
  resource(resource && o) noexcept : r(std::exchange(o.r, nullptr)), h(o.h) {}
  ~resource() { if (r) { r->res_live = false; r->res_destroyed++; ev("resource destroyed"); } }
  cobalt::promise<void> await_exit(std::exception_ptr e);
};
void enter_teardown(with_run & r, std::exception_ptr e)
{
  r.calls++;
  r.given = e ? outcome::err(classify(e)) : outcome::ok(0);
  ev("teardown with %s", ONAME(r.given));
  SIM_CHECK(r.calls == 1, "with:twice", "the teardown ran %d times", r.calls);
  SIM_CHECK(r.bd.done() || r.failed_oom || L->failed, "with:order", "the teardown began before the body had finished");
  SIM_CHECK(r.res_live, "with:lifetime", "the resource was destroyed before the teardown");
  outcome want = r.bd.b.out.value ? outcome::ok(0) : r.bd.b.out;
  if (!L->failed) SIM_CHECK(r.given == want, "with:given", "the teardown was given %s but the body ended with %s", ONAME(r.given), ONAME(r.bd.b.out));
}
struct scope_check
{
  with_run & r; const char * what;
  ~scope_check() { }
  void operator()() { SIM_CHECK(r.res_live, "with:lifetime", "the resource was destroyed before the end of the %s", what); }
};
#define SCOPED(R, WHAT) SIM_CHECK((R).res_live, "with:lifetime", "the resource was destroyed before the end of the " WHAT)

template<typename T> cobalt::promise<T> body_prom(with_run & r, resource & res, held h)
{
  child & c = r.bd;
  CHILD_BODY(c)
  SCOPED(r, "body");
  b.out = outcome::ok(std::is_void_v<T> ? 0 : b.id);
  if constexpr (!std::is_void_v<T>) co_return make_val<T>(b.id);
}
template<typename T> cobalt::task<T> body_task(with_run & r, resource & res, held h)
{
  child & c = r.bd;
  CHILD_BODY(c)
  SCOPED(r, "body");
  b.out = outcome::ok(std::is_void_v<T> ? 0 : b.id);
  if constexpr (!std::is_void_v<T>) co_return make_val<T>(b.id);
}
template<typename T> T body_sync(with_run & r)
{
  body & b = r.bd.b;
  b.started++; b.ended++;
  if (b.throws) { b.out = outcome::err(1000 + b.id); throw boom{1000 + b.id}; }
  b.out = outcome::ok(std::is_void_v<T> ? 0 : b.id);
  return make_val<T>(b.id);
}
void modify(with_run & r, std::exception_ptr & e)
{
  if (r.modify == 1) { ev("reset"); e = nullptr; }
  if (r.modify == 2) { ev("replaced"); e = std::make_exception_ptr(boom{77}); }
}
cobalt::promise<void> down_prom(with_run & r, resource * res, std::exception_ptr & e, bool mod, held h)
{
  child & c = r.td;
  CHILD_BODY(c)
  SCOPED(r, "teardown");
  if (mod) modify(r, e);
  b.out = outcome::ok(0);
}
cobalt::task<void> down_task(with_run & r, resource * res, std::exception_ptr & e, bool mod, held h)
{
  child & c = r.td;
  CHILD_BODY(c)
  SCOPED(r, "teardown");
  if (mod) modify(r, e);
  b.out = outcome::ok(0);
}
cobalt::promise<void> exit_prom(with_run & r, std::exception_ptr, held h)
{
  child & c = r.td;
  CHILD_BODY(c)
  SCOPED(r, "teardown");
  b.out = outcome::ok(0);
}
cobalt::promise<void> resource::await_exit(std::exception_ptr e)
{
  enter_teardown(*r, e);
  return exit_prom(*r, e, held(r->td.b));
}

enum class bkind { prom, task, sync };
enum class dkind { prom, task, exit, prom_ref, task_ref };

template<bkind B, typename T> struct fn
{
  with_run * r; held h;
  fn(with_run & r) : r(&r), h(r.fun) {}
  auto operator()(resource & res)
  {
    SIM_CHECK(r->res_live, "with:lifetime", "the resource is gone before the body starts");
    if constexpr (B == bkind::prom) return body_prom<T>(*r, res, held(r->bd.b));
    else if constexpr (B == bkind::task) return body_task<T>(*r, res, held(r->bd.b));
    else return body_sync<T>(*r);
  }
};
template<dkind D> struct dn
{
  with_run * r; held h;
  dn(with_run & r) : r(&r), h(r.fun) {}
  template<typename Ep> auto call(resource & res, Ep & e)
  {
    enter_teardown(*r, e);
    if constexpr (D == dkind::prom || D == dkind::prom_ref) return down_prom(*r, &res, e, D == dkind::prom_ref, held(r->td.b));
    else return down_task(*r, &res, e, D == dkind::task_ref, held(r->td.b));
  }
};
struct dn_val_prom : dn<dkind::prom> { using dn::dn; std::exception_ptr keep; auto operator()(resource && x, std::exception_ptr e) { keep = e; return call(x, keep); } auto operator()(resource & x, std::exception_ptr e) { keep = e; return call(x, keep); } };
struct dn_val_task : dn<dkind::task> { using dn::dn; std::exception_ptr keep; auto operator()(resource && x, std::exception_ptr e) { keep = e; return call(x, keep); } auto operator()(resource & x, std::exception_ptr e) { keep = e; return call(x, keep); } };
struct dn_ref_prom : dn<dkind::prom_ref> { using dn::dn; auto operator()(resource && x, std::exception_ptr & e) { return call(x, e); } auto operator()(resource & x, std::exception_ptr & e) { return call(x, e); } };
struct dn_ref_task : dn<dkind::task_ref> { using dn::dn; auto operator()(resource && x, std::exception_ptr & e) { return call(x, e); } auto operator()(resource & x, std::exception_ptr & e) { return call(x, e); } };

// the caller: an actor, or a promise awaited by nobody else
#define USE_WITH(MAKE)                                                                                \
  {                                                                                                   \
    r.begun = true;                                                                                   \
    if (oom) L->fail_at = (std::int64_t)L->allocs + choose(4, "oom-at");                              \
    try                                                                                               \
    {                                                                                                 \
      if constexpr (std::is_void_v<T>) { co_await MAKE; r.got = outcome::ok(0); }                     \
      else { auto v = co_await MAKE; r.got = outcome::ok(id_of(v)); }                                 \
    }                                                                                                 \
    catch (...) { r.got = outcome::err(classify(std::current_exception())); }                         \
    r.finished = true;                                                                                \
    r.failed_oom = L->failed; L->fail_at = -1;                                                        \
    ev("with: %s", ONAME(r.got));                                                                     \
    check_with(r);                                                                                    \
  }
void check_with(with_run & r)
{
  if (r.failed_oom)
  {
    SIM_CHECK(r.got.value || r.got == outcome::err(x_badalloc) || r.got == r.bd.b.out || r.got == r.td.b.out || r.got == outcome::err(77), "oom:outcome", "with() ended with %s, which neither body, teardown nor the allocation failure explains", ONAME(r.got));
    return;
  }
  SIM_CHECK(r.bd.done(), "with:early", "with() completed before its body");
  SIM_CHECK(r.calls == 1, "with:missing", "with() completed but its teardown ran %d times", r.calls);
  SIM_CHECK(r.td.done(), "with:early", "with() completed before its teardown");
  SIM_CHECK(r.res_destroyed == 1, "with:lifetime", "the resource was destroyed %d times when with() completed", r.res_destroyed);
  outcome want;
  bool te = r.td.done() && !r.td.b.out.value;
  int mod = te ? 0 : r.modify; // a teardown that throws doesn't get to modify
  if (mod == 2) want = outcome::err(77);
  else if (!r.bd.b.out.value && mod != 1) want = r.bd.b.out;
  else if (te) want = r.td.b.out;
  else want = r.bd.b.out.value ? r.bd.b.out : outcome::ok(0);
  // without a value there is nothing to return when the exception was reset
  if (mod == 1 && !r.bd.b.out.value && r.bd.b.id == 2) want = r.bd.b.out;
  SIM_CHECK(r.got == want, "with:outcome", "with() gave %s instead of %s", ONAME(r.got), ONAME(want));
}

template<bkind B, typename T, dkind D> auto make_with(with_run & r)
{
  if constexpr (D == dkind::exit) return cobalt::with(resource(r), fn<B, T>(r));
  else if constexpr (D == dkind::prom) return cobalt::with(resource(r), fn<B, T>(r), dn_val_prom(r));
  else if constexpr (D == dkind::task) return cobalt::with(resource(r), fn<B, T>(r), dn_val_task(r));
  else if constexpr (D == dkind::prom_ref) return cobalt::with(resource(r), fn<B, T>(r), dn_ref_prom(r));
  else return cobalt::with(resource(r), fn<B, T>(r), dn_ref_task(r));
}
template<bkind B, typename T, dkind D> proc with_actor(actor & a, with_run & r) { USE_WITH((make_with<B, T, D>(r))) }
template<bkind B, typename T, dkind D> cobalt::promise<void> with_promise(with_run & r) { USE_WITH((make_with<B, T, D>(r))) }

struct wtable { void (*act)(actor &, with_run &); cobalt::promise<void> (*prm)(with_run &); bool value, sync, mod; void (*drop)(with_run &); };
template<bkind B, typename T, dkind D> wtable E()
{
  return {+[](actor & a, with_run & r) { with_actor<B, T, D>(a, r); }, &with_promise<B, T, D>, !std::is_void_v<T>, B == bkind::sync, D == dkind::prom_ref || D == dkind::task_ref,
          +[](with_run & r) { auto w = make_with<B, T, D>(r); (void)w; }};
}
proc keep_promise(actor & a, cobalt::promise<void> p)
{
  try { co_await p; } catch (...) {}
}

void with_scenario()
{
  static const wtable tab[] = {
    E<bkind::prom, void, dkind::prom>(), E<bkind::prom, int, dkind::task>(), E<bkind::task, mval, dkind::prom>(), E<bkind::task, void, dkind::exit>(),
    E<bkind::prom, mval, dkind::exit>(), E<bkind::sync, void, dkind::prom>(), E<bkind::sync, int, dkind::task>(), E<bkind::sync, mval, dkind::prom>(),
    E<bkind::prom, void, dkind::prom_ref>(), E<bkind::task, int, dkind::task_ref>(), E<bkind::sync, void, dkind::task_ref>(), E<bkind::sync, int, dkind::prom_ref>(),
  };
  struct one { with_run r; std::unique_ptr<actor> a; const wtable * t; bool prm, drop; };
  std::deque<one> all;
  int n = oom ? 1 : range(1, 2, "withs");
  for (int k = 0; k < n; k++)
  {
    all.emplace_back();
    auto & o = all.back();
    auto & r = o.r;
    o.t = &tab[choose(12, "signature")];
    r.bd.idx = 0; r.td.idx = 1;
    random_body(r.bd.b, o.t->value ? 2 : 1, 3);
    random_body(r.td.b, 3);
    if (o.t->mod) r.modify = choose(3, "modify");
    r.fun.id = 9;
    o.a = std::make_unique<actor>(k);
    o.prm = chance(1, 3, "from-promise");
    o.drop = chance(1, 16, "drop");
    W->add([&o]
    {
      if (o.drop) { fault("never-awaited"); o.t->drop(o.r); }
      else if (o.prm) { o.r.begun = true; keep_promise(*o.a, o.t->prm(o.r)); }
      else o.t->act(*o.a, o.r);
    });
    if (cancels)
      for (int i = range(1, 2, "ncancel"); i > 0; i--)
        W->add([&o]
        {
          auto & r = o.r;
          if (!r.begun || r.finished) return;
          child & c = r.calls ? r.td : r.bd;
          if (!c.pending_external()) return;
          static const asio::cancellation_type cs[] = {asio::cancellation_type::all, asio::cancellation_type::terminal, asio::cancellation_type::partial, asio::cancellation_type::total};
          auto ct = cs[choose(4, "ct")];
          auto l = c.logs.back();
          if (l->n_cancels) return;
          fault("cancel-caller");
          ev("cancel %u", (unsigned)ct);
          o.a->sig.emit(ct);
          SIM_CHECK(l->n_cancels == 1 && l->cancels == (ct & asio::cancellation_type(7)), "with:cancel", "cancellation %u of the coroutine awaiting with() reached the running %s %d times as %u", (unsigned)ct, r.calls ? "teardown" : "body", l->n_cancels, (unsigned)l->cancels);
        }, true);
  }
  if (early)
  {
    int steps = range(0, 20, "steps");
    while (steps-- > 0 && W->step_once());
    fault("destroy-context");
  }
  else
  {
    W->run();
    for (auto & o : all)
      if (!o.drop && !(o.prm && L->failed)) SIM_CHECK(o.r.finished, "with:hang", "with() never completed");
  }
  delete W; W = nullptr;
  bool esc = false;
  for (auto & o : all)
  {
    SIM_CHECK(o.a->finished || o.a->destroyed || !o.a->started, "memory:leak", "the coroutine awaiting with() leaked");
    for (auto * c : {&o.r.bd, &o.r.td})
      if (c->b.ended && !c->b.out.value && c->b.live) esc = true;
      else SIM_CHECK(c->b.live == 0, "memory:leak", "state of the %s not destroyed (%ld objects left)", c == &o.r.bd ? "body" : "teardown", c->b.live);
    SIM_CHECK(o.r.fun.live == 0, "memory:leak", "functors or resource of with() not destroyed (%ld left)", o.r.fun.live);
  }
  if (!esc) SIM_CHECK(L->live.empty(), "memory:leak", "%zu allocation(s) never returned", L->live.size());
  SIM_CHECK(mval::live == 0, "memory:leak", "%ld values never destroyed", mval::live);
}
}

void sim_main()
{
  bool faults = !chance(1, 4, "fault-free");
  cancels = faults && chance(1, 2);
  early = chance(1, 4, "early");
  bool both = owns("group:") == owns("with:");
  bool g = both ? chance(1, 2, "group?") : owns("group:");
  oom = owns("oom:") && !g && chance(2, 3, "oom");
  ledger led("thread default");
  L = &led;
  cobalt::this_thread::set_default_resource(&led);
  cobalt::pmr::memory_resource * prev = boost::cobalt::pmr::set_default_resource(&led); // tasks
  W = new world;
  W->on_exception = [](std::exception_ptr e) { ev("escaped %s", xname(classify(e))); };
  if (g) group_scenario(); else with_scenario();
  boost::cobalt::pmr::set_default_resource(prev);
  cobalt::this_thread::set_default_resource(boost::cobalt::pmr::get_default_resource());
}
