// P17 P19 (and P26): coroutines of every kind that are given executors and allocators in
// any position of their argument lists, as functions, members and lambdas: where they run
// and where their memory comes from, with allocation failures and early destruction.
#include "../sim/coro.hpp"
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/generator.hpp>
#include <boost/cobalt/detached.hpp>
#include <boost/cobalt/spawn.hpp>
#include <boost/cobalt/this_coro.hpp>
#include <boost/asio/strand.hpp>
#include <deque>
using namespace sim;
const char * const sim_harness_name = "frames";
const char * sim_class_owner(const char * c)
{
  std::string s(c);
  if (s.rfind("exec:", 0) == 0) return "P19";
  if (s.rfind("detached:", 0) == 0) return "P26";
  return "P17";
}
namespace
{
using strand = asio::strand<asio::io_context::executor_type>;
enum class kind { promise_, task_, generator_, detached_ };
const char * const kname[] = {"promise", "task", "generator", "detached"};
const char * const vname[] = {"f,h", "f,h,E,cobalt", "E,ioc,f,h", "A,al,f,h", "f,h,A,al", "E,strand,f,A,al,h", "A,al,E,cobalt,f,h", "f,E,strand&,h,A,al&"};
bool has_exec(int v) { return v == 1 || v == 2 || v >= 5; }
bool has_alloc(int v) { return v >= 3; }

std::vector<ledger *> leds; // the thread's default, the global default, two given to coroutines
struct fr // one coroutine
{
  body b;
  kind k; int variant = 0, form = 0;
  int ctx = 0; int str = -1; // its context, and strand
  int led = 0;
  bool real = false;    // it has really been suspended
  bool spawned = false;
  std::vector<std::uint64_t> before;
  int depth = 0;
  cobalt::executor exec() const;
  void memory(const char * when)
  {
    for (int i = 0; i < (int)leds.size(); i++)
      SIM_CHECK(leds[i]->allocs == before[i] + (i == led), "memory:selected", "%s %d (%s): %lld allocation(s) from %s %s, %d expected", kname[(int)k], b.id, vname[variant], (long long)(leds[i]->allocs - before[i]), leds[i]->name, when, i == led);
  }
  void snap() { before.clear(); for (auto l : leds) before.push_back(l->allocs); }
};
std::deque<fr> all;
std::vector<strand> strands;
int n_ctx;
bool oom_on;
cobalt::executor fr::exec() const { if (str >= 0) return strands[str]; return W->exec(ctx); }

template<class A, class ... B> fr & pick_(A & a, B & ... b)
{
  if constexpr (std::is_same_v<std::remove_const_t<A>, fr *>) return *a;
  else return pick_(b...);
}
void here(fr & f, const char * what)
{
  SIM_CHECK(W->running == f.ctx, "exec:wrong-context", "%s %d (%s) resumed from %s on context %d instead of %d", kname[(int)f.k], f.b.id, vname[f.variant], what, W->running, f.ctx);
  if (f.str >= 0) SIM_CHECK(strands[f.str].running_in_this_thread(), "exec:strand", "%s %d (%s) resumed from %s outside of its strand", kname[(int)f.k], f.b.id, vname[f.variant], what);
}
template<class R> constexpr bool is_det = std::is_same_v<R, cobalt::detached>;
template<class R> constexpr bool is_gen = std::is_same_v<R, cobalt::generator<int>>;
template<class R> using wrapped = std::conditional_t<is_det<R>, int, R>;
fr & child(kind k, fr & parent);
template<class R> std::optional<wrapped<R>> make(fr & f);

void starts(fr & f, cobalt::executor ex, cobalt::pmr::memory_resource * r)
{
  SIM_CHECK(ex == f.exec(), f.k == kind::detached_ ? "detached:this-coro" : "exec:this-coro", "%s %d (%s): this_coro::executor is not the executor it is bound to", kname[(int)f.k], f.b.id, vname[f.variant]);
  SIM_CHECK(r == leds[f.led], f.k == kind::detached_ ? "detached:this-coro" : "memory:this-coro", "%s %d (%s): this_coro::allocator is not the one it was given", kname[(int)f.k], f.b.id, vname[f.variant]);
}
void child_ended(fr & f, fr & c, std::exception_ptr e, int v, bool moved)
{
  SIM_CHECK(c.b.ended == 1, "memory:outcome", "awaited %s %d did not end", kname[(int)c.k], c.b.id);
  SIM_CHECK(c.b.throws ? classify(e) == 1000 + c.b.id : !e && v == c.b.id, "memory:outcome", "awaited %s %d gave %s/%d", kname[(int)c.k], c.b.id, xname(classify(e)), v);
  if (moved) here(f, "a coroutine");
}

#define BODY(...)                                                                                  \
  fr & f = pick_(__VA_ARGS__);                                                                     \
  f.b.started++;                                                                                   \
  if (f.k != kind::task_) f.memory("when it starts");                                              \
  held local(f.b);                                                                                 \
  ev("%s %d (%s) starts", kname[(int)f.k], f.b.id, vname[f.variant]);                              \
  if (f.spawned) here(f, "its start");                                                             \
  { auto ex = co_await cobalt::this_coro::executor; auto al = co_await cobalt::this_coro::allocator; starts(f, ex, al.resource()); } \
  co_await cobalt::this_coro::throw_if_cancelled(false); /* dropping a generator cancels it */     \
  for (int i = 0; i < f.b.nsteps; i++)                                                             \
  {                                                                                                \
    int what = f.depth < 2 ? (int)choose(6, "step") : 0;                                           \
    if (what < 3)                                                                                  \
    {                                                                                              \
      auto sc = random_script(i, true);                                                            \
      sc.ctx = (int)choose(n_ctx, "opctx");                                                        \
      sim_op o(sc);                                                                                \
      auto [ec, v] = co_await cobalt::as_tuple(o);                                                 \
      SIM_CHECK(ec == asio::error::operation_aborted || (ec == sc.ec && (ec || v == sc.value)), "memory:outcome", "operation gave something else"); \
      if (sc.mode == op_mode::external || sc.mode == op_mode::posted) { f.real = true; here(f, "an operation"); } \
    }                                                                                              \
    else if (what == 3)                                                                            \
    {                                                                                              \
      fr & c = child(kind::promise_, f);                                                           \
      auto p = make<cobalt::promise<int>>(c);                                                      \
      if (p)                                                                                       \
      {                                                                                            \
        bool wait = !p->ready();                                                                   \
        auto [e, v] = co_await cobalt::as_tuple(std::move(*p));                                    \
        child_ended(f, c, e, v, wait);                                                             \
        f.real = f.real || wait;                                                                   \
      }                                                                                            \
    }                                                                                              \
    else if (what == 4)                                                                            \
    {                                                                                              \
      fr & c = child(kind::task_, f);                                                              \
      auto p = make<cobalt::task<int>>(c);                                                         \
      if (p)                                                                                       \
      {                                                                                            \
        auto [e, v] = co_await cobalt::as_tuple(std::move(*p));                                    \
        child_ended(f, c, e, v, c.real);                                                           \
        f.real = f.real || c.real;                                                                 \
      }                                                                                            \
    }                                                                                              \
    else                                                                                           \
    {                                                                                              \
      fr & c = child(kind::generator_, f);                                                         \
      auto g = make<cobalt::generator<int>>(c);                                                    \
      int most = (int)choose(5, "most");                                                           \
      for (int n = 0; g && *g && n < most; n++)                                                    \
      {                                                                                            \
        bool wait = !g->ready();                                                                   \
        auto [e, v] = co_await cobalt::as_tuple(*g);                                               \
        if (n < c.b.nsteps) SIM_CHECK(!e && v == n, "memory:outcome", "generator %d gave %s/%d instead of %d", c.b.id, xname(classify(e)), v, n); \
        else child_ended(f, c, e, v, wait);                                                        \
        if (wait && c.real) { here(f, "a generator"); f.real = true; }                             \
      }                                                                                            \
      if (g && !c.b.ended) c.b.dropped = true;                                                     \
    }                                                                                              \
    if constexpr (is_gen<R>) { co_yield i; }                                                       \
  }                                                                                                \
  f.b.ended++;                                                                                     \
  ev("%s %d ends", kname[(int)f.k], f.b.id);                                                       \
  if (f.b.throws && !f.b.dropped) throw boom{1000 + f.b.id};                                                       \
  if constexpr (!is_det<R>) co_return f.b.id;

template<class R, class ... A> R co(A ... a) { BODY(a...) }
struct object
{
  int x = 1;
  template<class R, class ... A> R mem(A ... a) { BODY(a...) }
};
object obj;

template<class R, class ... A> R call(fr & f, A && ... a)
{
  switch (f.form)
  {
    case 0: return co<R, std::remove_cvref_t<A>...>(std::forward<A>(a)...);
    case 1: return co<R, A...>(std::forward<A>(a)...); // references for lvalues
    case 2: return obj.mem<R, std::remove_cvref_t<A>...>(std::forward<A>(a)...);
    default:
    {
      static auto l = []<class ... B>(B ... a) -> R { BODY(a...) };
      return l(std::forward<A>(a)...);
    }
  }
}
strand & any_strand(fr & f) { return strands[f.str < 0 ? 0 : f.str]; }
template<class R> R dispatch(fr & f)
{
  cobalt::pmr::polymorphic_allocator<void> al(leds[has_alloc(f.variant) ? f.led : 2]);
  cobalt::pmr::polymorphic_allocator<char> alc(leds[has_alloc(f.variant) ? f.led : 2]);
  const auto & cal = al;
  fr * p = &f;
  const auto E = asio::executor_arg;
  const auto A = std::allocator_arg;
  cobalt::executor ex = f.exec();
  switch (f.variant)
  {
    case 0: return call<R>(f, +p, held(f.b));
    case 1: return call<R>(f, +p, held(f.b), asio::executor_arg_t(), cobalt::executor(ex));
    case 2: return call<R>(f, asio::executor_arg_t(), W->context(f.ctx).get_executor(), +p, held(f.b));
    case 3: return call<R>(f, A, al, +p, held(f.b));
    case 4: return call<R>(f, +p, held(f.b), std::allocator_arg_t(), std::move(alc));
    case 5: return call<R>(f, E, strand(any_strand(f)), +p, std::allocator_arg_t(), cobalt::pmr::polymorphic_allocator<void>(al), held(f.b));
    case 6: return call<R>(f, std::allocator_arg_t(), cal, asio::executor_arg_t(), cobalt::executor(ex), +p, held(f.b));
    default: return call<R>(f, +p, E, any_strand(f), held(f.b), A, cal);
  }
}
template<class R> std::optional<wrapped<R>> make(fr & f)
{
  bool oom = oom_on && chance(1, 4, "oom");
  if (oom) leds[f.led]->fail_at = (std::int64_t)leds[f.led]->allocs;
  bool threw = false;
  std::optional<wrapped<R>> r;
  f.snap();
  ev("making %s %d (%s) form %d ctx %d strand %d", kname[(int)f.k], f.b.id, vname[f.variant], f.form, f.ctx, f.str);
  try { if constexpr (is_det<R>) { dispatch<R>(f); r = 1; } else r.emplace(dispatch<R>(f)); }
  catch (std::bad_alloc &) { threw = true; }
  for (int i = 0; i < (int)leds.size(); i++) { leds[i]->fail_at = -1; leds[i]->failed = false; }
  if (oom) SIM_CHECK(threw && f.b.started == 0 && f.b.live == 0, "oom:half-started", "creating %s %d with failing allocation: threw %d, started %d, parameters left %ld", kname[(int)f.k], f.b.id, threw, f.b.started, f.b.live);
  else
  {
    SIM_CHECK(!threw, "oom:spurious", "bad_alloc although no allocation failed");
    if (f.k == kind::task_) { f.memory("when it is created"); SIM_CHECK(!f.b.started, "exec:early", "task %d started when created", f.b.id); }
    else SIM_CHECK(f.b.started == 1, is_det<R> ? "detached:start" : "exec:start", "%s %d was not started by the call", kname[(int)f.k], f.b.id);
  }
  if (oom) { f.b.ended = 1; f.b.dropped = true; }
  return r;
}

fr & plan(kind k, int depth)
{
  all.emplace_back();
  fr & f = all.back();
  f.k = k;
  f.depth = depth;
  random_body(f.b, (int)all.size(), 3);
  f.form = (int)choose(4, "form");
  return f;
}
void settle(fr & f) { f.led = has_alloc(f.variant) ? 2 + (int)choose(2, "led") : f.k == kind::task_ ? 1 : 0; }
fr & child(kind k, fr & p)
{
  fr & f = plan(k, p.depth + 1);
  f.ctx = p.ctx; f.str = p.str;
  static const int on_strand[] = {1, 5, 6, 7}, at_home[] = {0, 1, 2, 3, 4, 6}, elsewhere[] = {1, 2, 6};
  if (k == kind::task_) f.variant = (int)choose(8, "variant"); // it follows its awaiter whatever it's given
  else if (p.str >= 0) f.variant = on_strand[choose(4, "variant")];
  else if (p.ctx == 0) f.variant = at_home[choose(6, "variant")];
  else f.variant = elsewhere[choose(3, "variant")];
  settle(f);
  return f;
}
fr & root(kind k)
{
  fr & f = plan(k, 0);
  f.variant = (int)choose(8, "variant");
  f.ctx = has_exec(f.variant) || k == kind::task_ ? (int)choose(n_ctx, "rctx") : 0;
  if (k == kind::task_ ? chance(1, 3, "onstrand") : f.variant == 5 || f.variant == 7 || ((f.variant == 1 || f.variant == 6) && chance(1, 2, "onstrand"))) f.str = 2 * f.ctx + (int)choose(2, "strand");
  if (k != kind::task_) f.b.throws = false;
  settle(f);
  return f;
}
} // namespace

void sim_main()
{
  ledger l0("the thread's default"), l1("the global default"), l2("resource 2"), l3("resource 3");
  leds = {&l0, &l1, &l2, &l3};
  auto wp = std::make_unique<world>();
  W = wp.get();
  cobalt::this_thread::set_default_resource(&l0);
  auto * old = cobalt::pmr::set_default_resource(&l1);
  n_ctx = range(1, 3, "contexts");
  for (int i = 1; i < n_ctx; i++) W->add_context();
  for (int i = 0; i < n_ctx; i++) for (int k = 0; k < 2; k++) strands.emplace_back(asio::make_strand(W->context(i).get_executor()));
  bool faults = !chance(1, 4, "fault-free");
  oom_on = faults && owns("oom:") && chance(1, 2, "ooms");

  for (int n = range(1, 4, "roots"); n > 0; n--)
  {
    static const kind ks[] = {kind::promise_, kind::task_, kind::detached_};
    kind k = ks[choose(3, "kind")];
    fr & f = root(k);
    W->add([&f, k]
    {
      if (k == kind::promise_) { auto p = make<cobalt::promise<int>>(f); if (p) +std::move(*p); }
      else if (k == kind::detached_) make<cobalt::detached>(f);
      else
      {
        auto t = make<cobalt::task<int>>(f);
        if (!t) return;
        f.spawned = true;
        cobalt::spawn(f.exec(), std::move(*t), [&f](std::exception_ptr e, int v)
        {
          here(f, "its end");
          SIM_CHECK(f.b.throws ? classify(e) == 1000 + f.b.id : !e && v == f.b.id, "memory:outcome", "spawned task %d gave %s/%d", f.b.id, xname(classify(e)), v);
        });
      }
    }, false, (int)choose(n_ctx, "from"));
  }
  bool early = faults && chance(1, 4, "early");
  if (early)
  {
    int steps = range(0, 60, "steps");
    while (steps-- > 0 && W->step_once());
    fault("destroy-context");
  }
  else
  {
    W->run();
    for (auto & f : all)
      SIM_CHECK(f.b.ended == 1 || f.b.dropped, "memory:outcome", "%s %d never ended", kname[(int)f.k], f.b.id);
  }
  strands.clear();
  W->guard.reset();
  wp.reset();
  for (auto & f : all) SIM_CHECK(f.b.live == 0, "memory:leak", "state of %s %d not destroyed (%ld objects left)", kname[(int)f.k], f.b.id, f.b.live);
  for (auto l : leds) SIM_CHECK(l->live.empty(), "memory:leak", "%zu allocation(s) from %s never returned", l->live.size(), l->name);
  cobalt::this_thread::set_default_resource(old);
  cobalt::pmr::set_default_resource(old);
  W = nullptr;
}
