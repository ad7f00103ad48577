// P12: cancellation through chains of coroutines and combinators, and the filters on the way.
#include "../sim/coro.hpp"
#include <boost/cobalt/detached.hpp>
#include <boost/cobalt/gather.hpp>
#include <boost/cobalt/generator.hpp>
#include <boost/cobalt/join.hpp>
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/spawn.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/this_coro.hpp>
#include <boost/cobalt/with.hpp>
#include <boost/asio/bind_cancellation_slot.hpp>
#include <boost/asio/deferred.hpp>
using namespace sim;

const char * const sim_harness_name = "cancel";
const char * sim_class_owner(const char * c)
{
  std::string s = c;
  if (s.rfind("memory:", 0) == 0) return "P17";
  return "";
}

namespace
{
using ctype = asio::cancellation_type;
using mask = std::uint32_t;

// ---- the model ------------------------------------------------------------------
struct frame;
struct target // something a coroutine awaits
{
  std::shared_ptr<op_log> log; // an operation
  frame * child = nullptr;     // or a coroutine
  bool deaf = false;           // an operation that can't be cancelled
  mask expect = 0; int nexpect = 0;
  bool loose = false;
};
struct frame
{
  int id; const char * kind; int depth;
  mask in = 7, out = 7, cancelled = 0;
  bool thr = true;
  bool started = false, ended = false, gone = false;
  bool yielded = false;            // a generator that has a value for its awaiter
  bool loose = false;              // a combinator may cancel it on its own account
  std::uint64_t combining = 0;     // when it began to await a combinator
  std::vector<std::shared_ptr<target>> awaiting;
};
std::vector<std::unique_ptr<frame>> frames;
std::vector<std::shared_ptr<target>> targets;
bool all_loose; // the roots are being destroyed

frame * add_frame(const char * kind, int depth)
{
  frames.push_back(std::make_unique<frame>());
  auto * f = frames.back().get();
  f->id = (int)frames.size(); f->kind = kind; f->depth = depth;
  return f;
}
std::uint64_t epoch = 1;
void loosen(frame * f);
void loosen(std::vector<std::shared_ptr<target>> & ts) { for (auto & t : ts) { t->loose = true; if (t->child) loosen(t->child); } }
void loosen(frame * f) { f->loose = true; loosen(f->awaiting); }

// races and joins: as soon as one argument is done they may cancel the others
std::vector<std::vector<std::shared_ptr<target>> *> groups;
struct in_group
{
  std::vector<std::shared_ptr<target>> * g;
  explicit in_group(std::vector<std::shared_ptr<target>> * g) : g(g) { if (g) groups.push_back(g); }
  in_group(const in_group &) = delete;
  ~in_group() { if (g) std::erase(groups, g); }
};
void update_groups()
{
  for (auto * g : groups)
  {
    bool done = false;
    for (auto & t : *g) done = done || (t->child ? t->child->ended || t->child->gone || t->child->yielded : t->log->completed);
    if (done) loosen(*g);
  }
  for (auto & f : frames) if (f->loose && !f->gone) loosen(f->awaiting);
}

void deliver(frame * f, mask ct);
void deliver(target & t, mask ct)
{
  if (t.child) { if (!t.child->yielded) deliver(t.child, ct); }
  else if (t.log->initiated && !t.log->completed && !t.deaf) { t.expect |= ct; t.nexpect++; }
}
void deliver(frame * f, mask ct)
{
  if (!f->started || f->ended || f->gone) return;
  f->cancelled = ct & f->in;
  // a combinator that's still starting its arguments isn't reached yet
  if (f->combining == epoch && !f->awaiting.empty()) { loosen(f->awaiting); return; }
  if (mask o = f->cancelled & f->out) for (auto & t : f->awaiting) deliver(*t, o);
}
mask got(target & t) { return (mask)t.log->cancels; }
void check_targets(const char * when)
{
  update_groups();
  for (auto & t : targets)
  {
    if (!t->log || t->loose || all_loose) continue;
    SIM_CHECK(t->log->n_cancels == t->nexpect && got(*t) == t->expect, t->nexpect > t->log->n_cancels ? "cancel:lost" : t->nexpect < t->log->n_cancels ? "cancel:spurious" : "cancel:filter",
              "%s: the operation was cancelled %d time(s) with type %x, %d time(s) with %x expected", when, t->log->n_cancels, got(*t), t->nexpect, t->expect);
  }
}

// ---- who cancels --------------------------------------------------------------
struct root
{
  std::function<void(ctype)> emit;
  std::vector<std::shared_ptr<target>> * direct = nullptr; // awaited without a filter
  frame * f = nullptr;
  bool needs_handler = false;
  bool dead = false;
};
std::vector<std::shared_ptr<root>> roots;
int emissions_left;

void emit(std::shared_ptr<root> r, const char * from)
{
  if (r->dead || emissions_left <= 0) return;
  emissions_left--;
  static const ctype cts[] = {ctype::terminal, ctype::partial, ctype::total, ctype::all, ctype::terminal | ctype::total, ctype::partial | ctype::total};
  ctype ct = cts[choose(6, "ct")];
  ev("%s cancels root %s with %x", from, r->f ? r->f->kind : "actor", (mask)ct);
  fault("cancel");
  check_targets("before a cancellation");
  if (r->f) deliver(r->f, (mask)ct); else for (auto & t : *r->direct) deliver(*t, (mask)ct);
  r->emit(ct);
  check_targets("after a cancellation");
}
void emit_some(const char * from) { if (!roots.empty()) emit(roots[choose((std::uint32_t)roots.size(), "root")], from); }

// ---- what they do ---------------------------------------------------------------
struct filter { mask m; ctype operator()(ctype c) const { return static_cast<ctype>(static_cast<mask>(c) & m); } };

std::shared_ptr<target> leaf(frame * f, op_script & sc)
{
  auto t = std::make_shared<target>();
  t->loose = f->loose;
  sc = random_script(range(0, 99, "v"), true);
  t->log = std::make_shared<op_log>();
  t->deaf = sc.mode != op_mode::external;
  targets.push_back(t);
  return t;
}
sim_op make_op(op_script sc, std::shared_ptr<target> t) { sim_op o(sc); o.log = t->log; return o; }
auto make_deferred(op_script sc, std::shared_ptr<target> t)
{
  return asio::async_initiate<const asio::deferred_t, void(error_code, int)>([sc](auto h, std::shared_ptr<op_log> l) { start_op(std::move(h), sc, l); }, asio::deferred, t->log);
}
std::shared_ptr<target> link_child(frame * c) { auto t = std::make_shared<target>(); t->child = c; targets.push_back(t); return t; }
int total_frames() { return (int)frames.size(); }

template<typename T> T body(frame * f);

struct on_end
{
  frame * f;
  ~on_end() { if (f) f->gone = true; }
};
// the promise or generator object went away: what still runs is cancelled behind the scenes
struct owns
{
  frame * f;
  ~owns() { if (f && !f->ended) loosen(f); }
};
bool group_is_loose(std::vector<std::shared_ptr<target>> & ts)
{
  for (auto & t : ts) if (t->child ? t->child->ended || t->child->yielded : t->deaf) return true;
  return false;
}
struct seen { bool aborted = false, other = false; };
seen classify_now(std::exception_ptr e)
{
  if (!e) return {};
  return classify(e) == x_abort ? seen{true, false} : seen{false, true};
}
// awaits; what came out is of no interest unless it's the exception thrown because of a cancellation
#define AWAIT(result, expr) \
  try { \
    switch (choose(3, "form")) { \
      case 0: (void)co_await (expr); break; \
      case 1: (void)co_await cobalt::as_tuple(expr); break; \
      default: (void)co_await cobalt::as_result(expr); break; } } \
  catch (...) { result = classify_now(std::current_exception()); }

// checks that an await was refused exactly if it had to be
void refused(frame * f, bool threw, bool expected, bool before_loose, const char * what)
{
  if (before_loose || f->loose || all_loose) return;
  SIM_CHECK(threw == expected, threw ? "cancel:refused" : "cancel:admitted", "coroutine %d (%s): awaiting %s %s, its state is %x, throw_if_cancelled %d", f->id, f->kind, what,
            threw ? "threw operation_aborted" : "went ahead", f->cancelled, (int)f->thr);
}
void check_state(frame * f, ctype c, const char * how)
{
  if (f->loose || all_loose) return;
  SIM_CHECK((mask)c == f->cancelled, "cancel:state", "coroutine %d (%s): %s says %x, %x expected", f->id, f->kind, how, (mask)c, f->cancelled);
}
bool must_throw(frame * f) { return f->thr && f->cancelled != 0; }
bool started_any(std::vector<std::shared_ptr<target>> & ts)
{
  for (auto & t : ts) if (t->child ? t->child->started : t->log->initiated || t->log->readies > 0) return true;
  return false;
}

struct plainres { int x = 0; };

template<typename T>
T body(frame * f)
{
  on_end oe{f};
  f->started = true;
  constexpr bool is_gen = std::is_same_v<T, cobalt::generator<int>>;
  ev("%s %d starts", f->kind, f->id);
  int n = range(1, 4, "steps");
  bool throws = chance(1, 6, "throws");
  if constexpr (std::is_same_v<T, cobalt::detached>)
  {
    throws = false;
  }
  for (int i = 0; i < n; i++)
  {
    switch (choose(13, "step"))
    {
      case 0: check_state(f, co_await cobalt::this_coro::cancelled, "this_coro::cancelled"); break;
      case 1:
      {
        auto st = co_await cobalt::this_coro::cancellation_state;
        check_state(f, st.cancelled(), "this_coro::cancellation_state");
        if (chance(1, 2, "clear")) { st.clear(); f->cancelled = 0; ev("%d clears its state", f->id); }
        break;
      }
      case 2:
        switch (choose(3, "reset"))
        {
          case 0: co_await cobalt::this_coro::reset_cancellation_state(); f->in = f->out = 7; break;
          case 1: { mask m = choose(9, "m"); if (m == 8) m = ~0u; co_await cobalt::this_coro::reset_cancellation_state(filter{m}); f->in = f->out = m; break; }
          default: { mask m = choose(9, "m"), k = choose(9, "k"); if (m == 8) m = ~0u; if (k == 8) k = ~0u; co_await cobalt::this_coro::reset_cancellation_state(filter{m}, filter{k}); f->in = m; f->out = k; break; }
        }
        f->cancelled = 0;
        ev("%d resets its filters to %x %x", f->id, f->in, f->out);
        break;
      case 3:
      {
        SIM_CHECK(co_await cobalt::this_coro::throw_if_cancelled() == f->thr, "cancel:throw-setting", "coroutine %d: throw_if_cancelled lost its setting", f->id);
        bool b = chance(1, 3, "thr");
        co_await cobalt::this_coro::throw_if_cancelled(b);
        f->thr = b;
        SIM_CHECK(co_await cobalt::this_coro::throw_if_cancelled() == f->thr, "cancel:throw-setting", "coroutine %d: throw_if_cancelled ignores what was set", f->id);
        break;
      }
      case 4: emit_some("a running coroutine"); break;
      case 5: case 6: // one operation
      {
        op_script sc; auto t = leaf(f, sc);
        std::vector<std::shared_ptr<target>> ts{t};
        bool expect = must_throw(f), bl = f->loose;
        seen s;
        ev("%d awaits an operation", f->id);
        f->awaiting = ts;
        if (chance(1, 3, "deferred")) { try { (void)co_await make_deferred(sc, t); } catch (...) { s = classify_now(std::current_exception()); } }
        else { auto op = make_op(sc, t); AWAIT(s, op); }
        f->awaiting.clear();
        refused(f, s.aborted && !started_any(ts), expect, bl, "an operation");
        if (!started_any(ts)) SIM_CHECK(s.aborted, "cancel:skipped", "the operation never started");
        break;
      }
      case 7: case 8: // one coroutine
      {
        if (f->depth >= 4 || total_frames() > 14) break;
        seen s;
        int kind = (int)choose(4, "child");
        static const char * const kinds[] = {"promise", "task", "generator", "with"};
        auto * c = add_frame(kinds[kind], f->depth + 1);
        c->loose = f->loose;
        auto t = link_child(c);
        std::vector<std::shared_ptr<target>> ts{t};
        owns own{c};
        bool threw = false, expect, bl;
        switch (kind)
        {
          case 0:
          {
            auto p = body<cobalt::promise<int>>(c);
            std::shared_ptr<root> r;
            if (chance(1, 3, "direct"))
            {
              r = std::make_shared<root>(); r->f = c; r->emit = [&p](ctype ct) { p.cancel(ct); };
              roots.push_back(r);
              int times = range(1, 2, "times");
              for (int k = 0; k < times; k++) W->add([r] { if (!r->dead) emit(r, "the owner"); }, chance(1, 2, "direct event"));
            }
            struct bury { std::shared_ptr<root> r; ~bury() { if (r) { r->dead = true; r->emit = nullptr; std::erase(roots, r); } } } bu{r};
            if (chance(1, 4, "later")) { op_script sc; auto l = leaf(f, sc); std::vector<std::shared_ptr<target>> ls{l}; bool e2 = must_throw(f), b2 = f->loose; f->awaiting = ls; auto op = make_op(sc, l); seen s2; AWAIT(s2, op); f->awaiting.clear(); refused(f, s2.aborted && !started_any(ls), e2, b2, "an operation"); }
            expect = must_throw(f); bl = f->loose;
            f->awaiting = ts;
            AWAIT(s, p);
            threw = s.aborted;
            f->awaiting.clear();
            break;
          }
          case 1:
          {
            auto p = body<cobalt::task<int>>(c);
            expect = must_throw(f); bl = f->loose;
            f->awaiting = ts;
            AWAIT(s, p);
            threw = s.aborted;
            f->awaiting.clear();
            break;
          }
          case 2:
          {
            auto g = body<cobalt::generator<int>>(c);
            expect = false; bl = f->loose;
            int rounds = range(1, 4, "rounds");
            while (rounds-- > 0 && g)
            {
              expect = must_throw(f); bl = f->loose;
              s = {};
              f->awaiting = ts;
              c->yielded = false;
              AWAIT(s, g);
              threw = s.aborted;
              f->awaiting.clear();
              if (s.aborted || s.other) break;
              if (rounds) refused(f, false, expect, bl, "a generator");
            }
            break;
          }
          default:
          {
            expect = must_throw(f); bl = f->loose;
            try
            {
              (void)co_await cobalt::with(plainres{}, [f, c, ts](plainres &) -> cobalt::promise<int> { auto p = body<cobalt::promise<int>>(c); f->awaiting = ts; return p; }, [](plainres, std::exception_ptr) -> cobalt::promise<void> { co_return; });
            }
            catch (...) { s = classify_now(std::current_exception()); }
            threw = s.aborted;
            f->awaiting.clear();
          }
        }
        refused(f, threw, expect, bl, kinds[kind]);
        own.f = c;
        break;
      }
      case 9: case 10: case 11: // a combination
      {
        if (f->depth >= 4 || total_frames() > 12) break;
        int comb = (int)choose(3, "comb"); // race, join, gather
        std::vector<std::shared_ptr<target>> ts;
        seen s;
        bool expect, bl;
        op_script s1, s2;
        auto t1 = leaf(f, s1), t2 = leaf(f, s2);
        auto o1 = make_op(s1, t1), o2 = make_op(s2, t2);
        auto * c = add_frame("promise in combination", f->depth + 1);
        auto * d = add_frame("task in combination", f->depth + 1);
        auto * g = add_frame("generator in combination", f->depth + 1);
        c->loose = d->loose = g->loose = f->loose;
        owns own1{c}, own2{d}, own3{g};
        int shape = (int)choose(5, "shape");
        expect = must_throw(f); bl = f->loose;
#define COMB(args...) \
        expect = must_throw(f); bl = f->loose; \
        if (comb < 2 && group_is_loose(ts)) loosen(ts); \
        f->awaiting = ts; f->combining = epoch; \
        in_group ig(comb < 2 ? &ts : nullptr); \
        switch (comb) { \
          case 0: AWAIT(s, cobalt::race(args)); break; \
          case 1: AWAIT(s, cobalt::join(args)); break; \
          default: try { (void)co_await cobalt::gather(args); } catch (...) { s = classify_now(std::current_exception()); } } \
        f->awaiting.clear(); f->combining = 0; for (auto & t : ts) { t->loose = true; if (t->child && !t->child->ended) loosen(t->child); }
        bool was = false;
        switch (shape)
        {
          case 0: ts = {t1, t2}; { COMB(o1, o2) } was = started_any(ts); break;
          case 1: ts = {t1, link_child(c)}; { auto p = body<cobalt::promise<int>>(c); COMB(o1, p) } was = started_any(ts) && (!s.aborted || t1->log->initiated || t1->log->readies); break;
          case 2: ts = {t1, link_child(d), link_child(g)}; { auto tk = body<cobalt::task<int>>(d); auto gn = body<cobalt::generator<int>>(g); COMB(o1, std::move(tk), gn) } was = !s.aborted || t1->log->initiated || t1->log->readies || d->started; break;
          case 3: ts = {link_child(c), link_child(d)}; { std::vector<cobalt::promise<int>> v; v.push_back(body<cobalt::promise<int>>(c)); v.push_back(body<cobalt::promise<int>>(d)); COMB(v) } was = !s.aborted; break;
          default: ts = {t1, t2}; { std::vector<sim_op> v{o1, o2}; COMB(v) } was = started_any(ts); break;
        }
        static const char * const names[] = {"a race", "a join", "a gather"};
        refused(f, s.aborted && !was, expect, bl, names[comb]);
        break;
      }
      case 12:
        if constexpr (is_gen) { f->yielded = true; update_groups(); co_yield i; }
        break;
    }
  }
  ev("%s %d ends", f->kind, f->id);
  f->ended = true;
  update_groups();
  if (throws) throw boom{f->id};
  if constexpr (std::is_same_v<T, cobalt::detached>) co_return;
  else co_return f->id;
}

proc run_actor(actor & a, std::vector<std::shared_ptr<target>> & ts, frame * c, int kind, bool * done)
{
  owns own{c};
  auto t = link_child(c);
  try
  {
    if (kind == 0) { auto p = body<cobalt::promise<int>>(c); ts = {t}; (void)co_await p; }
    else if (kind == 1) { ts = {t}; (void)co_await body<cobalt::task<int>>(c); }
    else { auto g = body<cobalt::generator<int>>(c); while (g) { ts = {t}; c->yielded = false; (void)co_await g; ts.clear(); } }
  }
  catch (...) {}
  ts.clear();
  *done = true;
  (void)a;
}
cobalt::detached run_detached(frame * f, asio::cancellation_slot sl)
{
  co_await cobalt::this_coro::reset_cancellation_source(sl);
  on_end oe{f};
  f->started = true;
  // awaits something else that does the work
  auto * c = add_frame("task of a detached", 1);
  auto t = link_child(c);
  for (int i = 0; i < 2; i++)
  {
    check_state(f, co_await cobalt::this_coro::cancelled, "this_coro::cancelled");
    op_script sc; auto l = leaf(f, sc); std::vector<std::shared_ptr<target>> ls{l};
    auto op = make_op(sc, l); bool e = must_throw(f), bl = f->loose; seen s;
    f->awaiting = ls; AWAIT(s, op); f->awaiting.clear();
    refused(f, s.aborted && !started_any(ls), e, bl, "an operation");
    if (chance(1, 2, "reset")) { co_await cobalt::this_coro::reset_cancellation_state(); f->in = f->out = 7; f->cancelled = 0; }
  }
  f->awaiting = {t};
  try { (void)co_await body<cobalt::task<int>>(c); } catch (...) {}
  f->awaiting.clear();
  check_state(f, co_await cobalt::this_coro::cancelled, "this_coro::cancelled");
  f->ended = true;
}
}

void sim_main()
{
  frames.clear(); targets.clear(); roots.clear(); groups.clear(); all_loose = false;
  emissions_left = range(0, 6, "emissions");
#if !defined(BOOST_COBALT_NO_PMR)
  ledger led("thread default");
  auto * old = cobalt::this_thread::set_default_resource(&led);
#endif
  auto wp = std::make_unique<world>();
  W = wp.get();
  std::vector<std::unique_ptr<actor>> as;
  std::vector<std::unique_ptr<asio::cancellation_signal>> sigs;
  std::vector<std::unique_ptr<std::vector<std::shared_ptr<target>>>> lists;
  std::vector<std::unique_ptr<bool>> dones;
  std::vector<std::unique_ptr<cobalt::promise<int>>> proms;
  int spawned = 0, called = 0;
  int nroots = range(1, 2, "roots");
  for (int i = 0; i < nroots; i++)
  {
    auto r = std::make_shared<root>();
    roots.push_back(r);
    int kind = (int)choose(6, "rootkind");
    switch (kind)
    {
      case 0: case 1: case 2:
      {
        as.push_back(std::make_unique<actor>(i));
        lists.push_back(std::make_unique<std::vector<std::shared_ptr<target>>>());
        dones.push_back(std::make_unique<bool>(false));
        static const char * const kinds[] = {"promise", "task", "generator"};
        auto * c = add_frame(kinds[kind], 0);
        r->direct = lists.back().get();
        auto * a = as.back().get();
        r->emit = [a](ctype ct) { a->sig.emit(ct); };
        auto * d = dones.back().get();
        asio::post(*W->ctx, [a, l = lists.back().get(), c, kind, d] { run_actor(*a, *l, c, kind, d); });
        break;
      }
      case 3:
      {
        sigs.push_back(std::make_unique<asio::cancellation_signal>());
        auto * sg = sigs.back().get();
        auto * c = add_frame("spawned task", 0);
        r->f = c;
        r->emit = [sg](ctype ct) { sg->emit(ct); };
        r->needs_handler = true;
        spawned++;
        asio::post(*W->ctx, [sg, c, &called] { cobalt::spawn(W->exec(), body<cobalt::task<int>>(c), asio::bind_cancellation_slot(sg->slot(), [&called](std::exception_ptr, int) { called++; })); });
        break;
      }
      case 4:
      {
        proms.push_back(nullptr);
        auto * c = add_frame("held promise", 0);
        r->f = c;
        auto k = proms.size() - 1;
        r->emit = [&proms, k](ctype ct) { proms[k]->cancel(ct); };
        r->dead = true;
        asio::post(*W->ctx, [&proms, k, c, r] { struct alive { root & r; ~alive() { r.dead = false; } } al{*r}; proms[k] = std::make_unique<cobalt::promise<int>>(body<cobalt::promise<int>>(c)); });
        break;
      }
      default:
      {
        sigs.push_back(std::make_unique<asio::cancellation_signal>());
        auto * sg = sigs.back().get();
        auto * c = add_frame("detached", 0);
        r->f = c;
        r->emit = [sg](ctype ct) { sg->emit(ct); };
        asio::post(*W->ctx, [sg, c] { run_detached(c, sg->slot()); });
      }
    }
    int n = range(0, 3, "cancels");
    for (int k = 0; k < n; k++) W->add([r] { emit(r, "the outside"); }, !r->needs_handler && chance(1, 2, "direct"));
  }
  W->on_exception = [](std::exception_ptr e) { int c = classify(e); SIM_CHECK(c > 0, "cancel:escaped", "%s left the event loop", xname(c)); };
  W->after_handler = [] { check_targets("after a handler"); epoch++; };
  if (chance(1, 10, "early"))
  {
    int steps = range(0, 40, "steps");
    while (steps-- > 0 && W->step_once());
    fault("destroy-context");
  }
  else
  {
    W->run();
    SIM_CHECK(called == spawned, "cancel:hang", "a spawned task never completed");
    for (auto & d : dones) SIM_CHECK(*d, "cancel:hang", "an awaiting caller never resumed");
    for (auto & f : frames) SIM_CHECK(!f->started || f->ended || f->gone || f->loose, "cancel:hang", "coroutine %d (%s) never ended", f->id, f->kind);
  }
  all_loose = true;
  for (auto & r : roots) r->dead = true;
  W->after_handler = nullptr;
  proms.clear();
  wp.reset();
  as.clear(); sigs.clear(); roots.clear();
#if !defined(BOOST_COBALT_NO_PMR)
  SIM_CHECK(led.live.empty(), "memory:leak", "%zu allocation(s) never returned", led.live.size());
  cobalt::this_thread::set_default_resource(old);
#endif
  frames.clear(); targets.clear();
  W = nullptr;
}
