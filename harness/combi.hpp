#pragma once
// race, left_race, join and gather over promises, tasks, generators and operations, variadic and ranged
// (P07, P08, P09; allocation failures: P17).
#include "../sim/coro.hpp"
#include <boost/cobalt/gather.hpp>
#include <boost/cobalt/generator.hpp>
#include <boost/cobalt/join.hpp>
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/task.hpp>
#include <deque>
#include <list>
using namespace sim;
namespace combi
{
enum class comb { race, left, join, gather };
enum class kind { op, prom, tsk, gen };
inline const char * const comb_names[] = {"race", "left_race", "join", "gather"};
struct setup { bool cancels, oom, instant; comb c; };
inline setup cfg;
inline ledger * L;

struct arm
{
  int idx = 0;
  kind k{};
  bool lval = false;
  bool is_void = false;
  body b;             // all but operations
  op_script sc;       // operations
  std::shared_ptr<op_log> log;
  std::vector<std::shared_ptr<op_log>> logs; // operations awaited by the body
  std::uint64_t done_at = 0, started_at = 0;
  std::uint64_t done_handler = 0;
  bool ready_before = false;   // finished before the combination began
  bool told = false;           // was cancelled while the combination still waited

  bool started() const { return k == kind::op ? log->initiated : b.started > 0; }
  bool done() const { return k == kind::op ? log->completed : b.ended > 0; }
  std::uint64_t when() const { return k == kind::op ? log->done_at : done_at; }
  outcome out() const
  {
    if (k != kind::op) return b.out;
    if (!log->completed) return {};
    if (sc.boom) return outcome::err(sc.boom);
    if (log->ec) return outcome::err(classify_ec(log->ec));
    return outcome::ok(sc.value);
  }
  std::shared_ptr<op_log> current() const
  {
    if (k == kind::op) return log;
    return logs.empty() ? nullptr : logs.back();
  }
  // waits for an operation that only ends by itself or by a cancellation
  bool pending_external() const
  {
    auto l = current();
    return l && l->initiated && !l->completed && l->ext;
  }
  int cancels() const
  {
    if (k == kind::op) return log->n_cancels;
    int n = 0;
    for (auto & l : logs) n += l->n_cancels;
    return n;
  }
};

#define ARM_BODY(a)                                                                               \
  body & b = a.b;                                                                                 \
  b.started++; a.started_at = ++seq;                                                              \
  held local(h);                                                                                  \
  try                                                                                             \
  {                                                                                               \
    for (int i = 0; i < b.nsteps; i++)                                                            \
    {                                                                                             \
      auto sc = random_script(i, true);                                                           \
      sim_op o(sc);                                                                               \
      o.log->ext = sc.mode == op_mode::external;                                                  \
      a.logs.push_back(o.log);                                                                    \
      if (chance(1, 2, "tolerate")) (void)co_await cobalt::as_tuple(o);                           \
      else co_await o;                                                                            \
    }                                                                                             \
    if (b.throws) throw boom{1000 + b.id};                                                        \
  }                                                                                               \
  catch (...)                                                                                     \
  {                                                                                               \
    b.ended++; a.done_at = ++seq; a.done_handler = W->handler_no;                                 \
    b.out = outcome::err(classify(std::current_exception()));                                     \
    ev("arm %d throws %s", a.idx, xname(b.out.code));                                             \
    throw;                                                                                        \
  }                                                                                               \
  b.ended++; a.done_at = ++seq; a.done_handler = W->handler_no;                                   \
  ev("arm %d returns", a.idx);

template<typename T> cobalt::promise<T> prom_arm(arm & a, held h)
{
  ARM_BODY(a)
  b.out = outcome::ok(std::is_void_v<T> ? 0 : b.id);
  if constexpr (!std::is_void_v<T>) co_return make_val<T>(b.id);
}
template<typename T> cobalt::task<T> task_arm(arm & a, held h)
{
  ARM_BODY(a)
  b.out = outcome::ok(std::is_void_v<T> ? 0 : b.id);
  if constexpr (!std::is_void_v<T>) co_return make_val<T>(b.id);
}
// a generator that ends with its first value
template<typename T> cobalt::generator<T> gen_arm(arm & a, held h)
{
  ARM_BODY(a)
  b.out = outcome::ok(b.id);
  co_return make_val<T>(b.id);
}

// how an argument is made and whether it is passed as lvalue
template<kind K, typename T, bool LV> struct spec
{
  static constexpr kind k = K;
  static constexpr bool lval = LV;
  using value = T;
  static auto make(arm & a)
  {
    if constexpr (K == kind::op) { sim_op o(a.sc); a.log = o.log; o.log->ext = a.sc.mode == op_mode::external; return o; }
    else if constexpr (K == kind::prom) return prom_arm<T>(a, held(a.b));
    else if constexpr (K == kind::tsk) return task_arm<T>(a, held(a.b));
    else return gen_arm<T>(a, held(a.b));
  }
};
template<bool LV> using O = spec<kind::op, int, LV>;
template<typename T, bool LV> using Pr = spec<kind::prom, T, LV>;
template<typename T, bool LV> using Ta = spec<kind::tsk, T, LV>;
template<typename T, bool LV> using Ge = spec<kind::gen, T, LV>;

inline void setup_arm(arm & a, int i, kind k, bool lval, bool is_void)
{
  a.idx = i; a.k = k; a.lval = lval; a.is_void = is_void;
  random_body(a.b, i + 1);
  if (!cfg.instant && a.b.nsteps == 0 && chance(3, 4, "slow")) a.b.nsteps = 1;
  if (k == kind::op)
  {
    a.sc = random_script(i + 1, true, !cfg.instant && chance(3, 4, "slow"));
    if (chance(1, 12, "throws")) { a.sc.mode = op_mode::immediate; a.sc.boom = 3000 + i; }
    a.log = std::make_shared<op_log>();
  }
}

// --- the combination under observation ---------------------------------------------
struct observed
{
  comb c{};
  std::deque<arm> arms;
  bool active = false, finished = false;
  bool cancelled = false;              // the caller was cancelled while it waited
  bool ranged = false;
  std::uint64_t begin_seq = 0, begin_handler = 0, end_handler = 0;
  bool oom = false;
  outcome whole;                       // as a whole: error or ok
  int winner = -1;
  std::vector<outcome> parts;
  int n_results = 0;
};

inline const char * cls(const observed & o, const char * what)
{
  static char buf[8][40]; static int i = 0;
  i = (i + 1) % 8;
  std::snprintf(buf[i], 40, "%s:%s", o.c == comb::left ? "race" : comb_names[(int)o.c], what);
  return buf[i];
}

struct urbg
{
  using result_type = std::uint32_t;
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return 0xffffffffu; }
  result_type operator()() { return choose(1u << 16, "shuffle") << 16; }
};

inline void begin(observed & o)
{
  for (auto & a : o.arms)
    a.ready_before = a.k == kind::op ? a.sc.mode == op_mode::ready : a.done();
  o.begin_seq = ++seq;
  o.begin_handler = W->handler_no;
  o.active = true;
  ev("%s%s of %zu begins", o.ranged ? "ranged " : "", comb_names[(int)o.c], o.arms.size());
}

// the first completion seen by the combination: the arms that were started and finished since
inline const arm * first_done(const observed & o, bool only_errors)
{
  const arm * f = nullptr;
  for (auto & a : o.arms)
    if (a.done() && !a.ready_before && (!only_errors || !a.out().value) && (!f || a.when() < f->when())) f = &a;
  return f;
}

// after each handler: cancellation of the arms that have to go
inline void check_running(observed & o)
{
  if (!o.active) return;
  if (o.c == comb::gather)
  {
    if (!o.cancelled)
      for (auto & a : o.arms) SIM_CHECK(a.cancels() == 0, "gather:disturbed", "argument %d of a gather was cancelled", a.idx);
    return;
  }
  bool over = false;
  if (o.c == comb::join) { for (auto & a : o.arms) if (a.done() && a.started() && !a.out().value) over = true; }
  else for (auto & a : o.arms) if (a.done() && (a.k == kind::op || !a.ready_before || a.lval || true)) over = true;
  for (auto & a : o.arms)
  {
    a.told |= a.cancels() > 0;
    // a race may never have awaited an eager argument
    if (over && a.started() && a.pending_external() && !(o.c != comb::join && (a.k == kind::prom || a.k == kind::gen) && (a.lval || !(o.c == comb::left && a.idx == 0))))
      SIM_CHECK(a.cancels() > 0, cls(o, "not-cancelled"), "argument %d keeps running uncancelled after the %s was decided", a.idx, comb_names[(int)o.c]);
    if (!over && !o.cancelled)
      SIM_CHECK(a.cancels() == 0, cls(o, "disturbed"), "argument %d was cancelled although nothing was decided", a.idx);
    if (o.c != comb::join && a.lval && (a.k == kind::prom || a.k == kind::gen) && !o.cancelled)
      SIM_CHECK(a.cancels() == 0, cls(o, "disturbed"), "losing lvalue argument %d was cancelled instead of interrupted", a.idx);
  }
  SIM_CHECK(o.finished || !over || o.c == comb::join || [&]
    {
      for (auto & a : o.arms)
        if (a.started() && !a.done() && !(a.lval && (a.k == kind::prom || a.k == kind::gen))) return true; // may wait for it
      return false;
    }(), cls(o, "late"), "the %s is decided and nothing keeps it, but its caller was not resumed", comb_names[(int)o.c]);
  if (o.c == comb::join || o.c == comb::gather)
  {
    bool all = true;
    for (auto & a : o.arms) if (!a.done()) all = false;
    SIM_CHECK(!all || o.finished, cls(o, "late"), "all arguments are done but the caller was not resumed");
  }
}

inline void ended(observed & o)
{
  o.finished = true;
  o.active = false;
  o.end_handler = W->handler_no;
  o.n_results++;
  SIM_CHECK(o.n_results == 1, cls(o, "twice"), "%s completed %d times", comb_names[(int)o.c], o.n_results);
  ev("%s ends: winner %d %s", comb_names[(int)o.c], o.winner, ONAME(o.whole));
}

inline void check_race(observed & o)
{
  // which argument may have won
  for (auto & a : o.arms)
  {
    if (a.k == kind::op) SIM_CHECK(a.log->readies <= 1, "race:asked-twice", "argument %d was asked %d times whether it is ready", a.idx, a.log->readies);
    bool eager = a.k == kind::prom || a.k == kind::gen;
    if (a.started() && !a.done() && (!eager || (!a.lval && (a.told || (o.c == comb::left && a.idx < o.winner)))))
      SIM_CHECK(false, "race:left-running", "race completed while argument %d was still running", a.idx);
  }
  bool suspended = o.end_handler != o.begin_handler;
  std::vector<arm *> instant; // had a result before or while the race started
  for (auto & a : o.arms)
    if (a.ready_before || (a.done() && a.k == kind::op && a.sc.mode == op_mode::immediate && a.log->init_at > o.begin_seq)) instant.push_back(&a);
  if (o.c == comb::left && o.arms[0].ready_before) SIM_CHECK(!suspended, "race:waits", "left_race suspended although its first argument was ready");
  if (o.whole.value)
  {
    SIM_CHECK(o.winner >= 0 && o.winner < (int)o.arms.size(), "race:index", "race returned index %d of %zu", o.winner, o.arms.size());
    auto & w = o.arms[o.winner];
    SIM_CHECK(w.done(), "race:winner", "argument %d won but has not completed", w.idx);
    SIM_CHECK(w.out() == o.whole, "race:outcome", "race returned %s but argument %d ended with %s", ONAME(o.whole), w.idx, ONAME(w.out()));
  }
  else
  {
    bool any = false;
    for (auto & a : o.arms) if (a.done() && a.out() == o.whole) { any = true; if (o.winner < 0 || a.when() < o.arms[o.winner].when()) o.winner = a.idx; }
    SIM_CHECK(any, "race:outcome", "race threw %s but no argument ended so", ONAME(o.whole));
  }
  // the first one to complete wins
  if (suspended && !o.cancelled && !o.arms[o.winner].ready_before)
  {
    auto f = first_done(o, false);
    auto & w = o.arms[o.winner];
    SIM_CHECK(f && (f == &w || f->out() == o.whole), "race:not-first", "argument %d completed before the winner %d", f ? f->idx : -1, w.idx);
  }
  if (o.c == comb::left && o.whole.value)
  {
    for (auto * i : instant)
      SIM_CHECK(o.winner <= i->idx, "race:left", "left_race returned argument %d although %d was ready", o.winner, i->idx);
    if (!suspended)
      for (auto & a : o.arms)
        if (a.idx > o.winner && (a.k == kind::op || a.k == kind::tsk))
          SIM_CHECK(!a.started(), "race:started", "argument %d was started although %d had the result", a.idx, o.winner);
  }
  // nothing ready is consumed besides the winner
  int consumed = 0;
  for (auto & a : o.arms)
    if (a.k == kind::op && a.sc.mode == op_mode::ready && a.log->readies) consumed++;
  SIM_CHECK(consumed <= 1, "race:consumed", "%d ready arguments were consumed", consumed);
  if (consumed == 1 && !suspended) SIM_CHECK(o.arms[o.winner].ready_before || o.arms[o.winner].done(), "race:consumed", "a ready argument was consumed but did not win");
}

inline void check_all(observed & o)
{
  for (auto & a : o.arms)
  {
    SIM_CHECK(a.done(), cls(o, "early"), "%s completed before argument %d", comb_names[(int)o.c], a.idx);
    if (a.k == kind::op) SIM_CHECK(a.log->readies <= 1, cls(o, "asked-twice"), "argument %d was asked %d times whether it is ready", a.idx, a.log->readies);
  }
  if (o.c == comb::gather)
  {
    SIM_CHECK(o.whole.value, "gather:threw", "gather threw %s", ONAME(o.whole));
    SIM_CHECK(o.parts.size() == o.arms.size(), "gather:size", "gather returned %zu of %zu results", o.parts.size(), o.arms.size());
    for (auto & a : o.arms) SIM_CHECK(o.parts[a.idx] == a.out(), "gather:outcome", "result %d is %s but the argument ended with %s", a.idx, ONAME(o.parts[a.idx]), ONAME(a.out()));
    return;
  }
  bool any_err = false;
  for (auto & a : o.arms) if (!a.out().value) any_err = true;
  if (!any_err)
  {
    SIM_CHECK(o.whole.value, "join:outcome", "join threw %s although all arguments succeeded", ONAME(o.whole));
    if (!o.parts.empty())
      for (auto & a : o.arms) SIM_CHECK(o.parts[a.idx] == a.out(), "join:outcome", "value %d is %s but the argument ended with %s", a.idx, ONAME(o.parts[a.idx]), ONAME(a.out()));
    return;
  }
  SIM_CHECK(!o.whole.value, "join:outcome", "join succeeded although an argument failed");
  // the first exception: arguments that were ready before count when they are looked at, in order
  bool ok = false, pre = false;
  for (auto & a : o.arms) if (a.ready_before && !a.out().value) { pre = true; ok |= a.out() == o.whole; }
  if (auto f = first_done(o, true))
  {
    if (f->out() == o.whole && (!pre || o.end_handler == o.begin_handler)) ok = true;
    // completions during start-up come in argument order, mixed with the ready ones
    if (pre && !ok)
      for (auto & a : o.arms)
        if (!a.out().value && a.out() == o.whole && !a.ready_before) { bool before = false; for (auto & p : o.arms) before |= p.ready_before && !p.out().value && p.idx > a.idx; ok |= before; }
  }
  SIM_CHECK(ok, "join:first", "join threw %s which is not the first exception", ONAME(o.whole));
}

// --- running it -------------------------------------------------------------------
template<typename T> outcome part(const boost::system::result<T, std::exception_ptr> & r)
{
  if (r.has_error()) return outcome::err(classify(r.error()));
  if constexpr (std::is_void_v<T>) return outcome::ok(0);
  else return outcome::ok(id_of(*r));
}
inline int vid(const boost::variant2::monostate &) { return 0; }
template<typename T> int vid(const T & t) { return id_of(t); }

template<typename R> void take_race(observed & o, R && r)
{
  if constexpr (std::is_same_v<std::decay_t<R>, std::size_t>) { o.winner = (int)r; o.whole = outcome::ok(0); }
  else if constexpr (requires { r.second; }) { o.winner = (int)r.first; o.whole = outcome::ok(id_of(r.second)); }
  else { o.winner = (int)r.index(); o.whole = outcome::ok(boost::variant2::visit([](auto & v) { return vid(v); }, r)); }
}
template<typename R> void take_parts(observed & o, R && r)
{
  o.whole = outcome::ok(0);
  if constexpr (requires { r.begin(); }) for (auto & x : r) { if constexpr (requires { x.has_error(); }) o.parts.push_back(part(x)); else o.parts.push_back(outcome::ok(vid(x))); }
  else std::apply([&](auto & ... x) { (o.parts.push_back([&] { if constexpr (requires { x.has_error(); }) return part(x); else return outcome::ok(vid(x)); }()), ...); }, r);
}
template<comb C, typename R> void take(observed & o, R && r)
{
  if constexpr (C == comb::race || C == comb::left) take_race(o, std::forward<R>(r));
  else take_parts(o, std::forward<R>(r));
}

// F makes the combination
#define AWAIT_COMBO(o, C, MAKE)                                                                        \
  {                                                                                                    \
    auto f = random_form();                                                                            \
    begin(o);                                                                                          \
    bool oom = cfg.oom && chance(7, 8, "oom");                                                         \
    if (oom) { L->fail_at = (std::int64_t)L->allocs + choose(4, "oom-at"); }                           \
    try                                                                                                \
    {                                                                                                  \
      bool plain = f == form::plain || C == comb::gather;                                              \
      if (plain)                                                                                       \
      {                                                                                                \
        if constexpr (std::is_void_v<decltype(cobalt::detail::get_awaitable_type(MAKE).await_resume())>)                  \
        { co_await MAKE; o.whole = outcome::ok(0); }                                                   \
        else { auto r = co_await MAKE; ended(o); take<C>(o, r); }                                      \
      }                                                                                                \
      else if constexpr (C == comb::gather) ;                                                          \
      else if constexpr (C == comb::race || C == comb::left)                                           \
      {                                                                                                \
        if (f == form::result)                                                                         \
        {                                                                                              \
          auto r = co_await cobalt::as_result(MAKE);                                                   \
          ended(o);                                                                                    \
          if (r.has_error()) o.whole = outcome::err(classify(r.error())); else take<C>(o, *r);         \
        }                                                                                              \
        else                                                                                           \
        {                                                                                              \
          auto t = co_await cobalt::as_tuple(MAKE);                                                    \
          ended(o);                                                                                    \
          if (std::get<0>(t)) o.whole = outcome::err(classify(std::get<0>(t))); else take<C>(o, std::get<1>(t)); \
        }                                                                                              \
      }                                                                                                \
      else                                                                                             \
      {                                                                                                \
        if constexpr (std::is_void_v<decltype(cobalt::detail::get_awaitable_type(MAKE).await_resume())>)                  \
        {                                                                                              \
          if constexpr (R_VOID_RANGE) { co_await MAKE; o.whole = outcome::ok(0); }                     \
          else                                                                                         \
          {                                                                                            \
          auto r = co_await cobalt::as_result(MAKE);                                                   \
          if (r.has_error()) o.whole = outcome::err(classify(r.error())); else o.whole = outcome::ok(0); \
          }                                                                                            \
        }                                                                                              \
        else if (f == form::tuple)                                                                     \
        {                                                                                              \
          auto t = co_await cobalt::as_tuple(MAKE);                                                    \
          ended(o);                                                                                    \
          if (std::get<0>(t)) o.whole = outcome::err(classify(std::get<0>(t))); else take<C>(o, std::get<1>(t)); \
        }                                                                                              \
        else                                                                                           \
        {                                                                                              \
          auto r = co_await cobalt::as_result(MAKE);                                                   \
          ended(o);                                                                                    \
          if (r.has_error()) o.whole = outcome::err(classify(r.error())); else take<C>(o, *r);         \
        }                                                                                              \
      }                                                                                                \
    }                                                                                                  \
    catch (...) { o.whole = outcome::err(classify(std::current_exception())); }                        \
    if (!o.finished) ended(o);                                                                         \
    o.oom = L->failed; L->failed = false; L->fail_at = -1;                                             \
  }


template<typename Sp, typename Obj> decltype(auto) pass(Obj & obj)
{
  if constexpr (Sp::lval) return static_cast<Obj &>(obj);
  else return static_cast<Obj &&>(obj);
}

template<comb C, typename ... Sp, std::size_t ... I, typename Tup>
auto make_combo(std::index_sequence<I...>, Tup & t, urbg & g, bool own)
{
  if constexpr (C == comb::race) return cobalt::race(g, pass<Sp>(std::get<I>(t))...);
  else if constexpr (C == comb::left) return cobalt::left_race(pass<Sp>(std::get<I>(t))...);
  else if constexpr (C == comb::join) return cobalt::join(pass<Sp>(std::get<I>(t))...);
  else return cobalt::gather(pass<Sp>(std::get<I>(t))...);
}

inline void verify(observed & o)
{
  if (o.oom)
  {
    for (auto & a : o.arms)
      SIM_CHECK(!a.started() || a.done() || !(a.k == kind::op || a.k == kind::tsk), "oom:left-running", "%s completed after an allocation failure while argument %d was still running", comb_names[(int)o.c], a.idx);
    bool known = o.whole.value || o.whole == outcome::err(x_badalloc);
    for (auto & a : o.arms) if (a.done() && a.out() == o.whole) known = true;
    SIM_CHECK(known, "oom:outcome", "%s ended with %s, which neither an argument nor the allocation failure explains", comb_names[(int)o.c], ONAME(o.whole));
    if (o.c == comb::gather && o.whole.value)
      for (auto & a : o.arms)
        SIM_CHECK(o.parts[a.idx] == a.out() || o.parts[a.idx] == outcome::err(x_badalloc), "oom:outcome", "result %d is %s but the argument ended with %s", a.idx, ONAME(o.parts[a.idx]), ONAME(a.out()));
    if (o.c == comb::join && o.whole.value)
      for (auto & a : o.arms) SIM_CHECK(a.done() && a.out().value, "oom:outcome", "join succeeded although argument %d did not", a.idx);
    return;
  }
  if (o.c == comb::race || o.c == comb::left) check_race(o);
  else check_all(o);
}

// a losing lvalue argument still has its outcome
#define REUSE(o, a, obj)                                                                               \
    {                                                                                                  \
      bool winner = (o.c == comb::race || o.c == comb::left) ? a.idx == o.winner : true;               \
      bool same = o.whole.set && !o.whole.value && a.done() && a.out() == o.whole;  \
      if (!winner && !same && !o.oom && (a.k == kind::prom || a.k == kind::gen) && a.lval)             \
      {                                                                                                \
        ev("awaits loser %d", a.idx);                                                                  \
        probe("await-loser");                                                                          \
        outcome got;                                                                                   \
        try                                                                                            \
        {                                                                                              \
          if constexpr (std::is_void_v<decltype(cobalt::detail::get_awaitable_type(obj).await_resume())>) { co_await obj; got = outcome::ok(0); } \
          else got = outcome::ok(id_of(co_await obj));                                                 \
        }                                                                                              \
        catch (...) { got = outcome::err(classify(std::current_exception())); }                        \
        SIM_CHECK(got == a.out(), cls(o, "loser"), "losing argument %d awaited later gives %s instead of %s", a.idx, ONAME(got), ONAME(a.out())); \
      }                                                                                                \
    }

template<comb C, typename ... Sp>
proc variadic(actor & me, observed & o)
{
  static constexpr bool R_VOID_RANGE = false;
  o.c = C;
  int i = 0;
  ((setup_arm(o.arms[i], i, Sp::k, Sp::lval, std::is_void_v<typename Sp::value>), i++), ...);
  urbg g;
  {
    i = 0;
    std::tuple objs{[&]() { auto & a = o.arms[i++]; return Sp::make(a); }()...};
    if (chance(1, 2, "let-run")) co_await yield_{chance(1, 2, "far")};
    AWAIT_COMBO(o, C, (make_combo<C, Sp...>(std::index_sequence_for<Sp...>{}, objs, g, false)))
    verify(o);
    if constexpr (sizeof...(Sp) >= 1) if constexpr (std::tuple_element_t<0, std::tuple<Sp...>>::lval && std::tuple_element_t<0, std::tuple<Sp...>>::k != kind::op && std::tuple_element_t<0, std::tuple<Sp...>>::k != kind::tsk) REUSE(o, o.arms[0], std::get<0>(objs))
    if constexpr (sizeof...(Sp) >= 2) if constexpr (std::tuple_element_t<1, std::tuple<Sp...>>::lval && std::tuple_element_t<1, std::tuple<Sp...>>::k != kind::op && std::tuple_element_t<1, std::tuple<Sp...>>::k != kind::tsk) REUSE(o, o.arms[1], std::get<1>(objs))
    if constexpr (sizeof...(Sp) >= 3) if constexpr (std::tuple_element_t<2, std::tuple<Sp...>>::lval && std::tuple_element_t<2, std::tuple<Sp...>>::k != kind::op && std::tuple_element_t<2, std::tuple<Sp...>>::k != kind::tsk) REUSE(o, o.arms[2], std::get<2>(objs))
  }
}

template<comb C, typename Sp, typename R> auto make_range(R & r, urbg & g)
{
  if constexpr (C == comb::race) return cobalt::race(g, pass<Sp>(r));
  else if constexpr (C == comb::left) return cobalt::left_race(pass<Sp>(r));
  else if constexpr (C == comb::join) return cobalt::join(pass<Sp>(r));
  else return cobalt::gather(pass<Sp>(r));
}

template<comb C, typename Sp, template<typename ...> typename Cont>
proc ranged(actor & me, observed & o)
{
  static constexpr bool R_VOID_RANGE = true;
  o.c = C; o.ranged = true;
  for (std::size_t i = 0; i < o.arms.size(); i++) setup_arm(o.arms[i], i, Sp::k, Sp::lval, std::is_void_v<typename Sp::value>);
  urbg g;
  using obj_t = decltype(Sp::make(o.arms[0]));
  {
    Cont<obj_t> objs;
    for (auto & a : o.arms) objs.push_back(Sp::make(a));
    if (chance(1, 2, "let-run")) co_await yield_{chance(1, 2, "far")};
    AWAIT_COMBO(o, C, (make_range<C, Sp>(objs, g)))
    if (o.arms.empty())
    {
      if (C == comb::gather) SIM_CHECK(o.whole.value && o.parts.empty(), "gather:empty", "gather of an empty range gave %s", ONAME(o.whole));
      else SIM_CHECK(!o.whole.value, cls(o, "empty"), "%s of an empty range did not fail", comb_names[(int)C]);
      co_return;
    }
    verify(o);
    if constexpr (Sp::lval && (Sp::k == kind::prom || Sp::k == kind::gen))
    {
      auto it = objs.begin();
      for (auto & a : o.arms) { REUSE(o, a, (*it)) ++it; }
    }
  }
}

template<typename T> using vec = std::vector<T>;
template<typename T> using lst = std::list<T>;

struct starter { int n; void (*fn)(actor &, observed &); };
template<comb C, typename ... Sp> starter V() { return {(int)sizeof...(Sp), +[](actor & a, observed & o) { variadic<C, Sp...>(a, o); }}; }
template<comb C, typename Sp, template<typename ...> typename Cont> starter R() { return {-1, +[](actor & a, observed & o) { ranged<C, Sp, Cont>(a, o); }}; }

template<comb C> std::vector<starter> table()
{
  using std::list; 
  std::vector<starter> t{
    V<C, O<false>, O<false>>(),
    V<C, O<true>, O<true>, O<false>>(),
    V<C, Pr<mval, true>, O<false>>(),
    V<C, Pr<void, true>, Pr<void, false>>(),
    V<C, Pr<int, true>, Ge<int, true>, O<false>>(),
    V<C, Ta<int, false>, Pr<mval, false>, Pr<void, true>>(),
    V<C, Pr<void, true>, Pr<void, true>, Pr<void, true>>(),
    V<C, Ta<void, false>, Pr<void, false>>(),
    R<C, Pr<int, true>, vec>(),
    R<C, Pr<void, true>, vec>(),
    R<C, Pr<int, false>, lst>(),
    R<C, Pr<void, false>, vec>(),
    R<C, O<true>, vec>(),
    R<C, O<false>, lst>(),
    R<C, Ta<int, false>, vec>(),
    R<C, Ge<int, true>, vec>(),
  };
  return t;
}

std::vector<starter> table_race();
std::vector<starter> table_left();
std::vector<starter> table_join();
std::vector<starter> table_gather();
}
