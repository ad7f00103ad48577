#pragma once
// combinations awaited by combinations, and arguments that somebody else awaits as well (P07, P08, P09)
#include "combi.hpp"
namespace nest
{
using namespace combi;

struct res // what came out of a node of the tree
{
  bool ok = false;
  int err = 0, value = 0, winner = -1;
  bool leaf = false;
  std::vector<res> parts;
};

struct node
{
  bool is_leaf = false;
  int first = 0;            // leaf number
  comb c{};
  bool ranged = false;
  std::vector<node> kids;
};

struct tree
{
  comb out{};
  node root;
  std::deque<arm> arms;
  std::deque<bool> contended; // somebody else awaited the leaf
  std::deque<int> waiters;    // other coroutines awaiting the leaf right now
  bool active = false, finished = false, cancelled = false, set = false;
  res r;
};

inline const char * cls(const tree & t, const char * what)
{
  static char buf[8][40]; static int i = 0;
  i = (i + 1) % 8;
  std::snprintf(buf[i], 40, "%s:%s", t.out == comb::left ? "race" : comb_names[(int)t.out], what);
  return buf[i];
}

// ---- types of the tree ----------------------------------------------------------------------
template<typename Sp, int N> struct L_ // leaf
{
  static constexpr int leaves = 1;
  template<typename T> static auto & make(T & objs, urbg &) { return *std::get<N>(objs); }
  static node describe() { node n; n.is_leaf = true; n.first = N; return n; }
  static res take(int v) { res r; r.ok = true; r.leaf = true; r.value = v; return r; }
};
template<comb C, typename A, typename ... Kids> decltype(auto) combine(urbg & g, A && a, Kids && ... k)
{
  if constexpr (C == comb::race) return cobalt::race(g, std::forward<A>(a), std::forward<Kids>(k)...);
  else if constexpr (C == comb::left) return cobalt::left_race(std::forward<A>(a), std::forward<Kids>(k)...);
  else if constexpr (C == comb::join) return cobalt::join(std::forward<A>(a), std::forward<Kids>(k)...);
  else return cobalt::gather(std::forward<A>(a), std::forward<Kids>(k)...);
}
inline res failed(std::exception_ptr e) { res r; r.err = classify(e); return r; }
template<comb C, typename ... Kids> struct C_ // variadic combination
{
  template<typename T> static decltype(auto) make(T & objs, urbg & g) { return combine<C>(g, Kids::make(objs, g)...); }
  static node describe() { node n; n.c = C; (n.kids.push_back(Kids::describe()), ...); return n; }
  template<typename R> static res take(R && x)
  {
    res r; r.ok = true;
    if constexpr (C == comb::race || C == comb::left)
    {
      r.winner = (int)x.index();
      boost::mp11::mp_with_index<sizeof...(Kids)>(x.index(), [&](auto i)
      {
        r.parts.push_back(boost::mp11::mp_at_c<boost::mp11::mp_list<Kids...>, i>::take(std::move(boost::variant2::get<i>(x))));
      });
    }
    else
      boost::mp11::mp_for_each<boost::mp11::mp_iota_c<sizeof...(Kids)>>([&](auto i)
      {
        using K = boost::mp11::mp_at_c<boost::mp11::mp_list<Kids...>, i>;
        auto & e = std::get<i>(x);
        if constexpr (C == comb::gather) r.parts.push_back(e.has_error() ? failed(e.error()) : K::take(*std::move(e)));
        else r.parts.push_back(K::take(std::move(e)));
      });
    return r;
  }
};
template<comb C, int N, int K> struct R_ // a range of K promises beginning with leaf N
{
  template<typename T> static decltype(auto) make(T & objs, urbg & g)
  {
    return combine<C>(g, *std::get<N>(objs));
  }
  static node describe() { node n; n.c = C; n.ranged = true; for (int i = 0; i < K; i++) { node l; l.is_leaf = true; l.first = N + i; n.kids.push_back(l); } return n; }
  template<typename R> static res take(R && x)
  {
    res r; r.ok = true;
    using LF = L_<void, 0>;
    if constexpr (C == comb::race || C == comb::left) { r.winner = (int)x.first; r.parts.push_back(LF::take(x.second)); }
    else for (auto & e : x)
      if constexpr (C == comb::gather) r.parts.push_back(e.has_error() ? failed(e.error()) : LF::take(*e));
      else r.parts.push_back(LF::take(e));
    return r;
  }
};

// ---- oracle ---------------------------------------------------------------------------------
inline bool leaf_error_below(tree & t, const node & n, int err)
{
  if (n.is_leaf)
  {
    auto & a = t.arms[n.first];
    if (t.contended[n.first] && (err == x_awaited || err == x_other)) return true;
    return a.done() && !a.out().value && a.out().code == err;
  }
  for (auto & k : n.kids) if (leaf_error_below(t, k, err)) return true;
  return false;
}
inline void eval(tree & t, const node & n, const res & r)
{
  if (n.is_leaf)
  {
    auto & a = t.arms[n.first];
    if (!r.ok) { SIM_CHECK(leaf_error_below(t, n, r.err), cls(t, "nested"), "leaf %d is reported as %s but it %s", n.first, xname(r.err), a.done() ? "ended otherwise" : "has not ended"); return; }
    SIM_CHECK(a.done() && a.out() == outcome::ok(r.value), cls(t, "nested"), "leaf %d is reported as value %d but it %s", n.first, r.value, a.done() ? "ended otherwise" : "has not ended");
    return;
  }
  if (!r.ok) { SIM_CHECK(leaf_error_below(t, n, r.err), cls(t, "nested"), "%s threw %s but nothing in it ended so", comb_names[(int)n.c], xname(r.err)); return; }
  if (n.c == comb::race || n.c == comb::left)
  {
    SIM_CHECK(r.winner >= 0 && r.winner < (int)n.kids.size(), cls(t, "nested"), "%s returned index %d", comb_names[(int)n.c], r.winner);
    eval(t, n.kids[r.winner], r.parts[0]);
    return;
  }
  SIM_CHECK(r.parts.size() == n.kids.size(), cls(t, "nested"), "%s returned %zu results", comb_names[(int)n.c], r.parts.size());
  for (std::size_t i = 0; i < n.kids.size(); i++) eval(t, n.kids[i], r.parts[i]);
}
// leaves[i]: must be over although it is awaited by interruptible means
inline void must_be_done(tree & t, const node & n, bool let_go)
{
  if (n.is_leaf)
  {
    auto & a = t.arms[n.first];
    if (a.k == kind::op) SIM_CHECK(!a.started() || a.done(), cls(t, "left-running"), "%s completed while operation %d was still running", comb_names[(int)t.out], n.first);
    else if (!let_go) SIM_CHECK(a.done() || t.contended[n.first], cls(t, "early"), "%s completed before argument %d", comb_names[(int)t.out], n.first);
    return;
  }
  for (auto & k : n.kids) must_be_done(t, k, let_go || n.c == comb::race || n.c == comb::left);
}
inline bool failed_itself(tree & t, const node & n)
{
  if (n.is_leaf) { auto & a = t.arms[n.first]; return t.contended[n.first] || (a.done() && !a.out().value && a.out().code != x_abort); }
  for (auto & k : n.kids) if (failed_itself(t, k)) return true;
  return false;
}
// losing promises and generators aren't cancelled, and nothing is by a gather
inline bool in_failed_join(tree & t, const node & n, int leaf, bool below)
{
  if (n.is_leaf) return below && n.first == leaf;
  below |= n.c == comb::join && failed_itself(t, n);
  for (auto & k : n.kids) if (in_failed_join(t, k, leaf, below)) return true;
  return false;
}
inline void undisturbed(tree & t, const node & n, bool can, bool raced, comb in)
{
  if (n.is_leaf)
  {
    auto & a = t.arms[n.first];
    if (a.cancels() && (!can || (raced && a.k != kind::op)) && !in_failed_join(t, t.root, n.first, false))
      SIM_CHECK(false, in == comb::join ? "join:let-go" : in == comb::gather ? "gather:let-go" : "race:disturbed", "argument %d of a %s was cancelled", n.first, comb_names[(int)in]);
    return;
  }
  for (auto & k : n.kids)
  {
    bool race = n.c == comb::race || n.c == comb::left;
    undisturbed(t, k, can || race, raced || race, n.c);
  }
}

inline void verify(tree & t)
{
  eval(t, t.root, t.r);
  bool race = t.root.c == comb::race || t.root.c == comb::left;
  if (race) for (auto & k : t.root.kids) must_be_done(t, k, true);
  else if (t.root.c == comb::gather || t.r.ok || true) must_be_done(t, t.root, false);
  if (race && t.r.ok && !t.root.kids[t.r.winner].is_leaf)
  {
    auto & w = t.root.kids[t.r.winner];
    if (w.c == comb::join || w.c == comb::gather) must_be_done(t, w, false);
  }
  if (!t.cancelled) undisturbed(t, t.root, false, false, t.root.c);
}

// another coroutine that awaits the same promise or generator
template<typename Obj> proc other_waiter(actor & me, tree & t, int i, Obj & obj)
{
  auto & a = t.arms[i];
  bool alone = !t.active && t.waiters[i] == 0;
  bool gen = a.k == kind::gen;
  t.contended[i] = true;
  t.waiters[i]++;
  ev("other waiter of %d begins", i);
  outcome got;
  try { got = outcome::ok(co_await obj); }
  catch (...) { got = outcome::err(classify(std::current_exception())); }
  t.waiters[i]--;
  ev("other waiter of %d: %s", i, ONAME(got));
  probe("other-waiter");
  if (alone && !gen) SIM_CHECK(got == a.out(), cls(t, "third"), "a coroutine awaiting argument %d got %s instead of %s", i, ONAME(got), ONAME(a.out()));
  else if (got.value) SIM_CHECK(got == a.out(), cls(t, "third"), "a coroutine awaiting argument %d got %s instead of %s", i, ONAME(got), ONAME(a.out()));
  else SIM_CHECK(got == a.out() || got.code == x_awaited || (gen && got.code == x_other), cls(t, "third"), "a coroutine awaiting argument %d got %s instead of %s", i, ONAME(got), ONAME(a.out()));
}

template<typename Sp, int N> auto make_leaf(tree & t)
{
  setup_arm(t.arms[N], N, Sp::k, true, false);
  return std::make_unique<decltype(Sp::make(t.arms[N]))>(Sp::make(t.arms[N]));
}
using prom_range = std::vector<cobalt::promise<int>>;

template<typename Tree, typename Objs>
proc root(actor & me, tree & t, Objs & objs, urbg & g)
{
  t.active = true;
  ev("%s begins", comb_names[(int)t.out]);
  auto f = random_form();
  using aw_t = decltype(cobalt::detail::get_awaitable_type(Tree::make(objs, g)));
  constexpr bool gath = !requires (aw_t & a) { a.await_resume(cobalt::as_result_tag{}); };
  try
  {
    bool plain = gath || f == form::plain;
    if (plain) { auto r = co_await Tree::make(objs, g); t.r = Tree::take(std::move(r)); }
    else if constexpr (!gath)
    {
      auto r = co_await cobalt::as_result(Tree::make(objs, g));
      if (r.has_error()) t.r = failed(r.error());
      else t.r = Tree::take(*std::move(r));
    }
  }
  catch (...) { t.r = failed(std::current_exception()); }
  SIM_CHECK(!t.finished, cls(t, "twice"), "%s completed twice", comb_names[(int)t.out]);
  t.finished = true; t.active = false;
  ev("%s ends: %s %d winner %d", comb_names[(int)t.out], t.r.ok ? "ok" : "failed", t.r.ok ? 0 : t.r.err, t.r.winner);
  verify(t);
}

template<typename Obj> proc again(actor & me, tree & t, int i, Obj & obj)
{
  auto & a = t.arms[i];
  if (t.waiters[i]) co_return;
  t.waiters[i]++;
  outcome got;
  try { got = outcome::ok(co_await obj); }
  catch (...) { got = outcome::err(classify(std::current_exception())); }
  t.waiters[i]--;
  probe("await-again");
  SIM_CHECK(got == a.out(), cls(t, "loser"), "argument %d awaited later gives %s instead of %s", i, ONAME(got), ONAME(a.out()));
}

struct run_
{
  tree t;
  urbg g;
  std::vector<std::unique_ptr<actor>> as;
  std::vector<std::function<void(run_ &)>> others;  // begins another waiter
  std::vector<std::function<void(run_ &)>> agains;
  std::function<void()> start;
  std::function<void()> drop;
  actor & act() { as.push_back(std::make_unique<actor>((int)as.size())); return *as.back(); }
};

template<int N, typename Objs> void wire(run_ & r, std::shared_ptr<Objs> objs)
{
  using obj_t = std::decay_t<decltype(*std::get<N>(*objs))>;
  if constexpr (std::is_same_v<obj_t, prom_range>)
  {
    for (std::size_t i = 0; i < std::get<N>(*objs)->size(); i++)
    {
      r.others.push_back([o = objs.get(), i](run_ & r) { other_waiter(r.act(), r.t, N + (int)i, (*std::get<N>(*o))[i]); });
      r.agains.push_back([o = objs.get(), i](run_ & r) { again(r.act(), r.t, N + (int)i, (*std::get<N>(*o))[i]); });
    }
  }
  else if constexpr (!std::is_same_v<obj_t, sim_op>)
  {
    r.others.push_back([o = objs.get()](run_ & r) { other_waiter(r.act(), r.t, N, *std::get<N>(*o)); });
    r.agains.push_back([o = objs.get()](run_ & r)
    {
      // a generator's only value may have been taken
      auto & a = r.t.arms[N];
      if (a.k == kind::gen && (a.done() || r.t.contended[N])) return;
      again(r.act(), r.t, N, *std::get<N>(*o));
    });
  }
}

template<typename Tree, typename ... Sp> struct Shape
{
  template<std::size_t ... I> static void build(run_ & r, std::index_sequence<I...>)
  {
    r.t.arms.resize(sizeof...(Sp)); r.t.contended.resize(sizeof...(Sp)); r.t.waiters.resize(sizeof...(Sp));
    auto objs = std::make_shared<std::tuple<decltype(make_leaf<Sp, I>(r.t))...>>();
    ((std::get<I>(*objs) = make_leaf<Sp, I>(r.t)), ...);
    finish<Tree>(r, objs);
    (wire<I>(r, objs), ...);
  }
  template<typename Tr, typename O> static void finish(run_ & r, std::shared_ptr<O> objs)
  {
    r.t.root = Tr::describe(); r.t.out = r.t.root.c;
    r.start = [&r, o = objs.get()] { auto & a = r.act(); a.id = 1000; root<Tr>(a, r.t, *o, r.g); };
    r.drop = [objs]() mutable { objs.reset(); };
  }
  static void go(run_ & r) { build(r, std::index_sequence_for<Sp...>{}); }
};
// a range of K promises, then a promise
template<comb O, comb I, int K> struct RShape
{
  static void go(run_ & r)
  {
    r.t.arms.resize(K + 1); r.t.contended.resize(K + 1); r.t.waiters.resize(K + 1);
    auto rng = std::make_unique<prom_range>();
    for (int i = 0; i < K; i++) { setup_arm(r.t.arms[i], i, kind::prom, true, false); rng->push_back(Pr<int, true>::make(r.t.arms[i])); }
    auto p = make_leaf<Pr<int, true>, K>(r.t);
    using none = std::unique_ptr<int>;
    auto objs = std::make_shared<std::tuple<std::unique_ptr<prom_range>, none, decltype(p)>>(std::move(rng), none{}, std::move(p));
    static_assert(K == 2);
    using Tree = C_<O, R_<I, 0, K>, L_<void, K>>;
    Shape<Tree>::template finish<Tree>(r, objs);
    wire<0>(r, objs);
    wire<K>(r, objs); // leaf K lives at place K
  }
};

using Ob = O<true>; using Pb = Pr<int, true>; using Gb = Ge<int, true>;
using shape_fn = void (*)(run_ &);
template<comb C, comb I> void add_shapes(std::vector<shape_fn> & v)
{
  v.push_back(&Shape<C_<C, C_<I, L_<Pb, 0>, L_<Ob, 1>>, L_<Ob, 2>>, Pb, Ob, Ob>::go);
  v.push_back(&Shape<C_<C, L_<Pb, 0>, C_<I, L_<Gb, 1>, L_<Pb, 2>>>, Pb, Gb, Pb>::go);
  v.push_back(&RShape<C, I, 2>::go);
  // the same promise in two places
  v.push_back(&Shape<C_<C, L_<Pb, 0>, C_<I, L_<Pb, 0>, L_<Ob, 1>>>, Pb, Ob>::go);
}
template<comb C> std::vector<shape_fn> shapes()
{
  std::vector<shape_fn> v;
  v.push_back(&Shape<C_<C, L_<Pb, 0>, L_<Ob, 1>>, Pb, Ob>::go);
  v.push_back(&Shape<C_<C, L_<Ob, 0>, L_<Gb, 1>>, Ob, Gb>::go);
  v.push_back(&Shape<C_<C, L_<Pb, 0>, L_<Pb, 0>>, Pb>::go);
  add_shapes<C, comb::race>(v);
  add_shapes<C, comb::left>(v);
  add_shapes<C, comb::join>(v);
  add_shapes<C, comb::gather>(v);
  return v;
}
std::vector<shape_fn> shapes_race();
std::vector<shape_fn> shapes_left();
std::vector<shape_fn> shapes_join();
std::vector<shape_fn> shapes_gather();
}
