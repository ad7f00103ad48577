// P13 and P24 (and P17, P19): asio style operations and composition coroutines.
#pragma once
#include "../sim/coro.hpp"
#include <boost/cobalt/composition.hpp>
#include <boost/cobalt/detached.hpp>
#include <boost/cobalt/op.hpp>
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/spawn.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/asio/associated_allocator.hpp>
#include <boost/asio/associated_immediate_executor.hpp>
#include <boost/asio/bind_cancellation_slot.hpp>
#include <boost/asio/bind_executor.hpp>
#include <boost/asio/compose.hpp>
#include <boost/asio/deferred.hpp>
using namespace sim;

struct ops_setup { bool oom, ctxs, cancels, drops, throws; };
extern ops_setup cfg;
extern ledger * Ldef;  // stands in for the process wide default resource (what the inline buffers overflow into)

enum class stepk { imm, post, ext };
enum class fin { imm, post, exec, drop, ext_drop };
enum class thr { no, before, after, in_imm };
// one operation
struct ctrl
{
  int id = 0, sig = 0;
  std::vector<stepk> steps;
  fin f = fin::post;
  thr t = thr::no;
  error_code ec;
  int value = 0;
  int ctx = 0;           // context on which its steps run
  int blocks = 0;        // memory it takes from the handler's allocator
  bool react = true;     // reacts to cancellation
  bool ready = false;    // op<>::ready completes it
  // what happened
  int inits = 0, depth = 0, finals = 0, resumed = 0, dropped = 0;
  bool armed = false, threw = false, aborted = false, oom = false, awaiting = false;
  std::uint64_t ext = 0;
  std::function<void()> abort;
  asio::cancellation_type cancels = asio::cancellation_type::none;
};
using ctrlp = std::shared_ptr<ctrl>;

// an awaiting coroutine
struct waiter
{
  int id = 0, kind = 0, tok = 0, form = 0, ctx = 0;
  ctrlp c, c2;
  long live = 0;
  bool started = false, ended = false, cancelled = false;
  outcome first, last;
  body b;
};
extern std::vector<std::unique_ptr<waiter>> waiters;

// ---- signatures -----------------------------------------------------------------
inline std::exception_ptr mk_ep(const ctrl & c) { return c.ec ? std::make_exception_ptr(boost::system::system_error(c.ec)) : std::exception_ptr(); }
template<int S> struct sg;
template<> struct sg<0> { using type = void(); template<class H> static void call(H && h, const ctrl &) { std::move(h)(); } static constexpr bool err = false; static constexpr int vals = 0; };
template<> struct sg<1> { using type = void(error_code); template<class H> static void call(H && h, const ctrl & c) { std::move(h)(c.ec); } static constexpr bool err = true; static constexpr int vals = 0; };
template<> struct sg<2> { using type = void(error_code, int); template<class H> static void call(H && h, const ctrl & c) { std::move(h)(c.ec, c.value); } static constexpr bool err = true; static constexpr int vals = 1; };
template<> struct sg<3> { using type = void(int); template<class H> static void call(H && h, const ctrl & c) { std::move(h)(c.value); } static constexpr bool err = false; static constexpr int vals = 1; };
template<> struct sg<4> { using type = void(int, mval); template<class H> static void call(H && h, const ctrl & c) { std::move(h)(c.value, mval(c.value + 1)); } static constexpr bool err = false; static constexpr int vals = 2; };
template<> struct sg<5> { using type = void(std::exception_ptr); template<class H> static void call(H && h, const ctrl & c) { std::move(h)(mk_ep(c)); } static constexpr bool err = true; static constexpr int vals = 0; };
template<> struct sg<6> { using type = void(std::exception_ptr, mval); template<class H> static void call(H && h, const ctrl & c) { std::move(h)(mk_ep(c), mval(c.value)); } static constexpr bool err = true; static constexpr int vals = 1; };
template<> struct sg<7> { using type = void(error_code, int, mval); template<class H> static void call(H && h, const ctrl & c) { std::move(h)(c.ec, c.value, mval(c.value + 1)); } static constexpr bool err = true; static constexpr int vals = 2; };
constexpr int n_sigs = 8;

// ---- what an await gave -----------------------------------------------------------
struct flat { int err = x_none; int n = 0; int v[4] = {}; bool bad = false; };
inline void fold(flat & f, const error_code & ec) { if (ec) f.err = classify_ec(ec); }
inline void fold(flat & f, const std::exception_ptr & e) { if (e) f.err = classify(e); }
inline void fold(flat & f, int v) { if (f.n < 4) f.v[f.n++] = v; else f.bad = true; }
inline void fold(flat & f, const mval & m) { fold(f, m.id); }
template<class ... A> void fold(flat & f, const std::tuple<A...> & t) { std::apply([&](auto & ... a) { (fold(f, a), ...); }, t); }
template<class T, class E> void fold(flat & f, const boost::system::result<T, E> & r)
{
  if (r.has_error()) fold(f, r.error());
  else if constexpr (!std::is_void_v<T>) fold(f, *r);
}

template<class Aw> auto as_form(std::integral_constant<int, 1>, Aw && aw) { return cobalt::as_tuple(std::forward<Aw>(aw)); }

// ---- the operation ----------------------------------------------------------------
struct depth_guard { ctrlp c; depth_guard(ctrlp c) : c(std::move(c)) { this->c->depth++; } ~depth_guard() { c->depth--; } };

template<class H, int S>
struct opst : std::enable_shared_from_this<opst<H, S>>
{
  std::optional<H> h;
  ctrlp c;
  std::size_t pos = 0;
  bool stop = false;
  struct blk { char * p; std::size_t n; unsigned char fill; std::size_t a; };
  std::vector<blk> blks;
  using alloc_t = typename std::allocator_traits<asio::associated_allocator_t<H>>::template rebind_alloc<char>;
  std::optional<alloc_t> al;
  template<int N> struct alignas(N) unit { char x[N]; };
  template<class U> using rebound = typename std::allocator_traits<alloc_t>::template rebind_alloc<U>;
  template<class U> void * alloc_(std::size_t n) { rebound<U> ua(*al); return ua.allocate(n / sizeof(U)); }
  template<class U> void free_(char * p, std::size_t n) { rebound<U> ua(*al); ua.deallocate(reinterpret_cast<U *>(p), n / sizeof(U)); }

  opst(H && h_, ctrlp c) : h(std::move(h_)), c(std::move(c)) { al.emplace(asio::get_associated_allocator(*h)); }
  ~opst() { free_blocks(); if (h) { c->dropped++; ev("op %d handler destroyed", c->id); } }

  void take(int n)
  {
    for (int i = 0; i < n; i++)
    {
      static const std::size_t sizes[] = {24, 100, 256, 700, 1500, 3000, 5000}, aligns[] = {16, 1, 64};
      std::size_t n = sizes[choose(7, "block")], a = aligns[choose(3, "align")];
      n = (n + a - 1) / a * a;
      char * p = a == 1 ? (char *)alloc_<char>(n) : a == 16 ? (char *)alloc_<unit<16>>(n) : (char *)alloc_<unit<64>>(n);
      SIM_CHECK((reinterpret_cast<std::uintptr_t>(p) % a) == 0, "alloc:alignment", "the handler's allocator returned memory that is not aligned to %zu", a);
      unsigned char fill = (unsigned char)(1 + choose(255, "fill"));
      std::memset(p, fill, n);
      blks.push_back({p, n, fill, a});
      check_blocks();
      if (chance(1, 4, "free-one")) release(choose((std::uint32_t)blks.size(), "which"));
    }
  }
  void check_blocks()
  {
    for (auto & b : blks)
      for (std::size_t i = 0; i < b.n; i++)
        if ((unsigned char)b.p[i] != b.fill) { SIM_CHECK(false, "alloc:overlap", "memory handed out by the handler's allocator overlaps another live block"); return; }
  }
  void release(std::size_t i)
  {
    auto b = blks[i];
    blks.erase(blks.begin() + i);
    if (b.a == 1) free_<char>(b.p, b.n); else if (b.a == 16) free_<unit<16>>(b.p, b.n); else free_<unit<64>>(b.p, b.n);
  }
  void free_blocks()
  {
    check_blocks();
    while (!blks.empty()) release(choose((std::uint32_t)blks.size(), "free"));
    al.reset();
  }

  void on_cancel(asio::cancellation_type ct)
  {
    c->cancels = c->cancels | ct;
    if (!h || !c->react || !c->ext) return;
    if (!W->remove(c->ext)) return; // too late
    c->ext = 0;
    stop = true;
    auto self = this->shared_from_this();
    asio::post(W->context(c->ctx), [self] { self->finish(); });
  }
  void arm()
  {
    auto slot = asio::get_associated_cancellation_slot(*h);
    c->armed = true;
    if (!slot.is_connected()) return;
    slot.assign([w = std::weak_ptr<opst>(this->shared_from_this()), k = c](asio::cancellation_type ct) { SIM_CHECK(!k->finals, "cancel:stale", "a cancellation was sent to op %d that had completed and resumed its coroutine", k->id); if (auto s = w.lock()) s->on_cancel(ct); });
  }
  // one step of the operation has been done
  void advance()
  {
    if (stop) { finish(); return; }
    if (pos == c->steps.size()) { finish(); return; }
    auto k = c->steps[pos++];
    if (c->blocks && chance(1, 3, "step-block")) take(1);
    auto self = this->shared_from_this();
    switch (k)
    {
      case stepk::imm:
      {
        bool t = c->t == thr::in_imm && c->depth && pos == c->steps.size();
        asio::dispatch(asio::get_associated_immediate_executor(*h, W->exec(c->ctx)),
          [self, t]() mutable
          {
            if (t) { self->c->threw = true; fault("init-throw"); throw boom{900 + self->c->id}; }
            auto s = std::move(self);
            s->advance();
          });
        return;
      }
      case stepk::post: asio::post(W->context(c->ctx), [self] { self->advance(); }); return;
      case stepk::ext: c->ext = W->add([self] { self->c->ext = 0; self->advance(); }, false, c->ctx); return;
    }
  }
  struct final_call // the last thing an operation does: it invokes the handler
  {
    std::optional<H> h; ctrlp c;
    final_call(H && h, ctrlp c) : h(std::move(h)), c(std::move(c)) {}
    final_call(final_call && o) noexcept : h(std::move(o.h)), c(std::move(o.c)) { o.h.reset(); }
    ~final_call() { if (h) { auto k = c; k->dropped++; ev("op %d handler destroyed", k->id); h.reset(); } }
    void operator()()
    {
      auto k = c;
      auto hh = std::move(*h);
      h.reset();
      k->finals++;
      ev("op %d handler invoked", k->id);
      sg<S>::call(std::move(hh), *k);
    }
  };
  void finish()
  {
    if (!chance(1, 2, "leave-slot")) asio::get_associated_cancellation_slot(*h).clear(); // many operations leave what they put there
    c->armed = false;
    if (stop) { c->ec = asio::error::operation_aborted; c->aborted = true; }
    if (c->f == fin::ext_drop && !stop)
    {
      auto self = this->shared_from_this();
      c->ext = W->add([self]
        {
          fault("handler-dropped");
          self->c->ext = 0; self->free_blocks(); self->c->dropped++; ev("op %d drops its handler", self->c->id); self->h.reset();
        }, false, c->ctx);
      return;
    }
    free_blocks();
    if (c->f == fin::drop && !stop) { auto k = c; fault("handler-dropped"); k->dropped++; ev("op %d drops its handler", k->id); auto hh = std::move(*h); h.reset(); return; }
    auto ex = asio::get_associated_executor(*h, W->exec());
    auto ix = asio::get_associated_immediate_executor(*h, W->exec(c->ctx));
    final_call fc(std::move(*h), c);
    h.reset();
    switch (c->depth && c->f == fin::exec ? fin::post : c->f)
    {
      case fin::imm: asio::dispatch(ix, std::move(fc)); return;
      case fin::exec: asio::dispatch(ex, std::move(fc)); return;
      default: asio::post(ex, std::move(fc)); return;
    }
  }
};

template<int S, class H>
void begin(H && h_, ctrlp c)
{
  using HH = std::decay_t<H>;
  HH h(std::move(h_));
  depth_guard g(c);
  c->inits++;
  ev("op %d initiated", c->id);
  if (c->t == thr::before) { c->threw = true; fault("init-throw"); throw boom{900 + c->id}; }
  auto st = std::make_shared<opst<HH, S>>(std::move(h), c);
  if (c->blocks)
  {
    bool arm = cfg.oom && chance(1, 3, "oom?");
    if (arm) Ldef->fail_at = (std::int64_t)Ldef->allocs + (int)choose(2, "fail-at");
    struct disarm { ~disarm() { Ldef->fail_at = -1; } } da;
    try { st->take(c->blocks); }
    catch (std::bad_alloc &) { c->oom = true; throw; }
  }
  if (c->t == thr::after) { c->threw = true; fault("init-throw"); throw boom{900 + c->id}; }
  st->arm();
  st->advance();
}

template<int S> struct starter { ctrlp c; template<class H> void operator()(H && h) { begin<S>(std::forward<H>(h), c); } };

template<int S, class Sig> struct cop_;
template<int S, class ... A> struct cop_<S, void(A...)> : cobalt::op<A...>
{
  ctrlp c;
  explicit cop_(ctrlp c) : c(std::move(c)) {}
  void ready(cobalt::handler<A...> h) override
  {
    if (!c->ready || S == 4 || S == 6 || S == 7) return;
    c->finals++; ev("op %d is ready", c->id);
    if constexpr (S != 4 && S != 6 && S != 7) sg<S>::call(h, *c); // cobalt::handler copies its arguments
  }
  void initiate(cobalt::completion_handler<A...> h) override { begin<S>(std::move(h), c); }
};
template<int S> using cop = cop_<S, typename sg<S>::type>;

template<class Self> struct fwd_complete { Self & s; template<class ... A> void operator()(A && ... a) && { s.complete(std::forward<A>(a)...); } };
// asio's own composed operation around a scripted inner one
template<int S> struct compose_impl
{
  ctrlp c; ctrlp in;
  template<class Self> void operator()(Self & self)
  {
    depth_guard g(c);
    c->inits++;
    ev("op %d initiated (composed)", c->id);
    begin<2>(std::move(self), in);
  }
  template<class Self> void operator()(Self & self, error_code ec, int v)
  {
    c->ec = ec; c->value = v; c->finals++;
    ev("op %d completes (composed)", c->id);
    auto k = c;
    sg<S>::call(fwd_complete<Self>{self}, *k);
  }
};

template<int Tok, int S> auto make(ctrlp c, ctrlp in)
{
  using sig = typename sg<S>::type;
  if constexpr (Tok == 0) return asio::async_initiate<const cobalt::use_op_t &, sig>(starter<S>{c}, cobalt::use_op);
  else if constexpr (Tok == 1) return asio::async_initiate<const cobalt::use_task_t &, sig>(starter<S>{c}, cobalt::use_task);
  else if constexpr (Tok == 2) return asio::async_initiate<const asio::deferred_t &, sig>(starter<S>{c}, asio::deferred);
  else if constexpr (Tok == 3) return cop<S>(c);
  else return asio::async_compose<const cobalt::use_op_t &, sig>(compose_impl<S>{c, in}, cobalt::use_op);
}

ctrlp new_ctrl(int sig, bool inner = false);
void after_await(waiter & w, const flat & f, bool raw, int sig_vals, bool sig_err);
void second_await(waiter & w, int v);

template<class Coro, int Tok, int S>
Coro wait_coro(waiter & w, held h, asio::executor_arg_t, cobalt::executor)
{
  w.started = true;
  held local(w.b);
  flat f;
  bool raw = false;
  w.c->awaiting = true;
  try
  {
    if (Tok == 2 || w.form == 0)
    {
      if constexpr (sg<S>::vals == 0) co_await make<Tok, S>(w.c, w.c2);
      else fold(f, co_await make<Tok, S>(w.c, w.c2));
    }
    else if constexpr (Tok != 2)
    {
      if (w.form == 1) { raw = Tok != 1; fold(f, co_await cobalt::as_tuple(make<Tok, S>(w.c, w.c2))); }
      else fold(f, co_await cobalt::as_result(make<Tok, S>(w.c, w.c2)));
    }
  }
  catch (...) { fold(f, std::current_exception()); }
  after_await(w, f, raw, sg<S>::vals, sg<S>::err);
  if (w.id % 2)
  {
    int v = 7;
    try
    {
      sim_op o(random_script(7, false, true));
      o.sc.on_cancel = cancel_mode::ignore;
      std::tie(std::ignore, v) = co_await cobalt::as_tuple(o);
    }
    catch (boost::system::system_error & e) { if (!w.cancelled) throw; } // throw_if_cancelled
    second_await(w, v);
  }
  w.ended = true;
  ev("waiter %d ends", w.id);
}

template<class Coro, int Tok> Coro pick_sig(waiter & w, cobalt::executor e)
{
  switch (w.c->sig)
  {
    case 0: return wait_coro<Coro, Tok, 0>(w, held(w.b), asio::executor_arg, e);
    case 1: return wait_coro<Coro, Tok, 1>(w, held(w.b), asio::executor_arg, e);
    case 2: return wait_coro<Coro, Tok, 2>(w, held(w.b), asio::executor_arg, e);
    case 3: return wait_coro<Coro, Tok, 3>(w, held(w.b), asio::executor_arg, e);
    case 4: return wait_coro<Coro, Tok, 4>(w, held(w.b), asio::executor_arg, e);
    case 5: return wait_coro<Coro, Tok, 5>(w, held(w.b), asio::executor_arg, e);
    case 6: return wait_coro<Coro, Tok, 6>(w, held(w.b), asio::executor_arg, e);
    default: return wait_coro<Coro, Tok, 7>(w, held(w.b), asio::executor_arg, e);
  }
}
template<int Tok> struct launch
{
  static cobalt::promise<void> promise(waiter & w, cobalt::executor e);
  static cobalt::task<void> task(waiter & w, cobalt::executor e);
  static cobalt::detached detached(waiter & w, cobalt::executor e);
};
#define OPS_LAUNCH(Tok) \
  template<> cobalt::promise<void> launch<Tok>::promise(waiter & w, cobalt::executor e) { return pick_sig<cobalt::promise<void>, Tok>(w, e); } \
  template<> cobalt::task<void> launch<Tok>::task(waiter & w, cobalt::executor e) { return pick_sig<cobalt::task<void>, Tok>(w, e); } \
  template<> cobalt::detached launch<Tok>::detached(waiter & w, cobalt::executor e) { return pick_sig<cobalt::detached, Tok>(w, e); }
