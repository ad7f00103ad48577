// The simulated world around cobalt: one (or more) real io_context driven handler
// by handler, plus external events (completions, cancellations, closes) that the
// seeded scheduler injects between any two handlers.
#pragma once
#include "sim.hpp"
#include <boost/cobalt/config.hpp>
#include <boost/cobalt/op.hpp>
#include <boost/cobalt/this_thread.hpp>
#include <boost/cobalt/result.hpp>
#include <boost/asio/io_context.hpp>
#include <boost/asio/post.hpp>
#include <boost/asio/dispatch.hpp>
#include <boost/asio/executor_work_guard.hpp>
#include <boost/asio/cancellation_signal.hpp>
#include <boost/asio/error.hpp>
#include <coroutine>
#include <boost/cobalt/this_thread.hpp>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <vector>

namespace sim
{
namespace asio = boost::asio;
namespace cobalt = boost::cobalt;
using error_code = boost::system::error_code;

struct context_t : asio::io_context
{
  using asio::io_context::io_context;
  void shut() { this->shutdown(); } // destroys all queued handlers
};

struct actor;
inline std::vector<actor *> actors; // every caller there is
void cancel_finished_actors();

struct world
{
  // context 0 is the thread's default, the others are further executors
  std::unique_ptr<context_t> ctx = std::make_unique<context_t>(1);
  std::vector<std::unique_ptr<context_t>> more;
  std::optional<asio::executor_work_guard<asio::io_context::executor_type>> guard;
  bool post_only = false; // operations complete through their executor's queue only
  int running = -1; // context whose handler runs right now
  std::function<void(std::exception_ptr)> on_exception; // what escapes from a handler
  struct pend { std::uint64_t id; std::function<void()> fn; bool direct; int on = 0; };
  std::vector<pend> pending;
  std::uint64_t next_id = 1;
  std::uint64_t handler_no = 0;   // number of the handler being run
  unsigned ext_weight = 3;        // out of 8: how eagerly external events arrive
  std::function<void()> on_idle;  // checked whenever no handler is ready

  world()
  {
    guard.emplace(ctx->get_executor());
    cobalt::this_thread::set_executor(ctx->get_executor());
    ext_weight = 1 + choose(6, "ext_weight");
  }
  bool dying = false;
  ~world()
  {
    cancel_finished_actors();
    auto p = std::move(pending);
    pending.clear();
    dying = true;
    p.clear();
    on_idle = nullptr; on_exception = nullptr;
    guard.reset();
    more_guards.clear();
    // handlers queued on one context may refer to another one
    if (!more.empty()) { for (auto & m : more) m->shut(); ctx->shut(); }
    while (!more.empty()) { auto * c = more.back().get(); delete c; more.back().release(); more.pop_back(); }
    auto * c = ctx.get();
    delete c;
    ctx.release();
  }
  cobalt::executor exec() { return ctx->get_executor(); }

  // an event the outside world may let happen at any time from now on
  std::uint64_t add(std::function<void()> fn, bool direct = false, int on = 0)
  {
    if (dying) // like a descriptor or timer whose service shuts down: the handler is destroyed with the rest of the queue
    {
      if (on == 0 ? ctx != nullptr : (std::size_t)on <= more.size() && more[on - 1]) asio::post(context(on), std::move(fn));
      return next_id++;
    }
    pending.push_back({next_id, std::move(fn), direct, on});
    return next_id++;
  }
  bool remove(std::uint64_t id)
  {
    for (auto it = pending.begin(); it != pending.end(); ++it)
      if (it->id == id) { auto f = std::move(it->fn); pending.erase(it); return true; }
    return false;
  }
  void fire(std::size_t i)
  {
    auto p = std::move(pending[i]);
    pending.erase(pending.begin() + i);
    ev("ext %llu", (unsigned long long)p.id);
    if (p.direct && in_catch) { try { throw 1; } catch (...) { p.fn(); } }
    else if (p.direct) p.fn();
    else asio::post(context(p.on), std::move(p.fn));
  }
  asio::io_context & context(int i) { return i == 0 ? *ctx : *more[i - 1]; }
  cobalt::executor exec(int i) { return context(i).get_executor(); }
  std::vector<asio::executor_work_guard<asio::io_context::executor_type>> more_guards;
  void add_context()
  {
    more.push_back(std::make_unique<context_t>(1));
    more_guards.emplace_back(more.back()->get_executor());
  }
  bool in_catch = chance(1, 8, "in-catch"); // the event loop runs while another exception is being handled
  std::function<void()> after_handler;
  bool poll(int i)
  {
    bool r = false;
    if (in_catch)
    {
      try { throw 1; }
      catch (...) { r = poll_(i); }
    }
    else r = poll_(i);
    return r;
  }
  bool poll_(int i)
  {
    handler_no++;
    running = i;
    struct reset { int & r; ~reset() { r = -1; } } rs{running};
    try { return context(i).poll_one() > 0; }
    catch (...)
    {
      if (!on_exception) throw;
      on_exception(std::current_exception());
      return true;
    }
  }
  bool run_ready()
  {
    if (more.empty()) return poll(0);
    int n = (int)more.size() + 1, s = (int)choose(n, "ctx");
    for (int i = 0; i < n; i++)
      if (poll((s + i) % n)) return true;
    return false;
  }
  // false when nothing can happen any more
  bool step_once()
  {
    bool r = step_once_();
    if (after_handler) after_handler();
    return r;
  }
  // the virtual kernel, if there is one: what it could do next, doing it, and jumping to its next timer
  std::function<std::size_t()> kern_actions;
  std::function<void(std::size_t)> kern_act;
  std::function<bool()> kern_timer, kern_advance;
  std::size_t outside() { return pending.size() + (kern_actions ? kern_actions() : 0); }
  void outside_event(std::size_t n)
  {
    std::size_t i = choose((std::uint32_t)n, "which");
    if (i < pending.size()) fire(i);
    else kern_act(i - pending.size());
  }
  // makes something happen outside; false when nothing can
  bool outside_step()
  {
    std::size_t n = outside();
    if (kern_timer && kern_timer() && (n == 0 || chance(1, 4, "timer"))) return kern_advance();
    if (n == 0) return false;
    outside_event(n);
    return true;
  }
  bool step_once_()
  {
    step();
    if (std::size_t n = outside(); n && choose(8, "ext?") >= 8 - ext_weight)
    {
      outside_event(n);
      return true;
    }
    if (run_ready()) return true;
    if (on_idle) on_idle();
    return outside_step();
  }
  void run() { while (step_once()); }
  void run_handlers_only() { while (run_ready()) step(); }
};

inline world * W = nullptr;

// ---------------------------------------------------------------------------
// Coroutine frames and other cobalt memory: every allocation is accounted for.
#if !defined(BOOST_COBALT_NO_PMR)
struct ledger : cobalt::pmr::memory_resource
{
  const char * name;
  struct rec { std::size_t n, a; };
  std::map<void *, rec> live;
  std::uint64_t allocs = 0;
  std::int64_t fail_at = -1; // allocation number that throws bad_alloc
  bool failed = false;
  explicit ledger(const char * name) : name(name) {}
  void * do_allocate(std::size_t n, std::size_t a) override
  {
    if ((std::int64_t)allocs++ >= fail_at && fail_at >= 0) { fail_at = -1; failed = true; fault("bad_alloc"); throw std::bad_alloc(); }
    void * p = ::operator new(n, std::align_val_t(a < 16 ? 16 : a));
    live[p] = {n, a};
    return p;
  }
  void do_deallocate(void * p, std::size_t n, std::size_t a) override
  {
    auto it = live.find(p);
    if (it == live.end()) violation("memory:foreign", "block returned to resource %s that it did not hand out", name);
    if (it->second.n != n || it->second.a != a)
      violation("memory:mismatch", "block of size %zu align %zu returned to %s as size %zu align %zu", it->second.n, it->second.a, name, n, a);
    live.erase(it);
    ::operator delete(p, std::align_val_t(a < 16 ? 16 : a));
  }
  bool do_is_equal(const memory_resource & o) const noexcept override { return this == &o; }
};
#endif

// an object whose lifetime is observed: destroyed exactly once
struct tracked
{
  static inline long live = 0;
  const char * what;
  unsigned magic = 0x600dcafe;
  explicit tracked(const char * w = "object") : what(w) { live++; }
  tracked(const tracked & o) : what(o.what) { live++; }
  tracked(tracked && o) noexcept : what(o.what) { live++; }
  tracked & operator=(const tracked &) = default;
  ~tracked()
  {
    if (magic != 0x600dcafe) violation("crash:double-destroy", "%s destroyed twice", what);
    magic = 0xdeadbeef;
    live--;
  }
};

// ---------------------------------------------------------------------------
// An asynchronous operation whose completion the scheduler decides.
enum class op_mode { ready, inline_, immediate, posted, external };
enum class cancel_mode { abort_post, abort_dispatch, ignore, late };
struct op_script
{
  op_mode mode = op_mode::external;
  error_code ec{};
  int value = 0;
  cancel_mode on_cancel = cancel_mode::abort_post;
  int ctx = 0;          // context on which it completes
  bool abandon = false; // its handler is destroyed instead of invoked
  int boom = 0;         // its initiation throws that (immediate)
};

struct boom // application exception
{
  int id;
};
inline std::uint64_t seq = 0; // global sequence numbers

struct op_log // what became of one operation
{
  bool initiated = false, completed = false, aborted = false, destroyed = false;
  bool invoked = false; // its handler ran
  bool ext = false;
  int readies = 0;                       // calls of ready()
  std::uint64_t init_at = 0, done_at = 0; // sequence numbers
  error_code ec{};
  void done(error_code e) { completed = true; done_at = ++seq; ec = e; if (e == asio::error::operation_aborted) aborted = true; }
  asio::cancellation_type cancels = asio::cancellation_type::none;
  int n_cancels = 0;
};

template<typename Handler>
struct op_state : std::enable_shared_from_this<op_state<Handler>>
{
  std::optional<Handler> h;
  std::uint64_t ext = 0;
  op_script sc;
  std::shared_ptr<op_log> log;
  explicit op_state(Handler && h_, op_script sc, std::shared_ptr<op_log> l) : h(std::move(h_)), sc(sc), log(std::move(l)) {}
  ~op_state() { if (h) log->destroyed = true; }
  // runs as a handler
  void complete(error_code ec, int v)
  {
    if (!h) return;
    // many operations leave what they put into the slot, those of asio do
    if (!chance(1, 2, "leave-slot")) asio::get_associated_cancellation_slot(*h).clear();
    if (ext) { auto e = ext; ext = 0; auto self = this->shared_from_this(); W->remove(e); finish(ec, v); return; }
    finish(ec, v);
  }
  void finish(error_code ec, int v)
  {
    auto hh = std::move(*h);
    h.reset();
    log->done(ec);
    auto ex = asio::get_associated_executor(hh);
    if (W->post_only) asio::post(ex, [hh = std::move(hh), ec, v, l = log]() mutable { l->invoked = true; std::move(hh)(ec, v); });
    else asio::dispatch(ex, [hh = std::move(hh), ec, v, l = log]() mutable { l->invoked = true; std::move(hh)(ec, v); });
  }
};

// initiates a scripted operation for any completion handler void(error_code, int)
template<typename Handler>
void start_op(Handler handler, op_script sc, std::shared_ptr<op_log> log)
{
  log->initiated = true;
  log->init_at = ++seq;
  if (sc.boom)
  {
    fault("throwing-initiation");
    log->done({});
    auto slot = asio::get_associated_cancellation_slot(handler);
    if (slot.is_connected() && chance(1, 2, "leave-slot"))
      slot.assign([](asio::cancellation_type) { SIM_CHECK(false, "cancel:stale", "a cancellation was sent to an operation that failed to start"); });
    throw boom{sc.boom};
  }
  switch (sc.mode)
  {
    case op_mode::ready: case op_mode::immediate:
    {
      auto ex = asio::get_associated_immediate_executor(handler, W->exec(sc.ctx));
      log->done(sc.ec);
      asio::dispatch(ex, [h = std::move(handler), sc]() mutable { std::move(h)(sc.ec, sc.value); });
      return;
    }
    case op_mode::inline_: case op_mode::posted:
    {
      auto st = std::make_shared<op_state<Handler>>(std::move(handler), sc, log);
      asio::post(W->context(sc.ctx), [st] { st->complete(st->sc.ec, st->sc.value); });
      return;
    }
    case op_mode::external: break;
  }
  auto slot = asio::get_associated_cancellation_slot(handler);
  auto st = std::make_shared<op_state<Handler>>(std::move(handler), sc, log);
  st->ext = W->add([st] { st->ext = 0; if (st->sc.abandon) { auto h = std::move(st->h); st->h.reset(); } else st->complete(st->sc.ec, st->sc.value); }, false, sc.ctx);
  if (slot.is_connected())
    slot.assign(
      [w = std::weak_ptr<op_state<Handler>>(st), log](asio::cancellation_type ct)
      {
        SIM_CHECK(!log->invoked, "cancel:stale", "a cancellation was sent to an operation that had completed and resumed its coroutine");
        auto st = w.lock();
        if (!st || !st->h) return;
        st->log->cancels = st->log->cancels | ct;
        st->log->n_cancels++;
        switch (st->sc.on_cancel)
        {
          case cancel_mode::ignore: return;
          case cancel_mode::abort_post: case cancel_mode::abort_dispatch:
            if (st->ext) { auto e = st->ext; st->ext = 0; W->remove(e); asio::post(W->context(st->sc.ctx), [st] { st->complete(asio::error::operation_aborted, 0); }); }
            return;
          case cancel_mode::late:
            if (st->ext) { auto e = st->ext; W->remove(e); st->ext = W->add([st] { st->ext = 0; st->complete(asio::error::operation_aborted, 0); }, false, st->sc.ctx); }
            return;
        }
      });
}

struct sim_op : cobalt::op<error_code, int>
{
  op_script sc;
  std::shared_ptr<op_log> log = std::make_shared<op_log>();
  sim_op(op_script s) : sc(s) {}
  void ready(cobalt::handler<error_code, int> h) override
  {
    log->readies++;
    // asking twice takes twice
    if (sc.mode == op_mode::ready) { log->initiated = true; log->init_at = ++seq; log->done(sc.ec); h(sc.ec, sc.value + 1000 * (log->readies - 1)); }
  }
  void initiate(cobalt::completion_handler<error_code, int> h) override { start_op(std::move(h), sc, log); }
};

inline op_script random_script(int value, bool errors, bool only_external = false)
{
  op_script s;
  s.value = value;
  static const op_mode modes[] = {op_mode::external, op_mode::posted, op_mode::ready, op_mode::immediate, op_mode::external};
  s.mode = only_external ? op_mode::external : modes[choose(5, "opmode")];
  static const cancel_mode cms[] = {cancel_mode::abort_post, cancel_mode::abort_post, cancel_mode::late, cancel_mode::ignore};
  s.on_cancel = cms[choose(4, "cancelmode")];
  if (errors && chance(1, 3, "operr")) { s.ec = asio::error::connection_reset; fault("op-error"); }
  return s;
}

// ---------------------------------------------------------------------------
// The simulator's own eager coroutine: the callers of cobalt.
struct actor
{
  int id = 0;
  asio::cancellation_signal sig;
  cobalt::executor exec;
  bool started = false, finished = false, destroyed = false;
  explicit actor(int id = 0) : id(id), exec(W->exec()) { actors.push_back(this); }
  ~actor() { std::erase(actors, this); }
  actor(const actor &) = delete;
};
// nothing a coroutine awaited may be reached through its slot once it's done
inline void cancel_finished_actors()
{
  for (std::size_t i = 0; i < actors.size(); i++)
    if (actors[i]->finished) actors[i]->sig.emit(asio::cancellation_type::terminal);
}

struct proc
{
  struct promise_type
  {
    actor & a;
    template<typename ... Args> promise_type(actor & a, Args & ...) : a(a) { a.started = true; }
    template<typename L, typename ... Args> promise_type(L &, actor & a, Args & ...) : a(a) { a.started = true; }
    ~promise_type() { a.destroyed = true; }
    proc get_return_object() { return {}; }
    std::suspend_never initial_suspend() noexcept { return {}; }
    std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() { a.finished = true; }
    void unhandled_exception() { violation("harness:actor-exception", "unexpected exception escaped actor %d", a.id); }
    using executor_type = cobalt::executor;
    const executor_type & get_executor() const { return a.exec; }
    using cancellation_slot_type = asio::cancellation_slot;
    cancellation_slot_type get_cancellation_slot() const { return a.sig.slot(); }
  };
};

// plain pause: resumed by a posted handler, or when the outside world says so
struct yield_
{
  bool external = false;
  bool await_ready() const { return false; }
  // owns the coroutine until it resumes it
  struct owner
  {
    void * p;
    explicit owner(void * p) : p(p) {}
    owner(const owner &) = delete;
    ~owner() { if (p) std::coroutine_handle<>::from_address(p).destroy(); }
    void resume() { std::coroutine_handle<>::from_address(std::exchange(p, nullptr)).resume(); }
  };
  void await_suspend(std::coroutine_handle<> h)
  {
    auto o = std::make_shared<owner>(h.address());
    if (external) W->add([o] { o->resume(); });
    else asio::post(*W->ctx, [o] { o->resume(); });
  }
  void await_resume() {}
};
}
