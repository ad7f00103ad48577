// P27: stackful functions that await: contexts standing in for promise, task and generator coroutines, and asio's
// yield_context, nested in and awaiting coroutines of cobalt and each other.
#ifndef SIM_FIBER
#define SIM_FIBER
#endif
#include "../sim/fiber.hpp"
#include <boost/asio/spawn.hpp>
#include <boost/asio/bind_cancellation_slot.hpp>
#include <boost/cobalt/experimental/yield_context.hpp>
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/generator.hpp>
#include <boost/cobalt/channel.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/join.hpp>
#include <boost/cobalt/gather.hpp>
#include <boost/cobalt/this_coro.hpp>
using namespace sim;
namespace exper = cobalt::experimental;

const char * const sim_harness_name = "fiber";
const char * sim_class_owner(const char *) { return "P27"; }

namespace
{
bool cancels, escaped = false;

// one stackful function
struct fib
{
  int id = 0, depth = 0;
  int started = 0, ended = 0;
  int awaits = 0, resumed = 0;  // one continuation per suspension, in program order
  int inside = 0;               // being executed on its stack
  bool cancel_ok = false;
  bool unwound = false, escaped = false;
  long live = 0;
  outcome out;
  std::shared_ptr<op_log> direct; // the operation it is awaiting itself
  fib * parent = nullptr;
  bool may_abort() const { return cancel_ok || (parent && parent->may_abort()); }
};
std::vector<std::unique_ptr<fib>> fibs;
fib & new_fib(fib * parent)
{
  fibs.push_back(std::make_unique<fib>());
  auto & f = *fibs.back();
  f.id = (int)fibs.size();
  f.parent = parent;
  f.depth = parent ? parent->depth + 1 : 0;
  return f;
}
struct on_stack // lives on the stack of the function
{
  fib * f;
  unsigned magic = 0x600dcafe;
  explicit on_stack(fib & f) : f(&f) { f.live++; }
  on_stack(const on_stack & o) : f(o.f) { f->live++; }
  ~on_stack()
  {
    if (magic != 0x600dcafe) violation("crash:double-destroy", "a local of stackful function %d is destroyed twice", f->id);
    magic = 0xdeadbeef;
    f->live--;
  }
};

// an awaitable somebody else resumes
struct mstate
{
  int id = 0, ready = 0, suspended = 0, resumed = 0;
  bool done = false;
};
struct mowner
{
  void * p;
  std::shared_ptr<mstate> st;
  mowner(void * p, std::shared_ptr<mstate> st) : p(p), st(st) {}
  mowner(const mowner &) = delete;
  ~mowner() { if (p) { ev("awaitable %d abandoned", st->id); std::coroutine_handle<>::from_address(p).destroy(); } }
  void resume() { ev("awaitable %d resumes", st->id); st->done = true; std::coroutine_handle<>::from_address(std::exchange(p, nullptr)).resume(); }
};
enum class how { ready, later, no_suspend, self, noop, throw_ready, throw_suspend, throw_resume };
template<typename R>
struct manual_base
{
  how h;
  std::shared_ptr<mstate> st = std::make_shared<mstate>();
  manual_base(how h, int id) : h(h) { st->id = id; }
  bool await_ready()
  {
    st->ready++;
    if (h == how::throw_ready) throw boom{3000 + st->id};
    return h == how::ready;
  }
  R await_suspend(std::coroutine_handle<> c)
  {
    SIM_CHECK(++st->suspended == 1, "fiber:await", "await_suspend was called %d times", st->suspended);
    if (h == how::throw_suspend) throw boom{3000 + st->id};
    bool later = h == how::later || h == how::noop || h == how::throw_resume;
    if (later)
    {
      auto o = std::make_shared<mowner>(c.address(), st);
      if (chance(1, 2, "ext")) W->add([o] { o->resume(); });
      else asio::post(*W->ctx, [o] { o->resume(); });
    }
    if constexpr (std::is_same_v<R, bool>) return later;
    else if constexpr (!std::is_void_v<R>) return later ? std::noop_coroutine() : c;
  }
  int await_resume()
  {
    SIM_CHECK(++st->resumed == 1, "fiber:await", "await_resume was called %d times", st->resumed);
    if (h == how::throw_resume) throw boom{3000 + st->id};
    return st->id;
  }
};
template<typename R> struct manual : manual_base<R> // must be awaited where it is
{
  using manual_base<R>::manual_base;
  manual(const manual &) = delete;
};
template<typename R> struct wrapped // member operator co_await
{
  manual<R> m;
  wrapped(how h, int id) : m(h, id) {}
  manual<R> & operator co_await() { return m; }
};
template<typename R> struct wrapped_free
{
  manual<R> m;
  wrapped_free(how h, int id) : m(h, id) {}
};
template<typename R> manual<R> & operator co_await(wrapped_free<R> & w) { return w.m; }

// how a body awaits
struct with_yield
{
  asio::yield_context y;
  template<typename A> auto await(A && a) { return exper::await(std::forward<A>(a), y); }
};

struct ending // a cancelled coroutine's next await throws
{
  fib & f;
  bool done = false;
  int depth = std::uncaught_exceptions();
  ~ending() { if (!done && std::uncaught_exceptions() > depth) { f.ended++; f.out = outcome::err(x_abort); } }
};
cobalt::promise<int> prom_child(fib & f)
{
  on_stack l(f);
  f.started++;
  ending e{f};
  for (int n = choose(3, "child-steps"); n > 0; n--)
  {
    sim_op o(random_script(n, false));
    co_await cobalt::as_tuple(o);
  }
  e.done = true;
  f.ended++;
  if (chance(1, 4, "child-throws")) { f.out = outcome::err(1000 + f.id); throw boom{1000 + f.id}; }
  f.out = outcome::ok(f.id);
  co_return f.id;
}
cobalt::task<int> task_child(fib & f)
{
  on_stack l(f);
  f.started++;
  ending e{f};
  for (int n = choose(3, "child-steps"); n > 0; n--)
  {
    sim_op o(random_script(n, false));
    co_await cobalt::as_tuple(o);
  }
  e.done = true;
  f.ended++;
  if (chance(1, 4, "child-throws")) { f.out = outcome::err(1000 + f.id); throw boom{1000 + f.id}; }
  f.out = outcome::ok(f.id);
  co_return f.id;
}
cobalt::generator<int> gen_child(fib & f, int n)
{
  on_stack l(f);
  f.started++;
  for (int i = 1; i <= n; i++)
  {
    if (chance(1, 2, "gen-op")) { sim_op o(random_script(i, false)); co_await cobalt::as_tuple(o); }
    co_yield f.id * 10 + i;
  }
  f.ended++;
  co_return f.id * 10 + n + 1;
}

template<typename C> int fbody(C & c, fib & f);

template<typename R>
int fiber_fn(exper::context<R, fib &, on_stack> c, fib & f, on_stack) { return fbody(c, f); }
template<typename R>
R make(fib & f)
{
  if (chance(1, 4, "default-stack")) return exper::make_context<R>(&fiber_fn<R>, f, on_stack(f));
  return exper::make_context<R>(&fiber_fn<R>, std::allocator_arg, stacks{}, f, on_stack(f));
}

template<typename C, typename Aw>
int awaiting(C & c, fib & f, Aw && aw, outcome & o)
{
  struct io
  {
    fib & f;
    io(fib & f) : f(f) { f.awaits++; }
    ~io() { f.resumed++; }
  };
  int r = -1;
  {
    io i(f);
    try
    {
      using T = decltype(c.await(std::forward<Aw>(aw)));
      if constexpr (std::is_void_v<T>) { c.await(std::forward<Aw>(aw)); r = 0; }
      else r = c.await(std::forward<Aw>(aw));
      o = outcome::ok(r);
    }
    NO_UNWIND
    catch (...) { o = outcome::err(classify(std::current_exception())); }
  }
  SIM_CHECK(f.awaits == f.resumed, "fiber:await", "stackful function %d continued %d times for %d awaits", f.id, f.resumed, f.awaits);
  SIM_CHECK(W->running == 0, "fiber:thread", "stackful function %d continues outside of its executor", f.id);
  return r;
}

template<typename R, typename C>
void await_manual(C & c, fib & f, int id)
{
  static const how hows[] = {how::ready, how::later, how::later, how::no_suspend, how::self, how::noop, how::throw_ready, how::throw_suspend, how::throw_resume};
  how h = hows[choose(9, "how")];
  if (h == how::self && (std::is_void_v<R> || std::is_same_v<R, bool>)) h = how::later;
  if (h == how::no_suspend && !std::is_same_v<R, bool>) h = how::later;
  if (h == how::noop && (std::is_void_v<R> || std::is_same_v<R, bool>)) h = how::later;
  outcome o;
  std::shared_ptr<mstate> st;
  int kind = (int)choose(4, "kind");
  ev("fiber %d awaits %d, way %d/%d", f.id, id, (int)h, kind);
  switch (kind)
  {
    case 0: { manual<R> m(h, id); st = m.st; awaiting(c, f, m, o); break; }
    case 1: { manual<R> m(h, id); st = m.st; awaiting(c, f, std::move(m), o); break; }
    case 2: { wrapped<R> m(h, id); st = m.m.st; awaiting(c, f, m, o); break; }
    case 3: { wrapped_free<R> m(h, id); st = m.m.st; awaiting(c, f, m, o); break; }
  }
  if (o == outcome::err(x_abort) && f.may_abort()) return;
  bool throws = h == how::throw_ready || h == how::throw_suspend || h == how::throw_resume;
  SIM_CHECK(o == (throws ? outcome::err(3000 + id) : outcome::ok(id)), "fiber:await", "stackful function %d got %s out of awaitable %d, way %d", f.id, ONAME(o), id, (int)h);
  SIM_CHECK(st->ready == 1, "fiber:await", "await_ready was called %d times", st->ready);
  SIM_CHECK(st->suspended == (h != how::ready && h != how::throw_ready), "fiber:await", "await_suspend was called %d times", st->suspended);
  SIM_CHECK(st->resumed == (h != how::throw_ready && h != how::throw_suspend), "fiber:await", "await_resume was called %d times", st->resumed);
  if (h == how::later || h == how::noop) SIM_CHECK(st->done, "fiber:early", "stackful function %d didn't wait for awaitable %d", f.id, id);
}

void check_child(fib & f, fib & ch, outcome o, const char * what)
{
  if (o.set && !o.value && o.code == x_abort && f.may_abort()) return;
  SIM_CHECK(ch.ended == 1, "fiber:early", "stackful function %d got %s out of %s %d, which ended %d times", f.id, ONAME(o), what, ch.id, ch.ended);
  SIM_CHECK(o == ch.out, "fiber:outcome", "stackful function %d got %s out of %s %d, which ended with %s", f.id, ONAME(o), what, ch.id, ONAME(ch.out));
}

template<typename C>
int fbody(C & c, fib & f)
{
  on_stack local(f);
  f.started++;
  ev("fiber %d starts", f.id);
  constexpr bool ctx = !std::is_same_v<C, with_yield>;
  int n = range(0, 4, "steps");
  try
  {
    for (int i = 0; i < n; i++)
    {
      on_stack more(f);
      switch (choose(10, "step"))
      {
        case 0: case 1: // an operation
        {
          auto sc = random_script(i, true);
          sim_op o(sc);
          f.direct = o.log;
          f.awaits++;
          struct leave { fib & f; ~leave() { f.resumed++; f.direct.reset(); } } l{f};
          ev("fiber %d awaits an operation", f.id);
          error_code ec; int v = 0;
          bool tuple = false;
          // as_tuple needs to know the promise of who awaits, which there is none of with asio's yield_context
          if constexpr (ctx) if (chance(1, 2, "form")) { tuple = true; auto [e_, v_] = c.await(cobalt::as_tuple(o)); ec = e_; v = v_; }
          if (!tuple)
          {
            try { v = c.await(o); }
            catch (boost::system::system_error & e) { ec = e.code(); }
          }
          if (ec != asio::error::operation_aborted) SIM_CHECK(o.log->completed, "fiber:early", "stackful function %d continued before its operation had completed", f.id);
          if (ec == asio::error::operation_aborted) SIM_CHECK(f.may_abort(), "fiber:cancel", "an operation of stackful function %d was aborted, nobody cancelled it", f.id);
          else SIM_CHECK(ec == sc.ec && (ec || v == sc.value), "fiber:outcome", "operation completed with %d/%d instead of %d/%d", ec.value(), v, sc.ec.value(), sc.value);
          break;
        }
        case 2: await_manual<void>(c, f, f.id * 100 + i); break;
        case 3: await_manual<bool>(c, f, f.id * 100 + i); break;
        case 4: await_manual<std::coroutine_handle<>>(c, f, f.id * 100 + i); break;
        case 5: // a promise
        {
          auto & ch = new_fib(&f);
          bool stackful = f.depth < 2 && chance(1, 2, "stackful");
          auto p = stackful ? make<cobalt::promise<int>>(ch) : prom_child(ch);
          outcome o;
          if (chance(1, 3, "work-first")) await_manual<void>(c, f, f.id * 100 + 50 + i);
          if (chance(1, 2, "lvalue")) awaiting(c, f, p, o); else awaiting(c, f, std::move(p), o);
          check_child(f, ch, o, "promise");
          break;
        }
        case 6: // a task
        {
          auto & ch = new_fib(&f);
          bool stackful = f.depth < 2 && chance(1, 2, "stackful");
          auto t = stackful ? make<cobalt::task<int>>(ch) : task_child(ch);
          SIM_CHECK(ch.started == 0, "fiber:lazy", "task %d starts before it is awaited", ch.id);
          if (chance(1, 4, "unused")) { ch.ended = 2; break; }
          outcome o;
          if (chance(1, 2, "lvalue")) awaiting(c, f, t, o); else awaiting(c, f, std::move(t), o);
          check_child(f, ch, o, "task");
          break;
        }
        case 7: // a generator
        {
          auto & ch = new_fib(&f);
          int k = range(0, 3, "yields");
          auto g = gen_child(ch, k);
          for (int j = 1, take = range(0, k + 1, "take"); j <= take; j++)
          {
            outcome o;
            awaiting(c, f, g, o);
            if (o == outcome::err(x_abort) && f.may_abort()) break;
            SIM_CHECK(o == outcome::ok(ch.id * 10 + j), "fiber:outcome", "stackful function %d got %s out of a generator instead of %d", f.id, ONAME(o), ch.id * 10 + j);
          }
          ch.ended = 2;
          break;
        }
        case 8: // several at once
        {
          auto & c1 = new_fib(&f), & c2 = new_fib(&f);
          auto p1 = prom_child(c1);
          auto p2 = f.depth < 2 ? make<cobalt::promise<int>>(c2) : prom_child(c2);
          ev("fiber %d awaits %d and %d", f.id, c1.id, c2.id);
          f.awaits++;
          struct leave { fib & f; ~leave() { f.resumed++; } } l{f};
          try
          {
            auto [r1, r2] = c.await(cobalt::gather(p1, p2));
            auto oc = [](auto & r) { return r.has_error() ? outcome::err(classify(r.error())) : outcome::ok(*r); };
            check_child(f, c1, oc(r1), "promise");
            check_child(f, c2, oc(r2), "promise");
          }
          NO_UNWIND
          catch (...)
          {
            int x = classify(std::current_exception());
            SIM_CHECK(x == x_abort && f.may_abort(), "fiber:outcome", "gather threw %s", xname(x));
          }
          break;
        }
        case 9:
        {
          // throws and catches on its stack
          bool caught = false;
          try { on_stack s(f); if (chance(1, 2, "await-in-try")) await_manual<void>(c, f, f.id * 100 + 70 + i); throw boom{1}; }
          catch (boom & b) { caught = b.id == 1; }
          SIM_CHECK(caught, "fiber:exception", "an exception within stackful function %d got lost", f.id);
          if constexpr (ctx)
          {
            bool same = c.await(cobalt::this_coro::executor) == W->exec();
            SIM_CHECK(same, "fiber:this-coro", "this_coro::executor of stackful function %d isn't its thread's", f.id);
          }
          break;
        }
      }
      SIM_CHECK(f.awaits == f.resumed, "fiber:await", "stackful function %d continued %d times for %d awaits", f.id, f.resumed, f.awaits);
    }
    if (chance(1, 4, "throws")) throw boom{1000 + f.id};
  }
  catch (boost::context::detail::forced_unwind &) { f.unwound = true; throw; }
  catch (boom & b)
  {
    SIM_CHECK(b.id == 1000 + f.id, "fiber:exception", "stackful function %d threw %d", f.id, b.id);
    f.ended++;
    f.out = outcome::err(b.id);
    ev("fiber %d throws", f.id);
    throw;
  }
  catch (boost::system::system_error & e)
  {
    // what cancellation makes the next await of a promise or task throw
    int x = classify_ec(e.code());
    SIM_CHECK(x == x_abort && f.may_abort(), "fiber:exception", "stackful function %d threw %s", f.id, xname(x));
    f.ended++;
    f.out = outcome::err(x);
    ev("fiber %d cancelled", f.id);
    throw;
  }
  f.ended++;
  f.out = outcome::ok(f.id);
  ev("fiber %d returns", f.id);
  return f.id;
}

// --- who calls them ---------------------------------------------------------------
struct root
{
  actor a;
  fib * f = nullptr;
  asio::cancellation_signal sig;
  int completions = 0;
  bool spawned = false;
  explicit root(int i) : a(i) {}
};
proc call_promise(root & r, actor & a)
{
  bool lost = chance(1, 8, "dropped");
  auto & f = *r.f;
  {
    auto p = make<cobalt::promise<int>>(f);
    SIM_CHECK(f.started == 1, "fiber:eager", "a promise started %d times at the call", f.started);
    for (int k = choose(2, "before"); k > 0; k--) co_await yield_{chance(1, 2, "external")};
    if (lost) { f.cancel_ok = true; fault("drop"); r.completions = 1; f.parent = nullptr; }
    else
    {
      outcome o;
      try
      {
        if (chance(1, 2, "lvalue")) { int v = co_await p; o = outcome::ok(v); }
        else { int v = co_await std::move(p); o = outcome::ok(v); }
      }
      catch (...) { o = outcome::err(classify(std::current_exception())); }
      r.completions++;
      ev("caller %d got %s", a.id, ONAME(o));
      SIM_CHECK(f.ended == 1 && o == f.out, "fiber:outcome", "the caller got %s, stackful function %d ended %d times with %s", ONAME(o), f.id, f.ended, ONAME(f.out));
    }
  }
}
proc call_task(root & r, actor & a)
{
  auto & f = *r.f;
  auto t = make<cobalt::task<int>>(f);
  SIM_CHECK(f.started == 0, "fiber:lazy", "a task started at the call");
  for (int k = choose(2, "before"); k > 0; k--) co_await yield_{chance(1, 2, "external")};
  if (chance(1, 8, "unused")) { f.ended = 2; r.completions = 1; co_return; }
  outcome o;
  try
      {
        if (chance(1, 2, "lvalue")) { int v = co_await t; o = outcome::ok(v); }
        else { int v = co_await std::move(t); o = outcome::ok(v); }
      }
  catch (...) { o = outcome::err(classify(std::current_exception())); }
  r.completions++;
  ev("caller %d got %s", a.id, ONAME(o));
  SIM_CHECK(f.ended == 1 && o == f.out, "fiber:outcome", "the caller got %s, stackful function %d ended %d times with %s", ONAME(o), f.id, f.ended, ONAME(f.out));
}
void spawn_yield(root & r)
{
  auto & f = *r.f;
  r.spawned = true;
  auto done = [&r, &f](std::exception_ptr e, int v)
  {
    outcome o = e ? outcome::err(classify(e)) : outcome::ok(v);
    r.completions++;
    ev("spawned %d completes with %s", f.id, ONAME(o));
    SIM_CHECK(r.completions == 1, "fiber:again", "spawned function %d completed %d times", f.id, r.completions);
    SIM_CHECK(f.ended == 1 && o == f.out, "fiber:outcome", "the handler got %s, stackful function %d ended %d times with %s", ONAME(o), f.id, f.ended, ONAME(f.out));
  };
  auto fn = [&f, h = on_stack(f)](asio::yield_context y) { with_yield c{y}; return fbody(c, f); };
  if (chance(1, 2, "slot")) asio::spawn(*W->ctx, std::allocator_arg, stacks{}, fn, asio::bind_cancellation_slot(r.sig.slot(), done));
  else asio::spawn(*W->ctx, std::allocator_arg, stacks{}, fn, done);
}
}

// creating a stackful function fails: in its promise, while its arguments are moved onto the
// stack
struct touchy // an argument whose n-th move throws
{
  int * left;
  fib * f;
  touchy(int & l, fib & f) : left(&l), f(&f) { f.live++; }
  touchy(touchy && o) : left(o.left), f(o.f) { if (*left > 0 && --*left == 0) { fault("throwing-move"); throw boom{4000}; } f->live++; }
  ~touchy() { f->live--; }
};
struct touchy_executor // can't be turned into an executor
{
  bool fails;
  operator cobalt::executor() const { if (fails) { fault("throwing-executor"); throw boom{4001}; } return W->exec(); }
};
template<typename R>
int touchy_fn(exper::context<R, fib &, touchy, asio::executor_arg_t, touchy_executor> c, fib & f, touchy, asio::executor_arg_t, touchy_executor)
{
  f.started++; f.ended++;
  f.out = outcome::ok(f.id);
  return f.id;
}
template<typename R>
void failing_creation()
{
  auto & f = new_fib(nullptr);
  int left = (int)choose(2, "moves"); // later moves must not throw, Boost.Context says
  bool bad_exec = chance(1, 4, "bad-executor"), own = !chance(1, 4, "default-stack");
  outcome o;
  ev("creating %d, move %d throws, executor %d", f.id, left, bad_exec);
  try
  {
    auto fn = &touchy_fn<R>;
    std::optional<R> r;
    if (own) r.emplace(exper::make_context<R>(std::move(fn), std::allocator_arg, stacks{}, f, touchy(left, f), asio::executor_arg_t(), touchy_executor{bad_exec}));
    else r.emplace(exper::make_context<R>(std::move(fn), f, touchy(left, f), asio::executor_arg_t(), touchy_executor{bad_exec}));
    o = outcome::ok(0);
    if (f.started) +std::move(*r);
  }
  catch (...) { o = outcome::err(classify(std::current_exception())); }
  if (bad_exec) SIM_CHECK(o == outcome::err(4001), "fiber:create", "creating a stackful function with a failing promise gave %s", ONAME(o));
  else if (!(o == outcome::ok(0))) SIM_CHECK(o == outcome::err(4000), "fiber:create", "creating a stackful function gave %s", ONAME(o));
  else SIM_CHECK(f.started == 1, "fiber:create", "the stackful function was not started");
  if (!o.value)
  {
    SIM_CHECK(!f.started, "fiber:create", "the stackful function runs although its creation failed");
    f.ended = 1;
  }
  SIM_CHECK(f.live == 0, "fiber:leak", "%ld objects of a stackful function that is over or failed to start were not destroyed", f.live);
}

void sim_main()
{
  cancels = chance(1, 2, "cancels");
  ledger led("thread default");
  cobalt::this_thread::set_default_resource(&led);
  std::vector<std::unique_ptr<root>> rs;
  auto wp = std::make_unique<world>();
  W = wp.get();
  W->on_exception = [](std::exception_ptr e)
  {
    int c = classify(e);
    ev("escaped %s", xname(c));
    for (auto & f : fibs)
      if (f->ended == 1 && !f->out.value && f->out.code == c && (f->cancel_ok || (f->parent && f->parent->ended)) && !f->escaped) { f->escaped = escaped = true; probe("escaped"); return; }
    violation("fiber:escaped", "exception %s reached the event loop", xname(c));
  };
  int n = range(1, 3, "roots");
  for (int i = 0; i < n; i++)
  {
    rs.push_back(std::make_unique<root>(i));
    auto & r = *rs.back();
    r.f = &new_fib(nullptr);
    int kind = (int)choose(3, "root"); ev("root %d is a %s", i, kind == 0 ? "promise" : kind == 1 ? "task" : "spawned");
    W->add([&r, kind] { if (kind == 0) call_promise(r, r.a); else if (kind == 1) call_task(r, r.a); else spawn_yield(r); });
    if (cancels)
      for (int k = choose(3, "ncancel"); k > 0; k--)
        W->add([&r]
        {
          if (r.f->ended || !r.f->started) return;
          auto keep = r.f->direct;
          r.f->cancel_ok = true;
          fault("cancel");
          r.a.sig.emit(asio::cancellation_type::terminal);
          r.sig.emit(asio::cancellation_type::terminal);
        }, true);
  }
  if (chance(1, 4, "failing"))
    for (int k = range(1, 3, "nfail"); k > 0; k--)
      W->add([] { failing_creation<cobalt::promise<int>>(); });
  bool early = chance(1, 4, "early");
  if (early)
  {
    int steps = range(0, 40, "steps");
    while (steps-- > 0 && W->step_once());
    fault("destroy-context");
  }
  else
  {
    W->run();
    for (auto & r : rs) SIM_CHECK(r->completions == 1, "fiber:hang", "the caller of stackful function %d never continued", r->f->id);
    for (auto & f : fibs) SIM_CHECK(f->ended || !f->started, "fiber:hang", "function %d started %d times and never ended", f->id, f->started);
  }
  for (auto & f : fibs) SIM_CHECK(f->started <= 1 && f->ended <= 2, "fiber:again", "function %d started %d, ended %d times", f->id, f->started, f->ended);
  W->guard.reset();
  wp->on_exception = nullptr;
  wp.reset();
  for (auto & f : fibs) if (!f->escaped) SIM_CHECK(f->live == 0, "fiber:leak", "%ld objects on the stack of function %d were not destroyed", f->live, f->id);
  check_stacks();
  // what an escaped exception leaves of a coroutine is not of interest here
  if (!escaped) SIM_CHECK(led.live.empty(), "memory:leak", "%zu allocation(s) never returned", led.live.size());
  cobalt::this_thread::set_default_resource(boost::cobalt::pmr::get_default_resource());
  W = nullptr;
}
