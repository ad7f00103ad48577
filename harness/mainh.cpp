// P18: a co_main program under a simulated kernel that raises SIGINT and SIGTERM whenever it likes.
#include "../sim/coro.hpp"
#include "../sim/vk.hpp"
#include <boost/cobalt/main.hpp>
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/detached.hpp>
#include <boost/cobalt/spawn.hpp>
#include <boost/cobalt/op.hpp>
#include <boost/asio/steady_timer.hpp>
#include <boost/asio/detached.hpp>
#include <chrono>
#include <csignal>

const char * const sim_harness_name = "mainh";
const char * sim_class_owner(const char * c)
{
  if (!std::strncmp(c, "memory:", 7)) return "P17,P18";
  return "P18";
}
using namespace sim;
using ct = asio::cancellation_type;

extern "C" int prog_main(int, char **) __asm__("main");

enum class policy { abort, ignore, late };
struct leaf_script { int ms = 0; policy pol = policy::abort; };
enum class kid { none, promise_, task_, detached_, spawned_, dropped_ };
struct step_t { kid k = kid::none; leaf_script l; int kid_steps = 1; };

struct prog_t
{
  // script
  int argc = 1; std::vector<step_t> steps;
  bool throwing = true;      // leaves throw_if_cancelled as it is
  bool catches = false;
  int filter = 0;            // 0: as is, 1: reset to the default, 2: terminal only, 3: nothing
  int code = 0; bool throws = false; int ends_with = 0;
  int boom_kid = 0;          // a detached child lets an exception escape
  // what happened
  bool started = false, finished = false;
  int background = 0, cut = 0; // detached children still running, destroyed before they were done
  int raised[2] = {}, seen[2] = {}, early[2] = {};
  int kid_seen = 0;          // cancellations that reached a detached child
  ct state = ct::none;
  bool unknown = false;      // some cancellations came before the coroutine started
  int locals = 0;
  bool threw = false;
  bool aborting = false;     // expected to end by operation_aborted
  int result = -1;
  std::string args;
};
static prog_t * G;
static bool passes(ct t) { return G->filter == 2 ? t == ct::terminal : G->filter != 3; }

static int leaves = 0;
struct leaf_state : std::enable_shared_from_this<leaf_state>
{
  asio::steady_timer tim;
  std::optional<cobalt::completion_handler<error_code>> h;
  leaf_script sc; bool of_main;
  leaf_state(asio::any_io_executor ex, leaf_script sc, bool m) : tim(ex), sc(sc), of_main(m) { leaves++; }
  ~leaf_state() { leaves--; }
  void start()
  {
    tim.expires_after(std::chrono::milliseconds(sc.ms));
    tim.async_wait([self = shared_from_this()](error_code ec)
      {
        auto h = std::move(*self->h);
        self->h.reset();
        asio::get_associated_cancellation_slot(h).clear();
        std::move(h)(ec);
      });
  }
  void cancel(ct t)
  {
    ev("cancellation %d arrives", (int)t);
    if (!of_main) { G->kid_seen++; return; }
    if ((int)t == 7 && G->aborting) { tim.cancel(); return; } // the child was started and then dropped
    if (t != ct::total && t != ct::terminal) violation("main:type", "a signal caused cancellation of type %d", (int)t);
    G->seen[t == ct::terminal]++;
    G->state = t;
    if (sc.pol == policy::abort) tim.cancel();
    else if (sc.pol == policy::late) { sc.pol = policy::ignore; tim.expires_after(std::chrono::milliseconds(3)); start2(); }
  }
  void start2() { /* expires_after aborted the wait; the operation reports that */ }
};
struct leaf : cobalt::op<error_code>
{
  leaf_script sc; bool of_main;
  leaf(leaf_script sc, bool m) : sc(sc), of_main(m) {}
  void initiate(cobalt::completion_handler<error_code> h) override
  {
    auto st = std::make_shared<leaf_state>(asio::get_associated_executor(h), sc, of_main);
    auto slot = asio::get_associated_cancellation_slot(h);
    st->h.emplace(std::move(h));
    if (slot.is_connected()) slot.assign([w = std::weak_ptr<leaf_state>(st)](ct t) { if (auto s = w.lock()) s->cancel(t); });
    st->start();
  }
};

struct local_ { local_() { G->locals++; } local_(const local_ &) = delete; ~local_() { G->locals--; } };

static cobalt::promise<void> kid_promise(step_t s)
{
  local_ l;
  co_await cobalt::this_coro::throw_if_cancelled(false);
  for (int i = 0; i < s.kid_steps; i++) co_await cobalt::as_tuple(leaf(s.l, true));
}
static cobalt::task<void> kid_task(step_t s)
{
  local_ l;
  co_await cobalt::this_coro::throw_if_cancelled(false);
  for (int i = 0; i < s.kid_steps; i++) co_await cobalt::as_tuple(leaf(s.l, true));
}
struct bg { bool done = false; bg() { G->background++; } bg(const bg &) = delete; ~bg() { G->background--; if (!done) G->cut++; } };
static cobalt::detached kid_detached(step_t s, int boom_)
{
  local_ l; bg b;
  for (int i = 0; i < s.kid_steps; i++) co_await cobalt::as_tuple(leaf(s.l, false));
  b.done = true;
  if (boom_) { ev("child throws"); throw boom{boom_}; }
}
static cobalt::task<void> kid_spawned(step_t s)
{
  local_ l; bg b;
  for (int i = 0; i < s.kid_steps; i++) co_await cobalt::as_tuple(leaf(s.l, false));
  b.done = true;
}
static cobalt::promise<void> kid_dropped(step_t s)
{
  local_ l; bg b;
  for (int i = 0; i < s.kid_steps; i++) co_await cobalt::as_tuple(leaf(s.l, false));
  b.done = true;
}

static bool inside_cancelled() { return (G->state & (ct::total | ct::partial | ct::terminal)) != ct::none; }
static void check_state(ct is)
{
  // a cancellation that doesn't pass the filter replaces the one before
  if (G->filter == 2 && G->raised[0] && is == ct::none) G->state = is;
  SIM_CHECK(is == G->state, "main:state", "this_coro::cancelled says %d, %d expected", (int)is, (int)G->state);
}

cobalt::main co_main(int argc, char * argv[])
{
  auto & g = *G;
  local_ l;
  g.started = true;
  ev("co_main starts");
  for (int i = 0; i < argc; i++) g.args += argv[i];
  // signals that came before
  g.state = co_await cobalt::this_coro::cancelled;
  for (int i : {0, 1}) g.early[i] = g.raised[i];
  g.unknown = g.early[0] + g.early[1] > 0;
  SIM_CHECK(g.state == ct::none || (g.state == ct::total && g.raised[0]) || (g.state == ct::terminal && g.raised[1]), "main:state",
            "cancelled with %d at the start, no such signal came", (int)g.state);
  if (g.state != ct::none) probe("cancelled-at-start");
  SIM_CHECK((co_await cobalt::this_coro::executor) == cobalt::this_thread::get_executor(), "main:executor", "this_coro::executor and this_thread::get_executor differ");
  if (g.filter) g.state = ct::none;
  switch (g.filter)
  {
    case 1: co_await cobalt::this_coro::reset_cancellation_state(); break;
    case 2: co_await cobalt::this_coro::reset_cancellation_state(asio::enable_terminal_cancellation()); break;
    case 3: co_await cobalt::this_coro::reset_cancellation_state(asio::disable_cancellation()); break;
  }
  if (g.filter == 1) g.filter = 0; // what it was
  if (!g.throwing) co_await cobalt::this_coro::throw_if_cancelled(false);
  try
  {
    for (std::size_t i = 0; i < g.steps.size(); i++)
    {
      auto & s = g.steps[i];
      if (s.k == kid::detached_ || s.k == kid::spawned_ || s.k == kid::dropped_)
      {
        ev("step %d: background", (int)i);
        if (s.k == kid::detached_) kid_detached(s, std::exchange(g.boom_kid, 0));
        else if (s.k == kid::spawned_) cobalt::spawn(co_await cobalt::this_coro::executor, kid_spawned(s), asio::detached);
        else +kid_dropped(s);
        continue;
      }
      check_state(co_await cobalt::this_coro::cancelled);
      bool dead = g.throwing && inside_cancelled();
      ev("step %d: await %d, cancelled %d", (int)i, (int)s.k, (int)g.state);
      g.aborting = dead;
      if (s.k == kid::none) co_await cobalt::as_tuple(leaf(s.l, true));
      else if (s.k == kid::promise_)
      {
        auto p = kid_promise(s);
        co_await p;
      }
      else co_await kid_task(s);
      SIM_CHECK(!dead, "main:admitted", "an await went ahead although the coroutine was cancelled");
      check_state(co_await cobalt::this_coro::cancelled);
    }
    if (g.throws) { g.threw = true; ev("co_main throws"); throw boom{4711}; }
  }
  catch (boost::system::system_error & e)
  {
    SIM_CHECK(g.aborting && e.code() == asio::error::operation_aborted, "main:exception", "an await threw %s, cancelled: %d", e.code().message().c_str(), (int)g.aborting);
    probe("aborted-by-signal");
    if (!g.catches) { ev("co_main aborted"); g.result = -2; throw; }
    g.aborting = false;
  }
  g.finished = true;
  g.result = g.code;
  ev("co_main returns %d", g.code);
  if (g.ends_with) co_return g.code;
  g.result = g.code;
  co_return g.code;
}

static void raise_one(const char * where)
{
  int k = (int)choose(2, "sig"), sig = k ? SIGTERM : SIGINT;
  if (!vk::handles(sig)) { probe("signal-outside"); return; } // would end the process
  ev("signal in %s", where);
  fault(k ? "SIGTERM" : "SIGINT");
  if (G->finished) { probe("signal-after-completion"); }
  else if (!G->started) probe("signal-before-start");
  G->raised[k]++;
  vk::raise_signal(sig);
}

void sim_main()
{
  static prog_t g; G = &g;
  vk::enabled = true;
  vk::cfg.time_passes = false;
  vk::cfg.pipe_latency = false; // the signal pipe
  g.argc = range(1, 3, "argc");
  g.code = range(0, 255, "code");
  g.throwing = !chance(1, 2, "no-throw");
  g.catches = chance(1, 2, "catches");
  g.filter = chance(1, 4, "filter?") ? range(1, 3, "filter") : 0;
  g.throws = chance(1, 8, "throws");
  int n = range(0, 4, "steps");
  for (int i = 0; i < n; i++)
  {
    step_t s;
    if (chance(1, 2, "kid")) s.k = (kid)range(1, 5, "kind");
    static const int ms[] = {0, 1, 2, 5, 1000};
    s.l.ms = ms[choose(5, "ms")];
    s.l.pol = (policy)choose(3, "policy");
    s.kid_steps = range(0, 2, "kid-steps");
    g.steps.push_back(s);
  }
  if (chance(1, 12, "kid-throws")) g.boom_kid = 815;
  int budget = range(0, 4, "signals");
  unsigned rate = 1 + choose(5, "rate");
  vk::on_call = [&](const char * name)
  {
    if (budget && chance(rate, 32, "now?")) { budget--; raise_one(name); }
  };
  if (chance(1, 10, "syscall-fails"))
  {
    static const char * const calls[] = {"sigaction", "epoll_create", "pipe", "eventfd"};
    vk::fail(calls[choose(4, "call")], range(0, 1, "nth"), EMFILE);
  }
  vk::on_block = [&]() -> bool
  {
    if (g.started && !g.finished && vk::actions() == 0)
      for (int i : {0, 1})
        if (passes(i ? ct::terminal : ct::total))
        {
          SIM_CHECK(g.seen[i] <= g.raised[i], "main:spurious", "%d cancellations of kind %d for %d signals", g.seen[i], i, g.raised[i]);
          SIM_CHECK(g.seen[i] >= g.raised[i] - g.early[i], "main:lost-signal", "%d cancellations of kind %d for %d signals", g.seen[i], i, g.raised[i]);
        }
        else SIM_CHECK(g.seen[i] == 0, "main:filter", "a cancellation passed the filter");
    if (g.started && !g.finished)
      SIM_CHECK(vk::handles(SIGINT) && vk::handles(SIGTERM), "main:unhandled", "SIGINT or SIGTERM is not handled while co_main runs");
    if (g.finished && g.background == 0 && leaves == 0) violation("main:hang", "co_main and everything else is done, but main doesn't return");
    std::size_t n = vk::actions() + (budget ? 1 : 0) + vk::has_timer();
    if (!n) return false;
    std::size_t i = choose((unsigned)n, "block");
    if (vk::has_timer()) { if (i == 0) return vk::advance(); i--; }
    if (i < vk::actions()) { vk::act(i); return true; }
    budget--; raise_one("idle loop");
    return true;
  };
  static ledger L("application"), R("root");
  auto * pre = cobalt::this_thread::set_default_resource(&L);
  auto * pre2 = cobalt::pmr::set_default_resource(&R);
  char a0[] = "prog", a1[] = "-x", a2[] = "yz";
  char * argv[] = {a0, a1, a2, nullptr};
  argv[g.argc] = nullptr;
  int boom_kid = g.boom_kid;
  int rc = -100, x = x_none; std::exception_ptr ex;
  try { rc = prog_main(g.argc, argv); ev("main returned %d", rc); }
  catch (...) { ex = std::current_exception(); x = classify(ex); ev("main threw %s", xname(x)); }
  ex = nullptr;
  bool failed = vk::hits() > 0;
  if (!failed || g.started)
  {
    SIM_CHECK(g.started, "main:not-run", "co_main was never run");
    std::string args = "prog"; if (g.argc > 1) args += "-x"; if (g.argc > 2) args += "yz";
    SIM_CHECK(g.args == args, "main:args", "co_main got the arguments %s", g.args.c_str());
    if (x == boom_kid && boom_kid) probe("child-exception");
    else if (g.threw && x == 4711) probe("exception");
    else if (g.result == -2) SIM_CHECK(x == x_abort, "main:exception", "main ended with %s instead of operation_aborted", xname(x));
    else if (g.finished)
    {
      SIM_CHECK(x == x_none, "main:exception", "main ended with %s", xname(x));
      SIM_CHECK(rc == g.code, "main:exit-code", "main returned %d, co_main %d", rc, g.code);
      SIM_CHECK(g.background + g.cut == 0, "main:early", "main returned with %d background coroutines unfinished", g.background + g.cut);
      SIM_CHECK(!g.threw, "main:exception", "the exception of co_main was lost");
      probe("returned");
    }
    else if (!failed) violation("main:lost", "main ended (%d, %s) before co_main did", rc, xname(x));
  }
  else SIM_CHECK(x != x_none, "main:failure", "main returned %d without having run co_main", rc);
  SIM_CHECK(g.kid_seen == 0, "main:detached-cancelled", "a detached coroutine was cancelled by a signal");
  bool leak_ok = x == boom_kid && boom_kid; // known: P26
  SIM_CHECK(leak_ok || g.locals == 0, "main:leak", "%d coroutines were not destroyed", g.locals);
  SIM_CHECK(leaves == 0, "main:leak", "%d operations were not destroyed", leaves);
  SIM_CHECK(!cobalt::this_thread::has_executor(), "main:executor-left", "the executor of main is still set after it returned");
  SIM_CHECK(cobalt::this_thread::get_default_resource() == &L, "main:resource-left", "the default memory resource was not restored");
  SIM_CHECK(!vk::handles(SIGINT) && !vk::handles(SIGTERM), "main:handler-left", "a signal handler is still installed");
  SIM_CHECK(L.live.empty() && R.live.empty(), "memory:leak", "%zu blocks were not returned", L.live.size() + R.live.size());
  SIM_CHECK(vk::open_fds().empty() || failed, "main:fd-left", "%zu descriptors left open", vk::open_fds().size());
  cobalt::this_thread::set_default_resource(pre);
  cobalt::pmr::set_default_resource(pre2);
  finish_run();
}
