// P16: timers and sleeps on virtual clocks, through asio's real reactor and a virtual timerfd.
#include "../sim/coro.hpp"
#include "../sim/vk.hpp"
#include <boost/cobalt/io/steady_timer.hpp>
#include <boost/cobalt/io/system_timer.hpp>
#include <boost/cobalt/io/sleep.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/op.hpp>
using namespace sim;
using std::chrono::steady_clock; using std::chrono::system_clock; using std::chrono::nanoseconds; using std::chrono::milliseconds;
namespace io = boost::cobalt::io;

const char * const sim_harness_name = "timer";
const char * sim_class_owner(const char * c)
{
  std::string s = c;
  if (s.rfind("timer:", 0) == 0) return "P16";
  if (s.rfind("memory:", 0) == 0) return "P17";
  return "";
}

namespace
{
struct setup { bool cancels, jumps, destroys, far; } cfg;
std::int64_t sys_now() { return system_base_ns + steady_ns + system_off_ns; }
std::int64_t mono_now() { return steady_base_ns + steady_ns; }

// one wait in progress
struct waiting
{
  bool active = false, system = false;
  std::int64_t expiry = 0, latest = 0, seen = 0; // latest value of the clock it waits for, while it waited
  bool cancelled = false;            // somebody asked for the end of this wait
  bool must_abort = false;           // ... before it could have expired
  std::int64_t cancel_asked = 0;
  int timer = -1;
  std::int64_t start = 0;
  bool combined = false;
  void look() { seen = std::max(seen, system ? sys_now() : mono_now()); }
};
bool jumped = false;
std::map<int, waiting> waits; // by actor
void look() { for (auto & [a, w] : waits) if (w.active) w.look(); }

void cancel_requested(waiting & w)
{
  w.look();
  w.cancelled = true;
  if (w.seen < w.expiry) w.must_abort = true;
}

struct any_timer
{
  std::unique_ptr<io::steady_timer> st;
  std::unique_ptr<io::system_timer> sy;
  std::int64_t expiry = 0;
  int gen = 0;
  bool exists() const { return st || sy; }
  bool system() const { return !!sy; }
  bool expired() const { return st ? st->expired() : sy->expired(); }
  std::int64_t expiry_() const { return st ? st->expiry().time_since_epoch().count() : sy->expiry().time_since_epoch().count(); }
  cobalt::io::wait_op wait() { return st ? st->wait() : sy->wait(); }
  std::int64_t now() const { return sy ? sys_now() : mono_now(); }
};
std::vector<any_timer> timers;

std::int64_t random_delay()
{
  switch (choose(6, "delay"))
  {
    case 0: return 0;
    case 1: return 1000ll * (1 + choose(100));
    case 2: return 1000000ll * (1 + choose(20));
    case 3: return -1000000ll * (std::int64_t)choose(5);
    case 4: return 1000000000ll * (1 + choose(3));
    default: return cfg.far ? 1000000000ll * 3600 * (1 + choose(24)) : 5000000ll;
  }
}

void cancel_waits_of(int t) { for (auto & [a, w] : waits) if (w.active && w.timer == t) cancel_requested(w); }

void make(any_timer & t)
{
  bool sys = chance(1, 3, "system");
  int how = choose(3, "how");
  std::int64_t d = random_delay();
  auto b = sys ? sys_now() : mono_now();
  if (sys)
  {
    if (how == 0) { t.sy = std::make_unique<io::system_timer>(); t.sy->reset(system_clock::duration(d)); }
    else if (how == 1) t.sy = std::make_unique<io::system_timer>(system_clock::duration(d));
    else t.sy = std::make_unique<io::system_timer>(system_clock::time_point(system_clock::duration(b + d)));
  }
  else
  {
    if (how == 0) { t.st = std::make_unique<io::steady_timer>(); t.st->reset(steady_clock::duration(d)); }
    else if (how == 1) t.st = std::make_unique<io::steady_timer>(steady_clock::duration(d));
    else t.st = std::make_unique<io::steady_timer>(steady_clock::time_point(steady_clock::duration(b + d)));
  }
  auto a = sys ? sys_now() : mono_now();
  t.expiry = t.expiry_();
  if (how == 2) SIM_CHECK(t.expiry == b + d, "timer:expiry", "expiry() is %lld ns off", (long long)(t.expiry - b - d));
  else SIM_CHECK(t.expiry >= b + d && t.expiry <= a + d, "timer:expiry", "expiry() is not the requested duration from now");
}

void do_reset(int i)
{
  auto & t = timers[i];
  std::int64_t d = random_delay();
  cancel_waits_of(i);
  bool abs = chance(1, 2, "abs");
  auto b = t.now();
  if (t.st) { if (abs) t.st->reset(steady_clock::time_point(steady_clock::duration(b + d))); else t.st->reset(steady_clock::duration(d)); }
  else { if (abs) t.sy->reset(system_clock::time_point(system_clock::duration(b + d))); else t.sy->reset(system_clock::duration(d)); }
  auto a = t.now();
  t.expiry = t.expiry_();
  ev("timer %d reset by %lld", i, (long long)d);
  if (abs) SIM_CHECK(t.expiry == b + d, "timer:expiry", "expiry() after reset is %lld ns off", (long long)(t.expiry - b - d));
  else SIM_CHECK(t.expiry >= b + d && t.expiry <= a + d, "timer:expiry", "expiry() after reset is not the requested duration from now");
  fault("timer-reset");
}
void do_cancel(int i)
{
  auto & t = timers[i];
  cancel_waits_of(i);
  if (t.st) t.st->cancel(); else t.sy->cancel();
  ev("timer %d cancelled", i);
  fault("timer-cancel");
  SIM_CHECK(t.expiry == t.expiry_(), "timer:expiry", "cancel() changed the expiry");
}

void completed(actor & a, error_code ec, std::uint64_t h0, bool was_expired, int more = 0)
{
  auto & w = waits[a.id + more];
  w.look();
  w.active = false;
  ev("actor %d: %s", a.id, ec ? ec == asio::error::operation_aborted ? "aborted" : "error" : "expired");
  if (was_expired) SIM_CHECK(!ec && h0 == W->handler_no, "timer:expired-suspends", "wait on an expired timer %s", ec ? "failed" : "suspended");
  if (!ec)
  {
    SIM_CHECK(w.seen >= w.expiry, "timer:early", "timer fired %lld ns before its expiry", (long long)(w.expiry - w.seen));
    if (w.must_abort) SIM_CHECK(false, "timer:cancel", "wait succeeded although it was cancelled before the expiry");
    if (h0 != W->handler_no)
    {
      probe("fired");
      if (!(w.system && jumped) && !w.combined) // a combination waits for its losers as well
        for (auto & [b, o] : waits)
          if (o.active && !o.cancelled && !o.combined && o.system == w.system && o.latest < w.expiry && o.start < w.expiry)
            SIM_CHECK(false, "timer:order", "a wait completed before another one of the same clock that expires %lld ns earlier", (long long)(w.expiry - o.expiry));
    }
  }
  else
  {
    SIM_CHECK(ec == asio::error::operation_aborted, "timer:error", "wait failed with %s", ec.message().c_str());
    SIM_CHECK(w.cancelled, "timer:spurious-abort", "wait aborted although nobody cancelled it");
    probe("aborted");
  }
}


void begin(actor & a, bool system, std::int64_t expiry, int timer, int more = 0)
{
  auto & w = waits[a.id + more];
  w = {};
  w.start = system ? sys_now() : mono_now();
  w.active = true; w.system = system; w.expiry = w.latest = expiry; w.timer = timer;
  w.look();
}

// a relative sleep starts counting somewhere inside the call
void deadline(int id)
{
  auto & w = waits[id];
  w.latest = w.expiry + ((w.system ? sys_now() : mono_now()) - w.start);
}

proc run_actor(actor & a, int n)
{
  for (int k = 0; k < n; k++)
  {
    int i = (int)choose(timers.size(), "timer");
    auto & t = timers[i];
    switch (choose(9, "act"))
    {
      case 0: case 1: case 2: // wait
      {
        if (!t.exists()) { make(t); ev("actor %d makes timer %d %s", a.id, i, t.system() ? "system" : "steady"); break; }
        auto b = t.now();
        bool x = t.expired();
        auto e = t.now();
        SIM_CHECK(t.expiry == t.expiry_(), "timer:expiry", "expiry() changed by itself");
        if (t.expiry < b) SIM_CHECK(x, "timer:expired", "expired() is false %lld ns after the expiry", (long long)(b - t.expiry));
        if (t.expiry > e) SIM_CHECK(!x, "timer:expired", "expired() is true %lld ns before the expiry", (long long)(t.expiry - e));
        begin(a, t.system(), t.expiry, i);
        ev("actor %d waits for timer %d, %lld to go", a.id, i, (long long)(t.expiry - t.now()));
        auto h0 = W->handler_no;
        if (chance(1, 4, "plain"))
        {
          error_code ec;
          try { co_await t.wait(); } catch (boost::system::system_error & se) { ec = se.code(); }
          completed(a, ec, h0, x);
        }
        else if (chance(1, 4, "twice"))
        {
          int gen = t.gen;
          auto op = t.wait(); // an operation object may be awaited again
          { auto [ec] = co_await cobalt::as_tuple(op); completed(a, ec, h0, x); }
          if (gen != t.gen) break;
          x = t.expired();
          begin(a, t.system(), t.expiry, i);
          h0 = W->handler_no;
          { auto [ec] = co_await cobalt::as_tuple(op); completed(a, ec, h0, x); }
        }
        else { auto r = co_await cobalt::as_result(t.wait()); completed(a, r ? error_code{} : r.error(), h0, x); }
        break;
      }
      case 3: case 4: // sleep
      {
        std::int64_t d = random_delay();
        int how = (int)choose(4, "sleep");
        auto h0 = W->handler_no;
        ev("actor %d sleeps %lld (%d)", a.id, (long long)d, how);
        error_code ec;
        if (how == 0) { begin(a, false, mono_now() + d, -1); auto s = io::sleep(nanoseconds(d)); deadline(a.id); auto [e] = co_await cobalt::as_tuple(s); ec = e; }
        else if (how == 1) { begin(a, false, mono_now() + d, -1); auto s = io::sleep(steady_clock::time_point(steady_clock::duration(mono_now() + d))); deadline(a.id); auto [e] = co_await cobalt::as_tuple(s); ec = e; }
        else if (how == 2) { begin(a, true, sys_now() + d, -1); auto s = io::sleep(system_clock::time_point(system_clock::duration(sys_now() + d))); deadline(a.id); auto [e] = co_await cobalt::as_tuple(s); ec = e; }
        else { begin(a, false, mono_now() + d / 1000000 * 1000000, -1); auto s = io::sleep(milliseconds(d / 1000000)); deadline(a.id); auto [e] = co_await cobalt::as_tuple(s); ec = e; }
        // a deadline in the past needs no event loop
        completed(a, ec, h0, d <= -1000000);
        break;
      }
      case 8: // the usual way to a timeout
      {
        if (!t.exists()) break;
        std::int64_t d = random_delay();
        if (d < 0) d = 0;
        bool x = t.expired();
        begin(a, t.system(), t.expiry, i);
        begin(a, false, mono_now() + d, -1, 1000);
        waits[a.id].combined = waits[a.id + 1000].combined = true;
        ev("actor %d waits for timer %d, %lld to go, with a timeout of %lld", a.id, i, (long long)(t.expiry - t.now()), (long long)d);
        auto h0 = W->handler_no;
        auto op = t.wait();
        auto s = io::sleep(nanoseconds(d));
        deadline(a.id + 1000);
        auto [ep, k] = co_await cobalt::as_tuple(cobalt::race(op, s));
        error_code ec;
        if (ep) { try { std::rethrow_exception(ep); } catch (boost::system::system_error & se) { ec = se.code(); } }
        look();
        auto & w = waits[a.id], & w2 = waits[a.id + 1000];
        if (h0 == W->handler_no && !ec) { w.active = false; waits.erase(a.id + 1000); SIM_CHECK(k == 1 || x || w.seen >= w.expiry, "timer:early", "race completed with a timer not expired"); break; }
        if (ec) // whichever was aborted
        {
          waits.erase(a.id + 1000);
          completed(a, ec, h0, false);
        }
        else if (k == 0) { waits.erase(a.id + 1000); completed(a, ec, h0, false); }
        else
        {
          SIM_CHECK(!x || h0 == W->handler_no, "timer:expired-suspends", "an expired timer lost against a timeout");
          SIM_CHECK(w.system || w.cancelled || w.latest >= w2.expiry || w.start >= w2.expiry || h0 == W->handler_no, "timer:order", "the timeout won although the timer expires %lld ns earlier", (long long)(w2.expiry - w.expiry));
          w.active = false;
          completed(a, ec, h0, false, 1000);
          waits.erase(a.id + 1000);
          probe("timeout");
        }
        break;
      }
      case 5: if (t.exists() && cfg.cancels) do_cancel(i); break;
      case 6: if (t.exists() && cfg.cancels) do_reset(i); break;
      case 7:
        if (t.exists() && cfg.destroys && chance(1, 2, "destroy"))
        {
          bool used = false;
          for (auto & [b, w] : waits) used = used || (w.active && w.timer == i);
          cancel_waits_of(i);
          for (auto & [b, w] : waits) if (w.timer == i) w.timer = -2;
          if (used) fault("timer-destroyed-while-waiting");
          ev("timer %d destroyed", i);
          // awaiters that await their operation again must not touch it
          t.st.reset(); t.sy.reset(); t.gen++;
        }
        else co_await yield_{chance(1, 2, "ext")};
        break;
    }
  }
}
}

void sim_main()
{
  cfg = {chance(2, 3, "cancels"), chance(1, 3, "jumps"), chance(1, 3, "destroys"), chance(1, 4, "far")};
  vk::enabled = true;
  vk::cfg.time_passes = true;
#if !defined(BOOST_COBALT_NO_PMR)
  ledger led("thread default");
  auto * old = cobalt::this_thread::set_default_resource(&led);
#endif
  auto wp = std::make_unique<world>();
  W = wp.get();
  W->kern_actions = vk::actions; W->kern_act = vk::act; W->kern_timer = [] { for (auto & [a, w] : waits) if (w.active) return vk::has_timer(); return false; }; W->kern_advance = vk::advance;
  W->on_idle = [&]
  {
    auto m = mono_now(), s = sys_now();
    for (auto & [a, w] : waits)
    {
      if (!w.active) continue;
      if (w.cancelled) SIM_CHECK(false, "timer:cancel-lost", "wait of actor %d still pending after it was cancelled", a);
      if (!w.system) SIM_CHECK(m < w.expiry + 200000, "timer:late", "actor %d still waits %lld ns after the expiry", a, (long long)(m - w.expiry));
      if (w.system && !jumped) SIM_CHECK(s < w.expiry + 200000, "timer:late", "actor %d still waits %lld ns after the expiry", a, (long long)(s - w.expiry));
    }
  };
  std::vector<std::unique_ptr<actor>> as;
  timers.resize(range(1, 3, "timers"));
  int n = range(1, 4, "actors");
  for (int i = 0; i < n; i++)
  {
    as.push_back(std::make_unique<actor>(i));
    asio::post(W->ctx->get_executor(), [a = as.back().get()] { run_actor(*a, range(1, 6, "len")); });
  }
  if (cfg.cancels)
    for (int k = range(0, 3, "ncancel"); k > 0; k--)
    {
      auto * a = as[choose(n, "victim")].get();
      W->add([a]
      {
        static const asio::cancellation_type cts[] = {asio::cancellation_type::terminal, asio::cancellation_type::partial, asio::cancellation_type::total, asio::cancellation_type::all};
        auto & w = waits[a->id];
        // asio doesn't allow to cancel a wait through its slot once the timer is gone and its completion on the way
        if (w.active && w.timer == -2) return;
        if (w.active) { cancel_requested(w); fault("cancel-awaiter"); if (waits.count(a->id + 1000)) cancel_requested(waits[a->id + 1000]); }
        ev("cancel actor %d", a->id);
        a->sig.emit(cts[choose(4, "ct")]);
      }, choose(2, "direct"));
    }
  if (cfg.cancels)
    for (int k = range(0, 2, "ntcancel"); k > 0; k--)
    {
      int i = (int)choose(timers.size(), "t");
      bool reset = chance(1, 2, "reset");
      W->add([i, reset] { if (!timers[i].exists()) return; if (reset) do_reset(i); else do_cancel(i); }, choose(2, "direct"));
    }
  if (cfg.jumps)
    for (int k = range(1, 3, "njumps"); k > 0; k--)
    {
      std::int64_t d = (std::int64_t)(choose(4001, "jump")) * 1000000 - 2000000000ll;
      W->add([d] { look(); jumped = true; vk::jump_system(d); look(); }, true);
    }
  W->after_handler = [] { look(); };
  if (chance(1, 5, "early"))
  {
    int steps = range(0, 60, "steps");
    while (steps-- > 0 && W->step_once());
    fault("destroy-context");
    if (chance(1, 2, "timers-first")) { for (int i = 0; i < (int)timers.size(); i++) cancel_waits_of(i); timers.clear(); }
  }
  else
  {
    W->run();
    for (auto & a : as) SIM_CHECK(a->finished, "timer:hang", "actor %d never resumed from its wait", a->id);
  }
  W->guard.reset();
  // timers refer to the context
  for (auto & t : timers) { t.st.reset(); t.sy.reset(); }
  wp.reset();
  for (auto & a : as) SIM_CHECK(a->finished || a->destroyed || !a->started, "timer:leak", "awaiting actor %d leaked", a->id);
  for (auto & a : as) a->sig.slot().clear();
#if !defined(BOOST_COBALT_NO_PMR)
  SIM_CHECK(led.live.empty(), "memory:leak", "%zu allocation(s) never returned", led.live.size());
  cobalt::this_thread::set_default_resource(old);
#endif
  auto fds = vk::open_fds();
  SIM_CHECK(fds.empty(), "timer:fd-leak", "descriptor %s still open at the end", fds.empty() ? "" : vk::describe(fds[0]).c_str());
  W = nullptr;
}
