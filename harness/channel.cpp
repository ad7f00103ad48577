// P01 P02 P03: channels under random readers, writers, cancellation, races, close.
#include "../sim/world.hpp"
#include <boost/cobalt/channel.hpp>
#include <boost/cobalt/race.hpp>
#include <algorithm>
#include <map>
using namespace sim;
namespace cobalt = boost::cobalt;

const char * const sim_harness_name = "channel";
const char * sim_class_owner(const char * c)
{
  std::string s = c;
  if (s == "duplicate" || s == "invented" || s == "reordered" || s == "lost" || s == "failed-write-delivered") return "P01";
  if (s == "over-limit" || s == "stranded" || s == "needless-suspend") return "P02";
  if (s == "close-pending" || s == "close-lost" || s == "close-result" || s == "cancel-result" || s == "cancel-pending" || s == "write-after-close") return "P03";
  return "";
}

namespace
{
struct val // counts instances, detects reads of moved-from or destroyed values
{
  int id = -1;
  static inline long live = 0;
  val() { live++; }
  explicit val(int i) : id(i) { live++; }
  val(const val & r) : id(r.id) { live++; }
  val(val && r) noexcept : id(std::exchange(r.id, -2)) { live++; }
  val & operator=(const val & r) { id = r.id; return *this; }
  val & operator=(val && r) noexcept { id = std::exchange(r.id, -2); return *this; }
  ~val() { id = -3; live--; }
};
struct mval : val // move only
{
  mval() = default;
  explicit mval(int i) : val(i) {}
  mval(mval &&) noexcept = default;
  mval & operator=(mval &&) noexcept = default;
};

enum class res { none, ok, aborted, broken };
struct oprec
{
  bool is_write = false;
  int chan = 0;
  int value = -1;     // written / read
  std::uint64_t begin = 0, end = 0; // event numbers
  std::uint64_t begin_h = 0;
  bool started_await = false;
  bool cancel_emitted = false;
  bool in_race = false;
  bool indet = false;   // raced with an operation that completes late: its outcome is reported late, too
  actor * a = nullptr;
  bool closed_at_begin = false;
  bool must_not_suspend = false;
  res r = res::none;
  bool pending() const { return begin && !end; }
};

std::uint64_t tick = 0;

template<typename T>
struct model
{
  int id = 0;
  std::size_t limit = 0;
  bool closed = false;
  std::uint64_t closed_at = 0;
  std::vector<oprec *> ops;
  long okw = 0, okr = 0;
  long pend(bool w) const { long n = 0; for (auto o : ops) if (o->is_write == w && o->pending()) n++; return n; }
};

struct setup
{
  bool is_void = false;
  bool cancels = false, closes = false, races = false, multi = true;
  int nchan = 1;
};
setup cfg;
std::vector<std::unique_ptr<oprec>> all_ops;
model<void> M[2];
std::vector<int> written_values; // by value id -> op index
std::map<int, oprec *> by_value;
int next_value = 1;

oprec * new_op(int chan, bool w)
{
  all_ops.push_back(std::make_unique<oprec>());
  auto o = all_ops.back().get();
  o->chan = chan; o->is_write = w;
  M[chan].ops.push_back(o);
  return o;
}

void begin(oprec * o)
{
  auto & m = M[o->chan];
  o->closed_at_begin = m.closed;
  bool nopend = true;
  for (auto p : m.ops) if (p->pending()) nopend = false;
  o->must_not_suspend = nopend && !o->in_race &&
      (m.closed || (o->is_write ? m.okw - m.okr < (long)m.limit : m.okw - m.okr > 0));
  o->begin = ++tick;
  o->begin_h = W->handler_no;
  if (o->is_write) { o->value = next_value++; by_value[o->value] = o; }
  ev("%s begin ch%d op%d v%d", o->is_write ? "write" : "read", o->chan, (int)o->value, o->value);
}

void finish(oprec * o, res r, int v = -1)
{
  auto & m = M[o->chan];
  o->end = ++tick;
  o->r = r;
  if (!o->is_write) o->value = v;
  ev("%s end ch%d r=%d v%d", o->is_write ? "write" : "read", o->chan, (int)r, o->value);
  if (o->must_not_suspend)
    SIM_CHECK(W->handler_no == o->begin_h, "needless-suspend", "%s that could proceed at once was suspended", o->is_write ? "write" : "read");
  if (r == res::aborted)
    SIM_CHECK(o->cancel_emitted || o->in_race, "cancel-result", "%s reports operation_aborted but was never cancelled", o->is_write ? "write" : "read");
  if (r == res::broken)
    SIM_CHECK(m.closed, "close-result", "%s reports broken_pipe on an open channel", o->is_write ? "write" : "read");
  if (o->closed_at_begin && o->is_write && !o->in_race)
    SIM_CHECK(r == res::broken || (r == res::aborted && o->cancel_emitted), "write-after-close", "write on a closed channel did not fail with broken_pipe (%d)", (int)r);
  if (m.closed && r == res::aborted && !o->cancel_emitted && !o->in_race)
    SIM_CHECK(false, "close-result", "%s pending at close reports operation_aborted instead of broken_pipe", o->is_write ? "write" : "read");
  if (o->is_write)
  {
    if (r == res::ok)
    {
      m.okw++;
      long out = m.okw - m.okr - m.pend(false);
      SIM_CHECK(out <= (long)m.limit, "over-limit", "%ld values written and unclaimed with limit %zu", out, m.limit);
    }
  }
  else if (r == res::ok)
  {
    m.okr++;
    if (!cfg.is_void)
    {
      auto it = by_value.find(v);
      SIM_CHECK(it != by_value.end() && it->second->chan == o->chan, "invented", "read produced value %d which was not written to this channel", v);
      if (it == by_value.end()) finish_run();
      for (auto p : m.ops)
        if (p != o && !p->is_write && p->r == res::ok && p->value == v)
          SIM_CHECK(false, "duplicate", "value %d was read twice", v);
      auto w = it->second;
      SIM_CHECK(w->pending() || w->r == res::ok, "failed-write-delivered", "value %d of a failed write was delivered", v);
      // first come, first served, for writes as for reads
      for (auto p : m.ops)
        if (!p->is_write && p->r == res::ok && p != o)
        {
          auto wp = by_value[p->value];
          if ((p->begin < o->begin) != (wp->begin < w->begin))
            SIM_CHECK(false, "reordered", "value %d and value %d were read in the wrong order", v, p->value);
        }
    }
    else
    {
      long beganw = 0;
      for (auto p : m.ops) if (p->is_write && (p->pending() || p->r == res::ok)) beganw++;
      SIM_CHECK(m.okr <= beganw, "invented", "more signals read than written");
    }
  }
  else if (r == res::broken)
  {
    long left = m.okw - m.okr - m.pend(false);
    SIM_CHECK(left <= 0, "close-lost", "read reports broken_pipe while %ld accepted values are unread", left);
  }
}

res to_res(error_code ec)
{
  if (!ec) return res::ok;
  if (ec == asio::error::operation_aborted) return res::aborted;
  if (ec == asio::error::broken_pipe) return res::broken;
  violation("close-result", "unexpected error %s", ec.message().c_str());
}

// ---- uniform access to value and void channels ------------------------------
template<typename T> struct acc;
template<> struct acc<val>
{
  static auto read(cobalt::channel<val> & c) { return c.read(); }
};

struct pairing { actor * a; oprec * o = nullptr; };

template<typename T, typename Op>
struct holder { T v; };

template<typename T>
proc reader(actor & a, std::vector<std::unique_ptr<cobalt::channel<T>>> & ch, int n, pairing & cur)
{
  for (int i = 0; i < n; i++)
  {
    int c = cfg.nchan > 1 ? (int)choose(2) : 0;
    bool rc = cfg.races && chance(1, 2, "race");
    int form = choose(3, "form");
    if (!rc)
    {
      auto o = new_op(c, false);
      cur.o = o; o->a = &a;
      begin(o);
      if constexpr (std::is_void_v<T>)
      {
        if (form == 0)
        {
          auto r = co_await cobalt::as_result(ch[c]->read());
          finish(o, r ? res::ok : to_res(r.error()));
        }
        else if (form == 1)
        {
          auto [ec] = co_await cobalt::as_tuple(ch[c]->read());
          finish(o, to_res(ec));
        }
        else
        {
          error_code ec;
          try { co_await ch[c]->read(); } catch (boost::system::system_error & e) { ec = e.code(); }
          finish(o, to_res(ec));
        }
      }
      else
      {
        if (form == 0)
        {
          auto r = co_await cobalt::as_result(ch[c]->read());
          if (r) finish(o, res::ok, r->id); else finish(o, to_res(r.error()));
        }
        else if (form == 1)
        {
          auto [ec, v] = co_await cobalt::as_tuple(ch[c]->read());
          finish(o, to_res(ec), v.id);
        }
        else
        {
          error_code ec; int id = -1;
          try { cobalt::channel_reader<T> rd(*ch[c]); auto vv = co_await rd; id = vv.id; } catch (boost::system::system_error & e) { ec = e.code(); }
          finish(o, to_res(ec), id);
        }
      }
      cur.o = nullptr;
    }
    else
    {
      // race a read against another event (or the other channel)
      auto o = new_op(c, false);
      o->in_race = true;
      cur.o = o; o->a = &a;
      bool two = cfg.nchan > 1 && chance(1, 2, "two");
      if (!two)
      {
        sim_op other{random_script(7, false)}; o->indet = other.sc.mode == op_mode::external && (other.sc.on_cancel == cancel_mode::late || other.sc.on_cancel == cancel_mode::ignore); ev("race with event mode %d cancel %d", (int)other.sc.mode, (int)other.sc.on_cancel);
        begin(o);
        bool left = chance(1, 2);
        error_code ec; int idx = -1, id = -1;
        try
        {
          if (left)
          {
            auto r = co_await cobalt::left_race(ch[c]->read(), other);
            idx = (int)r.index();
            if constexpr (!std::is_void_v<T>) if (idx == 0) id = boost::variant2::get<0>(r).id;
          }
          else
          {
            auto r = co_await cobalt::race(ch[c]->read(), other);
            idx = (int)r.index();
            if constexpr (!std::is_void_v<T>) if (idx == 0) id = boost::variant2::get<0>(r).id;
          }
        }
        catch (boost::system::system_error & e) { ec = e.code(); }
        if (ec) finish(o, to_res(ec));
        else if (idx == 0) finish(o, res::ok, id);
        else finish(o, res::aborted);
      }
      else
      {
        auto o2 = new_op(1 - c, false);
        o2->in_race = true; o2->a = &a;
        ev("race of two reads");
        begin(o); begin(o2);
        error_code ec; int idx = -1, id = -1;
        try
        {
          if constexpr (std::is_void_v<T>)
            idx = (int)(co_await cobalt::race(ch[c]->read(), ch[1 - c]->read()));
          else
          {
            auto r = co_await cobalt::race(ch[c]->read(), ch[1 - c]->read());
            idx = (int)r.index();
            boost::variant2::visit([&](auto & v) { id = v.id; }, r);
          }
        }
        catch (boost::system::system_error & e) { ec = e.code(); }
        if (ec)
        {
          // one of the two failed: broken_pipe if any of them is closed, else cancelled
          auto r = to_res(ec);
          SIM_CHECK(r != res::broken || M[0].closed || M[1].closed, "close-result", "broken_pipe on open channels");
          auto left = [](oprec * o) { return M[o->chan].okw - M[o->chan].okr - M[o->chan].pend(false) + 1; };
          if (M[o->chan].closed && r == res::broken && (!M[o2->chan].closed || left(o) <= 0)) { finish(o2, res::aborted); finish(o, r); }
          else if (r == res::broken) { finish(o, res::aborted); finish(o2, r); }
          else { finish(o, r); finish(o2, r); }
        }
        else if (idx == 0) { finish(o2, res::aborted); finish(o, res::ok, id); }
        else { finish(o, res::aborted); finish(o2, res::ok, id); }
      }
      cur.o = nullptr;
    }
    int d = choose(4, "pause");
    if (d == 1) co_await yield_{false};
    else if (d == 2) co_await yield_{true};
  }
}

template<typename T>
proc writer(actor & a, std::vector<std::unique_ptr<cobalt::channel<T>>> & ch, int n, pairing & cur)
{
  for (int i = 0; i < n; i++)
  {
    int c = cfg.nchan > 1 ? (int)choose(2) : 0;
    bool rc = cfg.races && chance(1, 3, "race");
    int form = choose(3, "form");
    auto o = new_op(c, true);
    cur.o = o; o->a = &a;
    o->in_race = rc;
    begin(o);
    error_code ec; bool lost = false;
    if constexpr (std::is_void_v<T>)
    {
      if (rc)
      {
        sim_op other{random_script(7, false)}; o->indet = other.sc.mode == op_mode::external && (other.sc.on_cancel == cancel_mode::late || other.sc.on_cancel == cancel_mode::ignore); ev("race with event mode %d cancel %d", (int)other.sc.mode, (int)other.sc.on_cancel);
        try { auto r = co_await cobalt::race(ch[c]->write(), other); lost = r.index() == 1; }
        catch (boost::system::system_error & e) { ec = e.code(); }
      }
      else if (form == 0) { auto r = co_await cobalt::as_result(ch[c]->write()); if (!r) ec = r.error(); }
      else if (form == 1) { auto [e] = co_await cobalt::as_tuple(ch[c]->write()); ec = e; }
      else { try { co_await ch[c]->write(); } catch (boost::system::system_error & e) { ec = e.code(); } }
    }
    else
    {
      T v{o->value};
      const bool by_const = std::is_copy_constructible_v<T> && chance(1, 2, "const");
      if (rc)
      {
        sim_op other{random_script(7, false)}; o->indet = other.sc.mode == op_mode::external && (other.sc.on_cancel == cancel_mode::late || other.sc.on_cancel == cancel_mode::ignore); ev("race with event mode %d cancel %d", (int)other.sc.mode, (int)other.sc.on_cancel);
        try { auto r = co_await cobalt::race(ch[c]->write(std::move(v)), other); lost = r.index() == 1; }
        catch (boost::system::system_error & e) { ec = e.code(); }
      }
      else if constexpr (std::is_copy_constructible_v<T>)
      {
        const T & cv = v;
        if (by_const)
        {
          if (form == 0) { auto r = co_await cobalt::as_result(ch[c]->write(cv)); if (!r) ec = r.error(); }
          else if (form == 1) { auto [e] = co_await cobalt::as_tuple(ch[c]->write(cv)); ec = e; }
          else { try { co_await ch[c]->write(T{o->value}); } catch (boost::system::system_error & e) { ec = e.code(); } }
          if (form < 2) SIM_CHECK(v.id == o->value, "invented", "write of a const value modified it");
        }
        else
        {
          if (form == 0) { auto r = co_await cobalt::as_result(ch[c]->write(v)); if (!r) ec = r.error(); }
          else if (form == 1) { auto [e] = co_await cobalt::as_tuple(ch[c]->write(std::move(v))); ec = e; }
          else { try { co_await ch[c]->write(std::move(v)); } catch (boost::system::system_error & e) { ec = e.code(); } }
        }
      }
      else
      {
        if (form == 0) { auto r = co_await cobalt::as_result(ch[c]->write(std::move(v))); if (!r) ec = r.error(); }
        else if (form == 1) { auto [e] = co_await cobalt::as_tuple(ch[c]->write(std::move(v))); ec = e; }
        else { try { co_await ch[c]->write(std::move(v)); } catch (boost::system::system_error & e) { ec = e.code(); } }
      }
    }
    finish(o, lost ? res::aborted : to_res(ec));
    cur.o = nullptr;
    int d = choose(4, "pause");
    if (d == 1) co_await yield_{false};
    else if (d == 2) co_await yield_{true};
  }
}

void idle_checks()
{
  for (int c = 0; c < cfg.nchan; c++)
  {
    auto & m = M[c];
    long pr = m.pend(false), pw = m.pend(true), unread = m.okw - m.okr;
    bool indet = false;
    for (auto o : m.ops) if (o->pending() && o->indet) { indet = true; (o->is_write ? pw : pr)--; }
    state(mix(mix(m.limit * 64 + (m.closed ? 1 : 0), pr * 8 + pw), unread + 100 * c));
    if (!m.closed && indet)
      probe("raced-op-pending-at-rest");
    else if (!m.closed)
    {
      SIM_CHECK(unread <= (long)m.limit, "over-limit", "%ld unread values at rest with limit %zu", unread, m.limit);
      SIM_CHECK(!(pr > 0 && unread > 0), "stranded", "%ld reader(s) wait although %ld value(s) are unread (limit %zu)", pr, unread, m.limit);
      SIM_CHECK(!(pr > 0 && pw > 0), "stranded", "%ld reader(s) and %ld writer(s) wait for each other (limit %zu)", pr, pw, m.limit);
      SIM_CHECK(!(pw > 0 && unread < (long)m.limit), "stranded", "%ld writer(s) wait although only %ld of %zu slots are used", pw, unread, m.limit);
    }
    else
      SIM_CHECK(pr + pw == 0, "close-pending", "%ld read(s) and %ld write(s) still pending after close", pr, pw);
    for (auto o : m.ops)
      if (o->pending() && o->cancel_emitted && !o->indet)
        SIM_CHECK(false, "cancel-pending", "cancelled %s is still pending", o->is_write ? "write" : "read");
  }
}

template<typename T>
void scenario()
{
  world w;
  W = &w;
  std::vector<std::unique_ptr<cobalt::channel<T>>> ch;
  for (int c = 0; c < cfg.nchan; c++)
  {
    M[c].id = c;
    M[c].limit = choose(4, "limit");
    ev("channel %d limit %zu", c, M[c].limit);
    ch.push_back(std::make_unique<cobalt::channel<T>>(M[c].limit, w.exec()));
  }
  int nr = cfg.multi ? range(1, 4) : 1, nw = cfg.multi ? range(1, 4) : 1;
  std::vector<std::unique_ptr<actor>> as;
  std::vector<std::unique_ptr<pairing>> cur;
  w.on_idle = idle_checks;
  for (int i = 0; i < nr + nw; i++)
  {
    as.push_back(std::make_unique<actor>(i));
    cur.push_back(std::make_unique<pairing>());
    cur.back()->a = as.back().get();
  }
  for (int i = 0; i < nr + nw; i++)
  {
    int n = range(1, 5, "ops");
    bool is_reader = i < nr;
    auto start = [&, i, n, is_reader] { if (is_reader) reader<T>(*as[i], ch, n, *cur[i]); else writer<T>(*as[i], ch, n, *cur[i]); };
    if (chance(1, 3, "latestart")) w.add(start);
    else asio::post(*w.ctx, start);
  }
  if (cfg.cancels)
    for (int k = range(1, 4); k > 0; k--)
    {
      int who = choose(nr + nw, "who");
      w.add([&, who] {
        if (auto o = cur[who]->o)
        {
          fault("cancel");
          // every operation of that actor is told
          for (auto & p : all_ops) if (p.get() == o || (p->a == o->a && p->pending())) p->cancel_emitted = true;
          ev("cancel actor %d", who);
          o->cancel_emitted = true;
          as[who]->sig.emit(asio::cancellation_type::total);
        }
      });
    }
  bool drain_before = true;
  if (cfg.closes)
  {
    int c = cfg.nchan > 1 ? (int)choose(2) : 0;
    w.add([&, c] { fault("close"); ev("close %d", c); M[c].closed = true; M[c].closed_at = ++tick; ch[c]->close(); SIM_CHECK(!ch[c]->is_open(), "close-result", "is_open() after close()"); });
  }
  (void)drain_before;
  w.run();
  w.on_idle = nullptr;

  // Epilogue: drain what is unread, unblock whoever waits, then close.
  actor ep(100);
  pairing epc{&ep};
  for (int c = 0; c < cfg.nchan; c++)
  {
    auto & m = M[c];
    if (m.closed) continue;
    // unread values (and those of waiting writers) must be obtainable
    for (;;)
    {
      long before = m.okw - m.okr + m.pend(true);
      if (before == 0) break;
      auto o = new_op(c, false);
      [](actor & a, cobalt::channel<T> & ch, oprec * o) -> proc
      {
        begin(o);
        auto r = co_await cobalt::as_result(ch.read());
        if constexpr (std::is_void_v<T>) finish(o, r ? res::ok : to_res(r.error()));
        else { if (r) finish(o, res::ok, r->id); else finish(o, to_res(r.error())); }
      }(ep, *ch[c], o);
      w.run(); // the released writers may go on and use any channel
      SIM_CHECK(o->end, "lost", "%ld value(s) written but not readable", m.okw - m.okr);
      if (!o->end) finish_run();
    }
  }
  for (int c = 0; c < cfg.nchan; c++)
    if (!M[c].closed) { M[c].closed = true; ev("final close %d", c); ch[c]->close(); }
  w.on_idle = idle_checks;
  w.run();
  // a closed channel drains, then fails
  for (int c = 0; c < cfg.nchan; c++)
  {
    auto & m = M[c];
    for (int k = 0; k < 20; k++)
    {
      auto o = new_op(c, false);
      [](actor & a, cobalt::channel<T> & ch, oprec * o) -> proc
      {
        begin(o);
        auto r = co_await cobalt::as_result(ch.read());
        if constexpr (std::is_void_v<T>) finish(o, r ? res::ok : to_res(r.error()));
        else { if (r) finish(o, res::ok, r->id); else finish(o, to_res(r.error())); }
      }(ep, *ch[c], o);
      w.run();
      SIM_CHECK(o->end, "close-pending", "read on a closed channel does not complete");
      if (!o->end) finish_run();
      if (o->r != res::ok) { SIM_CHECK(o->r == res::broken, "close-result", "read on a drained closed channel: %d", (int)o->r); break; }
    }
    SIM_CHECK(m.okw == m.okr, "close-lost", "%ld accepted values but %ld delivered after draining the closed channel", m.okw, m.okr);
    SIM_CHECK(m.okw == m.okr, "lost", "%ld values written successfully but %ld read", m.okw, m.okr);
    if (!cfg.is_void)
      for (auto p : m.ops)
        if (p->is_write && p->r != res::ok)
          for (auto q : m.ops)
            if (!q->is_write && q->r == res::ok && q->value == p->value)
              SIM_CHECK(false, "failed-write-delivered", "value %d was delivered although its write failed", p->value);
    // single reader: total order
    auto wa = new_op(c, true);
    [](actor & a, cobalt::channel<T> & ch, oprec * o) -> proc
    {
      begin(o);
      error_code ec;
      if constexpr (std::is_void_v<T>) { auto r = co_await cobalt::as_result(ch.write()); if (!r) ec = r.error(); }
      else { T v{o->value}; auto r = co_await cobalt::as_result(ch.write(std::move(v))); if (!r) ec = r.error(); }
      finish(o, to_res(ec));
    }(ep, *ch[c], wa);
    w.run();
    SIM_CHECK(wa->end, "close-pending", "write on a closed channel does not complete");
  }
  for (auto & a : as)
    SIM_CHECK(a->finished, "close-pending", "actor %d never finished", a->id);
  ch.clear();
  if (!cfg.is_void) SIM_CHECK(val::live == 0, "lost", "%ld value objects leaked or destroyed twice", val::live);
  W = nullptr;
}

// destroying a channel destroys the coroutines waiting on it, once
template<typename T>
void destroy_scenario()
{
  world w;
  W = &w;
  auto ch = std::make_unique<cobalt::channel<T>>(choose(3), w.exec());
  M[0].limit = 1000;
  std::vector<std::unique_ptr<actor>> as;
  int n = range(1, 4);
  bool readers = chance(1, 2);
  for (int i = 0; i < n; i++)
  {
    as.push_back(std::make_unique<actor>(i));
    if (readers) [](actor & a, cobalt::channel<T> & ch) -> proc { co_await cobalt::as_result(ch.read()); }(*as.back(), *ch);
    else [](actor & a, cobalt::channel<T> & ch) -> proc {
      for (int k = 0; k < 4; k++)
      {
        if constexpr (std::is_void_v<T>) co_await cobalt::as_result(ch.write());
        else { T v{1}; co_await cobalt::as_result(ch.write(std::move(v))); }
      }
    }(*as.back(), *ch);
  }
  w.run_handlers_only();
  fault("destroy");
  ch.reset();
  for (auto & a : as) SIM_CHECK(a->destroyed && !a->finished, "close-pending", "destroying the channel left a waiting coroutine behind");
  if (!std::is_void_v<T>) SIM_CHECK(val::live == 0, "lost", "%ld value objects leaked", val::live);
  W = nullptr;
}
}

void sim_main()
{
  int t = choose(3, "type");
  cfg.is_void = t == 1;
  int d = choose(16, "destroy");
  cfg.nchan = range(1, 2, "nchan");
  cfg.multi = !chance(1, 4, "multi");
  // fault free and faulting configurations are separate runs
  if (!chance(1, 3, "fault-free"))
  {
    cfg.cancels = chance(1, 2);
    cfg.closes = chance(1, 3);
    cfg.races = chance(1, 2);
  }
  if (d == 15) { if (t == 0) destroy_scenario<val>(); else if (t == 1) destroy_scenario<void>(); else destroy_scenario<mval>(); return; }
  if (t == 0) scenario<val>();
  else if (t == 1) scenario<void>();
  else scenario<mval>();
}
