// P15, P20: byte streams (stream sockets, pipes, and user-defined transports) over the virtual kernel.
#include "../sim/coro.hpp"
#include "../sim/vk.hpp"
#include <boost/cobalt/io/stream_socket.hpp>
#include <boost/cobalt/io/pipe.hpp>
#include <boost/cobalt/io/random_access_device.hpp>
#include <boost/cobalt/io/read.hpp>
#include <boost/cobalt/io/write.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/op.hpp>
#include <cstring>
#include <sys/socket.h>
#include <unistd.h>
using namespace sim;
namespace io = boost::cobalt::io;

const char * const sim_harness_name = "stream";
const char * sim_class_owner(const char * c)
{
  std::string s = c;
  if (s.rfind("xfer:", 0) == 0) return "P15";
  if (s.rfind("io:", 0) == 0) return "P20";
  if (s.rfind("bytes:", 0) == 0) return "P15,P20";
  if (s.rfind("memory:", 0) == 0) return "P17";
  return "";
}

namespace
{
unsigned char f(int dir, std::uint64_t pos) { return (unsigned char)mix(0x9e37 + dir, pos); }

enum class okind { none, write_some, write_all, read_some, read_all, wait };
const char * oname(okind k) { static const char * n[] = {"nothing", "write_some", "write", "read_some", "read", "wait"}; return n[(int)k]; }

struct chan_acc // the truth about one direction
{
  int id = 0;
  std::shared_ptr<vk::stream_q> q;      // kernel backed
  std::uint64_t sent_ = 0, consumed_ = 0; // scripted
  bool scripted = false;
  bool broken = false;                   // connection was reset
  bool wclosed = false, rclosed = false; // an end closed or shut down
  bool werr = false, rerr = false;      // asio waits for an edge after an operation that failed
  std::uint64_t sent() const { return q ? q->sent : sent_; }
  std::uint64_t consumed() const { return q ? q->consumed : consumed_; }
};
chan_acc dirs[2];

struct pending_op
{
  bool active = false;
  okind k = okind::none;
  int dir = 0, end = 0, actor = 0;
  std::size_t total = 0;
  std::uint64_t before = 0;          // sent or consumed when it started
  bool asked = false;                // cancel(), close() or a signal while pending
  bool by_signal = false, by_close = false;
  bool gone = false;                 // its object was destroyed: asio doesn't allow to cancel it through the slot any more
  bool moved = false;                // bytes had moved when it was first asked to stop
  std::uint64_t at_signal = 0;
  bool raced = false;
  bool write() const { return k == okind::write_some || k == okind::write_all; }
  bool composed() const { return k == okind::write_all || k == okind::read_all; }
  std::uint64_t now() const { return write() ? dirs[dir].sent() : dirs[dir].consumed(); }
};
std::map<int, pending_op> ops; // by actor

void asked(pending_op & p, bool signal)
{
  if (!p.asked) p.moved = p.now() != p.before;
  p.asked = true;
  if (signal && !p.by_signal) { p.by_signal = true; p.at_signal = p.now(); }
}

// errors the kernel was told to produce
struct injected { std::string name; int err; bool reported = false; };

// calls g for each byte of the sequence until n are done
template<typename Buf, typename G>
std::size_t each_byte(const Buf & b, std::size_t n, G g)
{
  using P = std::conditional_t<std::is_same_v<Buf, io::mutable_buffer_sequence>, char *, const char *>;
  std::size_t k = 0;
  for (auto it = b.begin(); it != b.end() && k < n; ++it)
  {
    auto p = static_cast<P>(it->data());
    for (std::size_t i = 0; i < it->size() && k < n; i++, k++) g(p[i], k);
  }
  return k;
}
// ---- a transport of the user's own ------------------------------------------------
template<typename Buf, typename Handler>
struct scripted_op : std::enable_shared_from_this<scripted_op<Buf, Handler>>
{
  Buf buffer; std::optional<Handler> h; std::uint64_t ext = 0; int dir;
  scripted_op(Buf b, Handler && h_, int d) : buffer(b), h(std::move(h_)), dir(d) {}
  void complete(error_code ec, std::size_t n)
  {
    auto hh = std::move(*h); h.reset();
    ev("transport: %s dir %d: %zu byte(s)%s", std::is_same_v<Buf, io::mutable_buffer_sequence> ? "read" : "write", dir, n, ec ? ec == asio::error::operation_aborted ? ", aborted" : ", error" : "");
    auto ex = asio::get_associated_executor(hh);
    asio::dispatch(ex, [hh = std::move(hh), ec, n]() mutable { std::move(hh)(ec, n); });
  }
};
std::size_t move_bytes(io::mutable_buffer_sequence b, int dir, std::size_t n)
{
  return each_byte(b, n, [&](char & c, std::size_t) { c = (char)f(dir, dirs[dir].consumed_++); });
}
std::size_t move_bytes(io::const_buffer_sequence b, int dir, std::size_t n)
{
  return each_byte(b, n, [&](const char & c, std::size_t)
  {
    SIM_CHECK((unsigned char)c == f(dir, dirs[dir].sent_), "bytes:wrong", "byte %llu handed to the transport is not the one that follows", (unsigned long long)dirs[dir].sent_);
    dirs[dir].sent_++;
  });
}
bool scripted_errors = false;
template<typename Buf>
std::pair<error_code, std::size_t> random_transfer(Buf b, int dir)
{
  std::size_t size = asio::buffer_size(b);
  error_code ec;
  std::size_t n = size == 0 ? 0 : size - choose(std::min<std::size_t>(size, 300), "short");
  if (n < size) fault("short-transfer");
  if (chance(1, 24, "zero")) { n = 0; fault("empty-transfer"); }
  if (scripted_errors && chance(1, 8, "error")) { static const error_code es[] = {asio::error::eof, asio::error::connection_reset, asio::error::broken_pipe}; ec = es[choose(3)]; fault("transport-error"); if (chance(1, 2, "none")) n = 0; }
  return {ec, move_bytes(b, dir, n)};
}

struct scripted final : io::stream
{
  int end;
  explicit scripted(int e) : end(e) {}
  template<typename Buf, typename H>
  static void start(int dir, Buf b, H h)
  {
    int mode = (int)choose(3, "mode");
    if (mode == 2) // through the immediate executor
    {
      auto [ec, n] = random_transfer(b, dir);
      auto ex = asio::get_associated_immediate_executor(h, W->exec());
      asio::dispatch(ex, [h = std::move(h), ec, n]() mutable { std::move(h)(ec, n); });
      return;
    }
    auto slot = asio::get_associated_cancellation_slot(h);
    auto st = std::make_shared<scripted_op<Buf, H>>(b, std::move(h), dir);
    if (mode == 1) { asio::post(*W->ctx, [st] { auto [ec, n] = random_transfer(st->buffer, st->dir); st->complete(ec, n); }); return; }
    st->ext = W->add([st] { if (!st->h) return; st->ext = 0; auto [ec, n] = random_transfer(st->buffer, st->dir); st->complete(ec, n); });
    if (slot.is_connected())
      slot.assign([w = std::weak_ptr<scripted_op<Buf, H>>(st)](asio::cancellation_type)
      {
        auto st = w.lock();
        if (!st || !st->ext || !W->remove(st->ext)) return;
        st->ext = 0;
        asio::post(*W->ctx, [st] { std::size_t n = 0; if (chance(1, 3, "partial-abort")) n = move_bytes(st->buffer, st->dir, choose((std::uint32_t)asio::buffer_size(st->buffer) + 1, "n")); st->complete(asio::error::operation_aborted, n); });
      });
  }
  template<typename Buf, typename H>
  static void ready(int dir, Buf b, H h)
  {
    if (!chance(1, 3, "ready")) return;
    auto [ec, n] = random_transfer(b, dir);
    ev("transport: dir %d ready: %zu byte(s)%s", dir, n, ec ? ", error" : "");
    h(ec, n);
  }
  static void init_w(void * t, io::const_buffer_sequence b, cobalt::completion_handler<error_code, std::size_t> h) { start(static_cast<scripted *>(t)->end, b, std::move(h)); }
  static void init_r(void * t, io::mutable_buffer_sequence b, cobalt::completion_handler<error_code, std::size_t> h) { start(1 - static_cast<scripted *>(t)->end, b, std::move(h)); }
  static void try_w(void * t, io::const_buffer_sequence b, cobalt::handler<error_code, std::size_t> h) { ready(static_cast<scripted *>(t)->end, b, std::move(h)); }
  static void try_r(void * t, io::mutable_buffer_sequence b, cobalt::handler<error_code, std::size_t> h) { ready(1 - static_cast<scripted *>(t)->end, b, std::move(h)); }
  io::write_op write_some(io::const_buffer_sequence b) override { return {b, this, init_w, try_w}; }
  io::read_op read_some(io::mutable_buffer_sequence b) override { return {b, this, init_r, try_r}; }
};

// a device addressed by offset
struct device final : io::random_access_device
{
  std::string data = std::string(2000, '.');
  template<typename Buf>
  std::pair<error_code, std::size_t> move(std::uint64_t off, Buf b)
  {
    std::size_t size = asio::buffer_size(b);
    std::size_t n = size == 0 ? 0 : size - choose(std::min<std::size_t>(size, 300), "short");
    if (n < size) fault("short-transfer");
    error_code ec;
    if (scripted_errors && chance(1, 8, "error")) { ec = asio::error::eof; fault("transport-error"); if (chance(1, 2, "none")) n = 0; }
    if (off + n > data.size()) data.resize(off + n, '.');
    std::size_t k = each_byte(b, n, [&](auto & c, std::size_t i)
    {
      if constexpr (std::is_same_v<Buf, io::mutable_buffer_sequence>) c = data[off + i];
      else data[off + i] = c;
    });
    ev("device: %s %zu at %llu%s", std::is_same_v<Buf, io::mutable_buffer_sequence> ? "read" : "write", k, (unsigned long long)off, ec ? ", error" : "");
    return {ec, k};
  }
  template<typename Buf, typename H>
  void start(std::uint64_t off, Buf b, H h)
  {
    auto slot = asio::get_associated_cancellation_slot(h);
    struct st_t { device * d; std::uint64_t off; Buf b; std::optional<H> h; std::uint64_t ext = 0;
      void fin(error_code ec, std::size_t n) { auto hh = std::move(*h); h.reset(); auto ex = asio::get_associated_executor(hh); asio::dispatch(ex, [hh = std::move(hh), ec, n]() mutable { std::move(hh)(ec, n); }); } };
    auto st = std::make_shared<st_t>(st_t{this, off, b, std::optional<H>(std::move(h))});
    if (chance(1, 3, "post")) { asio::post(*W->ctx, [st] { auto [ec, n] = st->d->move(st->off, st->b); st->fin(ec, n); }); return; }
    st->ext = W->add([st] { if (!st->h) return; st->ext = 0; auto [ec, n] = st->d->move(st->off, st->b); st->fin(ec, n); });
    if (slot.is_connected())
      slot.assign([w = std::weak_ptr<st_t>(st)](asio::cancellation_type)
      {
        auto st = w.lock();
        if (!st || !st->ext || !W->remove(st->ext)) return;
        st->ext = 0;
        asio::post(*W->ctx, [st] { st->fin(asio::error::operation_aborted, 0); });
      });
  }
  static void init_w(void * t, std::uint64_t o, io::const_buffer_sequence b, cobalt::completion_handler<error_code, std::size_t> h) { static_cast<device *>(t)->start(o, b, std::move(h)); }
  static void init_r(void * t, std::uint64_t o, io::mutable_buffer_sequence b, cobalt::completion_handler<error_code, std::size_t> h) { static_cast<device *>(t)->start(o, b, std::move(h)); }
  static void try_w(void * t, std::uint64_t o, io::const_buffer_sequence b, cobalt::handler<error_code, std::size_t> h) { if (chance(1, 3, "ready")) { auto [ec, n] = static_cast<device *>(t)->move(o, b); h(ec, n); } }
  static void try_r(void * t, std::uint64_t o, io::mutable_buffer_sequence b, cobalt::handler<error_code, std::size_t> h) { if (chance(1, 3, "ready")) { auto [ec, n] = static_cast<device *>(t)->move(o, b); h(ec, n); } }
  io::write_at_op write_some_at(std::uint64_t o, io::const_buffer_sequence b) override { return {o, b, this, init_w, try_w}; }
  io::read_at_op read_some_at(std::uint64_t o, io::mutable_buffer_sequence b) override { return {o, b, this, init_r, try_r}; }
};

// ---- the two ends -------------------------------------------------------------------
enum class link_t { pair, inet, pipe, scripted } lk;
struct end_t
{
  std::unique_ptr<io::stream_socket> s;
  std::unique_ptr<io::readable_pipe> r;
  std::unique_ptr<io::writable_pipe> w;
  std::unique_ptr<scripted> x;
  bool closed = false;
  bool can_read() const { return s || r || x; }
  bool can_write() const { return s || w || x; }
  bool exists() const { return s || r || w || x; }
  io::read_op read_some(io::mutable_buffer_sequence b) { return s ? s->read_some(b) : r ? r->read_some(b) : x->read_some(b); }
  io::write_op write_some(io::const_buffer_sequence b) { return s ? s->write_some(b) : w ? w->write_some(b) : x->write_some(b); }
  io::read_all read(io::mutable_buffer_sequence b) { return s ? io::read(*s, b) : r ? io::read(*r, b) : io::read(*x, b); }
  io::write_all write(io::const_buffer_sequence b) { return s ? io::write(*s, b) : w ? io::write(*w, b) : io::write(*x, b); }
} ends[2];
struct setup { bool cancels, closes, resets, fails, both; } cfg;
bool ending = false;

bool composed_pending(int e) { for (auto & [a, p] : ops) if (p.active && p.end == e && p.composed()) return true; return false; }
bool any_pending(int e) { for (auto & [a, p] : ops) if (p.active && p.end == e) return true; return false; }

bool raced_pending(int e) { for (auto & [a, p] : ops) if (p.active && p.end == e && p.raced) return true; return false; }
void gone_all(int e) { for (auto & [a, p] : ops) if (p.active && p.end == e) p.gone = true; }

void ask_all(int e, bool close) { for (auto & [a, p] : ops) if (p.active && p.end == e) { asked(p, false); if (close) p.by_close = true; } }
void do_cancel(int e)
{
  auto & n = ends[e];
  if (!n.exists() || n.x) return;
  ask_all(e, false);
  ev("end %d: cancel()", e);
  fault("cancel-object");
  auto r = n.s ? n.s->cancel() : n.r ? n.r->cancel() : n.w->cancel();
  SIM_CHECK(bool(r) || n.closed, "io:cancel-error", "cancel() failed: %s", r.error().message().c_str());
}
void do_close(int e)
{
  auto & n = ends[e];
  if (!n.exists() || n.x) return;
  ask_all(e, true);
  ev("end %d: close()", e);
  fault("close");
  n.closed = true;
  dirs[e].wclosed = true; dirs[1 - e].rclosed = true;
  auto r = n.s ? n.s->close() : n.r ? n.r->close() : n.w->close();
  SIM_CHECK(bool(r), "io:close-error", "close() failed: %s", r.error().message().c_str());
  SIM_CHECK(!(n.s ? n.s->is_open() : n.r ? n.r->is_open() : n.w->is_open()), "io:close-open", "is_open() after close()");
}
void do_destroy(int e)
{
  auto & n = ends[e];
  // a composed transfer uses its stream until it ends
  if (!n.exists() || n.x || composed_pending(e) || raced_pending(e)) return;
  ask_all(e, true);
  gone_all(e);
  ev("end %d: destroyed", e);
  fault("destroy-object");
  n.closed = true;
  dirs[e].wclosed = true; dirs[1 - e].rclosed = true;
  n.s.reset(); n.r.reset(); n.w.reset();
}
// gives the descriptor up, and wraps it again
void do_release(int e)
{
  auto & n = ends[e];
  if (!n.exists() || n.x || composed_pending(e) || n.closed) return;
  ask_all(e, false);
  bool same = chance(1, 2, "same") || raced_pending(e);
  if (!same) gone_all(e);
  ev("end %d: release() and assign()", e);
  fault("release");
  if (n.s)
  {
    auto h = n.s->release();
    SIM_CHECK(bool(h) && !n.s->is_open(), "io:release", "release() failed");
    if (!h) return;
    if (same) { auto r = n.s->assign(lk == link_t::inet ? io::protocol_type(io::tcp) : io::protocol_type(io::local_stream), *h); SIM_CHECK(bool(r), "io:assign", "assign() failed: %s", r.error().message().c_str()); }
    else n.s = std::make_unique<io::stream_socket>(*h, lk == link_t::inet ? io::protocol_type(io::tcp) : io::protocol_type(io::local_stream));
  }
  else if (n.r)
  {
    auto h = n.r->release();
    SIM_CHECK(bool(h) && !n.r->is_open(), "io:release", "release() failed");
    if (!h) return;
    if (same) { auto r = n.r->assign(*h); SIM_CHECK(bool(r), "io:assign", "assign() failed: %s", r.error().message().c_str()); }
    else n.r = std::make_unique<io::readable_pipe>(*h);
  }
  else
  {
    auto h = n.w->release();
    SIM_CHECK(bool(h) && !n.w->is_open(), "io:release", "release() failed");
    if (!h) return;
    if (same) { auto r = n.w->assign(*h); SIM_CHECK(bool(r), "io:assign", "assign() failed: %s", r.error().message().c_str()); }
    else n.w = std::make_unique<io::writable_pipe>(*h);
  }
}
void do_move(int e)
{
  auto & n = ends[e];
  if (!n.exists() || n.x || any_pending(e)) return;
  ev("end %d: moved", e);
  if (n.s) n.s = std::make_unique<io::stream_socket>(std::move(*n.s));
  else if (n.r) n.r = std::make_unique<io::readable_pipe>(std::move(*n.r));
  else n.w = std::make_unique<io::writable_pipe>(std::move(*n.w));
}
void do_shutdown(int e)
{
  auto & n = ends[e];
  if (!n.s || n.closed) return;
  int how = (int)choose(3, "how");
  ev("end %d: shutdown(%d)", e, how);
  fault("shutdown");
  auto r = n.s->shutdown(how == 0 ? io::socket::shutdown_type::shutdown_send : how == 1 ? io::socket::shutdown_type::shutdown_receive : io::socket::shutdown_type::shutdown_both);
  SIM_CHECK(bool(r), "io:shutdown-error", "shutdown failed: %s", r.error().message().c_str());
  if (how != 1) dirs[e].wclosed = true;
  if (how != 0) dirs[1 - e].rclosed = true;
}

// ---- judging a completion --------------------------------------------------------------
void judge(actor & a, error_code ec, std::size_t n, std::uint64_t h0)
{
  auto & p = ops[a.id];
  auto & d = dirs[p.dir];
  p.active = false;
  std::uint64_t moved = p.now() - p.before;
  ev("actor %d: %s %zu of %zu byte(s)%s%s", a.id, oname(p.k), n, p.total, ec ? ": " : "", ec ? ec.message().c_str() : "");
  if (p.k != okind::wait)
  {
    SIM_CHECK(n <= p.total, "bytes:count", "%s of %zu bytes reports %zu", oname(p.k), p.total, n);
    // exact: what the transport moved is what's reported
    if (moved != n)
    {
      const char * cls = p.composed() ? "xfer:count" : "io:count";
      SIM_CHECK(false, cls, "%s reported %zu byte(s)%s%s, the transport moved %llu", oname(p.k), n, ec ? " and " : "", ec ? ec.message().c_str() : "", (unsigned long long)moved);
    }
    if (!ec)
    {
      if (p.composed()) SIM_CHECK(n == p.total, "xfer:incomplete", "%s succeeded with %zu of %zu byte(s)", oname(p.k), n, p.total);
      else if (!d.scripted) SIM_CHECK(n > 0 || p.total == 0, "io:empty", "%s of %zu bytes succeeded without any", oname(p.k), p.total);
    }
    else if (!p.composed() && ec == asio::error::operation_aborted && !d.scripted)
      SIM_CHECK(n == 0, "io:abort-moved", "%s reported operation_aborted but moved %zu byte(s)", oname(p.k), n);
  }
  if (p.by_signal && !d.scripted && !p.raced)
    SIM_CHECK(p.now() == p.at_signal || p.k == okind::wait, p.composed() ? "xfer:after-cancel" : "io:after-cancel", "%s went on after it was cancelled", oname(p.k));
  if (ec == asio::error::operation_aborted)
    SIM_CHECK(p.asked, p.composed() ? "xfer:spurious-abort" : "io:spurious-abort", "%s was aborted although nobody cancelled it", oname(p.k));
  else if (ec && !d.scripted)
  {
    bool legit = false;
    if (ec == asio::error::eof) { legit = !p.write(); if (legit && !d.broken && !d.rclosed) SIM_CHECK(d.wclosed && d.consumed() == d.sent(), "bytes:eof", "end of file after %llu of %llu bytes", (unsigned long long)d.consumed(), (unsigned long long)d.sent()); }
    else if (ec == asio::error::connection_reset) legit = dirs[0].broken || dirs[1].broken || d.wclosed || d.rclosed;
    else if (ec == asio::error::broken_pipe) legit = p.write() && (d.rclosed || d.wclosed || d.broken);
    else if (ec == asio::error::bad_descriptor) legit = ends[p.end].closed;
    for (auto & i : vk::failures) if (i.hit && i.err == ec.value()) { legit = true; i.err = -1; break; }
    SIM_CHECK(legit, p.composed() ? "xfer:error" : "io:error", "%s failed with %s for no reason", oname(p.k), ec.message().c_str());
  }
  if (!ec && p.asked && !p.raced && !d.scripted && !p.moved && p.k != okind::wait && p.total > 0 && !(p.composed() && !p.by_signal))
    SIM_CHECK(false, p.composed() ? "xfer:cancel-ignored" : "io:cancel-ignored", "%s was cancelled while pending and still transferred %zu byte(s)", oname(p.k), n);
  if (ec && ec != asio::error::operation_aborted) (p.write() ? d.werr : d.rerr) = true;
  if (p.asked) probe(ec ? "asked-aborted" : "asked-completed");
  (void)h0;
}

void begin(actor & a, okind k, int dir, int end, std::size_t total)
{
  auto & p = ops[a.id];
  p = {};
  p.active = true; p.k = k; p.dir = dir; p.end = end; p.total = total; p.actor = a.id;
  p.before = p.now();
}

// cuts n bytes into up to 5 buffers, some of them empty
template<typename B>
std::vector<B> cut(unsigned char * base, std::size_t n)
{
  std::vector<B> r;
  int parts = range(1, 5, "parts");
  std::size_t at = 0;
  for (int i = 0; i < parts; i++)
  {
    std::size_t k = i + 1 == parts ? n - at : chance(1, 5, "empty") ? 0 : std::min<std::size_t>(n - at, choose((std::uint32_t)n + 1, "cut"));
    r.push_back(B(base + at, k));
    at += k;
  }
  return r;
}
std::size_t random_size() { switch (choose(6, "size")) { case 0: return 1; case 1: return 0; case 2: return 1 + choose(8); case 3: return 1 + choose(40); case 4: return 1 + choose(300); default: return 1 + choose(6000); } }


proc run_writer(actor & a, int e, int n)
{
  int dir = e;
  for (int k = 0; k < n && ends[e].can_write(); k++)
  {
    std::size_t size = random_size();
    std::vector<unsigned char> mem(size + 16, 0xEE);
    for (std::size_t i = 0; i < size; i++) mem[8 + i] = f(dir, dirs[dir].sent() + i);
    auto bufs = cut<asio::const_buffer>(mem.data() + 8, size);
    io::const_buffer_sequence seq = bufs.size() == 1 ? io::const_buffer_sequence(bufs[0]) : io::const_buffer_sequence(bufs);
    bool all = chance(1, 2, "all");
    begin(a, all ? okind::write_all : okind::write_some, dir, e, size);
    ev("actor %d: end %d %s %zu byte(s) in %zu buffers", a.id, e, all ? "write" : "write_some", size, bufs.size());
    auto h0 = W->handler_no;
    int fm = (int)choose(3, "form");
    if (fm == 0)
    {
      if (all) { auto [ec, m] = co_await cobalt::as_tuple(ends[e].write(seq)); judge(a, ec, m, h0); }
      else { auto [ec, m] = co_await cobalt::as_tuple(ends[e].write_some(seq)); judge(a, ec, m, h0); }
    }
    else if (fm == 1)
    {
      auto op = ends[e].write_some(seq);
      if (all) { io::write_all op(ends[e].write_some(seq)); auto [ec, m] = co_await cobalt::as_tuple(op); judge(a, ec, m, h0); }
      else { auto [ec, m] = co_await cobalt::as_tuple(op); judge(a, ec, m, h0); }
    }
    else
    {
      // the count is not available from an exception: take what the transport says
      error_code ec; std::size_t m = 0; bool threw = false;
      try { if (all) m = co_await ends[e].write(seq); else m = co_await ends[e].write_some(seq); }
      catch (boost::system::system_error & se) { ec = se.code(); threw = true; }
      if (threw) m = std::min<std::uint64_t>(size, ops[a.id].now() - ops[a.id].before);
      judge(a, ec, m, h0);
    }
    if (chance(1, 4, "pause")) co_await yield_{chance(1, 2, "ext")};
  }
}

proc run_reader(actor & a, int e, int n)
{
  int dir = 1 - e;
  for (int k = 0; k < n && ends[e].can_read(); k++)
  {
    if (ends[e].s && chance(1, 8, "wait"))
    {
      begin(a, okind::wait, dir, e, 0);
      ev("actor %d: end %d wait", a.id, e);
      auto h0 = W->handler_no;
      auto [ec] = co_await cobalt::as_tuple(ends[e].s->wait());
      judge(a, ec, 0, h0);
      if (!ec && h0 == W->handler_no) SIM_CHECK(!dirs[dir].q->avail.empty(), "io:wait", "wait() completed at once with nothing to read");
      if (!ends[e].can_read()) break;
      if (ends[e].s && !ends[e].closed)
      {
        auto r = ends[e].s->bytes_readable();
        SIM_CHECK(r && *r == dirs[dir].q->avail.size(), "io:bytes-readable", "bytes_readable() is %zu instead of %zu", r ? *r : 0, dirs[dir].q->avail.size());
      }
    }
    std::size_t size = random_size();
    std::vector<unsigned char> mem(size + 16, 0xEE);
    auto bufs = cut<asio::mutable_buffer>(mem.data() + 8, size);
    io::mutable_buffer_sequence seq = bufs.size() == 1 ? io::mutable_buffer_sequence(bufs[0]) : io::mutable_buffer_sequence(bufs);
    bool all = chance(1, 2, "all");
    std::uint64_t pos = dirs[dir].consumed();
    begin(a, all ? okind::read_all : okind::read_some, dir, e, size);
    ev("actor %d: end %d %s %zu byte(s) in %zu buffers", a.id, e, all ? "read" : "read_some", size, bufs.size());
    auto h0 = W->handler_no;
    std::size_t got = 0;
    error_code ec;
    int fm = (int)choose(3, "form");
    if (fm == 0)
    {
      if (all) { auto [ec_, m] = co_await cobalt::as_tuple(ends[e].read(seq)); ec = ec_; got = m; }
      else { auto [ec_, m] = co_await cobalt::as_tuple(ends[e].read_some(seq)); ec = ec_; got = m; }
    }
    else if (fm == 1)
    {
      auto op = ends[e].read_some(seq);
      if (all) { io::read_all op2(op); auto [ec_, m] = co_await cobalt::as_tuple(op2); ec = ec_; got = m; }
      else { auto [ec_, m] = co_await cobalt::as_tuple(op); ec = ec_; got = m; }
    }
    else
    {
      bool threw = false;
      try { if (all) got = co_await ends[e].read(seq); else got = co_await ends[e].read_some(seq); }
      catch (boost::system::system_error & se) { ec = se.code(); threw = true; }
      if (threw) got = std::min<std::uint64_t>(size, ops[a.id].now() - ops[a.id].before);
    }
    judge(a, ec, got, h0);
    for (std::size_t i = 0; i < got; i++)
      SIM_CHECK(mem[8 + i] == f(dir, pos + i), "bytes:wrong", "byte %llu of the stream arrived as something else", (unsigned long long)(pos + i));
    for (std::size_t i = 0; i < mem.size(); i++)
      if (i < 8 || i >= 8 + got) SIM_CHECK(mem[i] == 0xEE, "bytes:outside", "%s of %zu byte(s) wrote byte %zd of the caller's memory after %zu were read", all ? "read" : "read_some", size, (ssize_t)i - 8, got);
    if (ec == asio::error::eof && !dirs[dir].scripted && chance(1, 2, "stop")) break;
    if (chance(1, 4, "pause")) co_await yield_{chance(1, 2, "ext")};
  }
}

// a read with a timeout: the losing operation must have consumed nothing, or deliver what it did
proc run_race(actor & a, int e, int n)
{
  int dir = 1 - e;
  for (int k = 0; k < n && ends[e].can_read(); k++)
  {
    std::size_t size = 1 + choose(40, "size");
    std::vector<unsigned char> mem(size, 0xEE);
    std::uint64_t pos = dirs[dir].consumed();
    begin(a, okind::read_some, dir, e, size);
    ops[a.id].raced = true;
    ev("actor %d: end %d read_some %zu byte(s) with a timeout", a.id, e, size);
    auto op = ends[e].read_some(asio::buffer(mem));
    sim_op t(random_script(0, false, true));
    auto r = co_await cobalt::as_result(cobalt::race(op, t));
    auto & p = ops[a.id];
    p.active = false;
    std::size_t moved = p.now() - p.before;
    if (!r.has_error())
    {
      if (r->index() == 0)
      {
        std::size_t m = boost::variant2::get<0>(*r);
        ev("actor %d: read %zu", a.id, m);
        SIM_CHECK(m == moved && m > 0, "io:count", "read_some in a race reports %zu byte(s), %zu were consumed", m, moved);
        for (std::size_t i = 0; i < m; i++) SIM_CHECK(mem[i] == f(dir, pos + i), "bytes:wrong", "byte %llu of the stream arrived as something else", (unsigned long long)(pos + i));
      }
      else { ev("actor %d: timeout, %zu moved", a.id, moved); probe("timeout"); if (moved) probe("loser-consumed"); }
    }
    else { ev("actor %d: race failed", a.id); if (classify(r.error()) == x_eof) break; }
    // what the losing read took is in the buffer
    for (std::size_t i = 0; i < moved; i++) SIM_CHECK(mem[i] == f(dir, pos + i), "bytes:wrong", "byte %llu of the stream arrived as something else", (unsigned long long)(pos + i));
  }
}

proc run_device(actor & a, device & d, int id, int n)
{
  // each actor has a region of its own
  std::uint64_t base = 100 + 500 * id;
  std::string mine(400, '.');
  for (int k = 0; k < n; k++)
  {
    std::uint64_t off = choose(390, "off");
    std::size_t size = std::min<std::size_t>(400 - off, choose(3, "big") ? choose(30, "size") : choose(400, "size"));
    std::string mem(size + 16, '#');
    bool wr = chance(1, 2, "write");
    auto h = W->handler_no; (void)h;
    if (wr) for (std::size_t i = 0; i < size; i++) mem[8 + i] = (char)('a' + mix(a.id * 131 + k, i) % 26);
    error_code ec; std::size_t got;
    auto & p = ops[a.id];
    p = {}; p.active = true; p.k = wr ? okind::write_all : okind::read_all; p.total = size; p.raced = true;
    ev("actor %d: %s_at %llu, %zu bytes", a.id, wr ? "write" : "read", (unsigned long long)(base + off), size);
    if (wr)
    {
      auto bufs = cut<asio::const_buffer>((unsigned char *)mem.data() + 8, size);
      auto [e, m] = co_await cobalt::as_tuple(io::write_at(d, base + off, bufs));
      ec = e; got = m;
    }
    else
    {
      auto bufs = cut<asio::mutable_buffer>((unsigned char *)mem.data() + 8, size);
      auto [e, m] = co_await cobalt::as_tuple(io::read_at(d, base + off, bufs));
      ec = e; got = m;
    }
    p.active = false;
    ev("actor %d: %zu of %zu %s", a.id, got, size, ec ? ec.message().c_str() : "");
    SIM_CHECK(got <= size && (ec || got == size), "xfer:incomplete", "%s_at of %zu bytes reports %zu", wr ? "write" : "read", size, got);
    if (ec == asio::error::operation_aborted) SIM_CHECK(p.asked, "xfer:spurious-abort", "aborted although nobody cancelled it");
    if (wr) mine.replace(off, got, mem, 8, got);
    SIM_CHECK(d.data.compare(base, 400, mine) == 0, "xfer:at", "%s_at changed other bytes of the device, or not those it reported", wr ? "write" : "read");
    if (!wr) SIM_CHECK(mem.compare(8, got, mine, off, got) == 0, "xfer:at", "read_at returned other bytes than those at its offset");
    for (std::size_t i = 0; i < mem.size(); i++) if (i < 8 || i >= 8 + (wr ? size : got)) SIM_CHECK(mem[i] == '#', "bytes:outside", "%s_at touched memory outside of what it reported", wr ? "write" : "read");
  }
}

void check_idle()
{
  for (auto & [a, p] : ops)
  {
    if (!p.active) continue;
    auto & d = dirs[p.dir];
    if (d.scripted || p.raced) continue;
    // composed transfers may have been between two steps when cancel() was called
    if (p.asked && (!p.composed() || p.by_signal || p.by_close)) SIM_CHECK(false, p.composed() ? "xfer:cancel-lost" : "io:cancel-lost", "%s of actor %d is still pending after it was cancelled", oname(p.k), a);
    if (p.write() ? d.werr : d.rerr) continue;
    if (p.write())
      SIM_CHECK(!(d.q->room() > 0 || d.q->rd_closed) || p.total == 0, "io:stuck", "%s of actor %d is pending although it could write", oname(p.k), a);
    else
      SIM_CHECK(d.q->avail.empty() && !d.q->fin_seen && !d.q->rd_err, "io:stuck", "%s of actor %d is pending although %zu byte(s)%s could be read", oname(p.k), a, d.q->avail.size(), d.q->fin_seen ? " and the end of file" : "");
  }
}
}

void sim_main()
{
  cfg = {chance(1, 2, "cancels"), chance(1, 3, "closes"), chance(1, 8, "resets"), chance(1, 4, "fails"), chance(1, 2, "both")};
  vk::enabled = true;
  vk::cfg.time_passes = false;
  static const std::size_t caps[] = {65536, 4096, 64, 7, 1};
  vk::cfg.stream_cap = caps[choose(5, "cap")];
  if (chance(1, 3, "eintr")) vk::cfg.eintr = 4;
  if (chance(1, 3, "again")) vk::cfg.again = 8;
  scripted_errors = chance(1, 2, "errors");
#if !defined(BOOST_COBALT_NO_PMR)
  ledger led("thread default");
  auto * old = cobalt::this_thread::set_default_resource(&led);
#endif
  auto wp = std::make_unique<world>();
  W = wp.get();
  W->kern_actions = vk::actions; W->kern_act = vk::act; W->kern_timer = [] { return false; }; W->kern_advance = vk::advance;
  static const link_t lks[] = {link_t::pair, link_t::inet, link_t::pipe, link_t::scripted};
  lk = lks[choose(4, "link")];
  int fd[2] = {-1, -1};
  dirs[0].id = 0; dirs[1].id = 1;
  device dev;
  bool use_dev = false;
  switch (lk)
  {
    case link_t::pair:
    {
      auto p = io::make_pair(io::local_stream);
      if (!p) harness_error("make_pair: %s", p.error().message().c_str());
      fd[0] = p->first.native_handle(); fd[1] = p->second.native_handle();
      ends[0].s = std::make_unique<io::stream_socket>(std::move(p->first));
      ends[1].s = std::make_unique<io::stream_socket>(std::move(p->second));
      break;
    }
    case link_t::inet:
    {
      auto p = vk::make_stream_pair(AF_INET);
      fd[0] = p.first; fd[1] = p.second;
      for (int i = 0; i < 2; i++) ends[i].s = std::make_unique<io::stream_socket>(fd[i], io::tcp);
      break;
    }
    case link_t::pipe:
    {
      auto p = io::pipe();
      if (!p) harness_error("pipe: %s", p.error().message().c_str());
      fd[1] = p->first.native_handle(); fd[0] = p->second.native_handle();
      ends[1].r = std::make_unique<io::readable_pipe>(std::move(p->first));
      ends[0].w = std::make_unique<io::writable_pipe>(std::move(p->second));
      break;
    }
    case link_t::scripted:
      for (int i = 0; i < 2; i++) { ends[i].x = std::make_unique<scripted>(i); dirs[i].scripted = true; }
      use_dev = chance(1, 3, "device");
      break;
  }
  if (fd[0] >= 0) { dirs[0].q = vk::get(fd[0])->out; dirs[1].q = vk::get(fd[1])->out; if (!dirs[0].q) harness_error("no queue"); }
  if (lk != link_t::scripted) W->on_idle = check_idle;
  if (cfg.fails && lk != link_t::scripted)
  {
    static const char * names[] = {"send", "recv"}; static const char * pnames[] = {"write", "read"};
    static const int errs[] = {ETIMEDOUT, EIO, ENOBUFS, EHOSTUNREACH};
    for (int k = range(1, 2, "nfails"); k > 0; k--) vk::fail((lk == link_t::pipe ? pnames : names)[choose(2)], (int)choose(8, "nth"), errs[choose(4)]);
  }
  std::vector<std::unique_ptr<actor>> as;
  auto add = [&](auto fn) { as.push_back(std::make_unique<actor>((int)as.size())); asio::post(W->ctx->get_executor(), [a = as.back().get(), fn] { fn(*a); }); };
  int len = range(1, 6, "len");
  if (use_dev) for (int i = range(1, 3, "ndev") - 1; i >= 0; i--) add([&dev, i, len](actor & a) { run_device(a, dev, i, len); });
  else
    for (int dir = 0; dir < (lk != link_t::pipe && cfg.both ? 2 : 1); dir++)
    {
      add([dir, len](actor & a) { run_writer(a, dir, len); });
      if (lk != link_t::scripted && chance(1, 8, "race")) add([dir, len](actor & a) { run_race(a, 1 - dir, len); });
      else add([dir, len](actor & a) { run_reader(a, 1 - dir, len + range(0, 3, "more")); });
    }
  int n = (int)as.size();
  if (cfg.cancels)
    for (int k = range(1, 3, "ncancel"); k > 0; k--)
    {
      auto * a = as[choose(n, "victim")].get();
      int e = (int)choose(2, "end");
      bool object = lk != link_t::scripted && chance(1, 2, "object");
      W->add([a, e, object]
      {
        if (object) { do_cancel(e); return; }
        static const asio::cancellation_type cts[] = {asio::cancellation_type::terminal, asio::cancellation_type::partial, asio::cancellation_type::total, asio::cancellation_type::all};
        auto & p = ops[a->id];
        if (a->finished || !a->started || (p.active && p.gone)) return;
        if (p.active) { asked(p, true); fault("cancel-awaiter"); }
        ev("cancel actor %d", a->id);
        a->sig.emit(cts[choose(4, "ct")]);
      }, choose(2, "direct"));
    }
  if (cfg.closes && lk != link_t::scripted)
    for (int k = range(1, 2, "nclose"); k > 0; k--)
    {
      int e = (int)choose(2, "end"), what = (int)choose(5, "what");
      W->add([e, what] { what == 0 ? do_close(e) : what == 1 ? do_shutdown(e) : what == 2 ? do_destroy(e) : what == 3 ? do_release(e) : do_move(e); }, choose(2, "direct"));
    }
  if (cfg.resets && (lk == link_t::pair || lk == link_t::inet))
  {
    auto d = vk::get(fd[0]);
    W->add([w = std::weak_ptr<vk::desc>(d)] { if (auto d = w.lock()) { dirs[0].broken = dirs[1].broken = true; dirs[0].wclosed = dirs[1].wclosed = dirs[0].rclosed = dirs[1].rclosed = true; vk::reset_stream(d, ECONNRESET); } }, true);
  }
  bool early = chance(1, 6, "early");
  if (early)
  {
    int steps = range(0, 60, "steps");
    while (steps-- > 0 && W->step_once());
    fault("destroy-context");
  }
  else
  {
    W->run();
    // whoever still waits does so for a reason (checked when idle); end it
    for (int e = 0; e < 2; e++) if (!ends[e].closed) do_close(e);
    for (auto & a : as) if (!a->finished && lk == link_t::scripted) a->sig.emit(asio::cancellation_type::terminal);
    W->run();
    for (auto & a : as) SIM_CHECK(a->finished, "io:hang", "actor %d never resumed from its %s", a->id, oname(ops[a->id].k));
  }
  W->guard.reset();
  for (auto & e : ends) { e.s.reset(); e.r.reset(); e.w.reset(); }
  wp.reset();
  for (auto & a : as) SIM_CHECK(a->finished || a->destroyed || !a->started, "io:leak", "awaiting actor %d leaked", a->id);
  for (auto & a : as) a->sig.slot().clear();
#if !defined(BOOST_COBALT_NO_PMR)
  SIM_CHECK(led.live.empty(), "memory:leak", "%zu allocation(s) never returned", led.live.size());
  cobalt::this_thread::set_default_resource(old);
#endif
  auto fds = vk::open_fds();
  SIM_CHECK(fds.empty(), "io:fd-leak", "descriptor %s still open at the end", fds.empty() ? "" : vk::describe(fds[0]).c_str());
  W = nullptr;
}
