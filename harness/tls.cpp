// P25: TLS streams over a transport that splits, delays, corrupts, truncates and resets.
#include "../sim/coro.hpp"
#include "../sim/vk.hpp"
#include "tls_key.hpp"
#include <boost/cobalt/io/ssl.hpp>
#include <boost/cobalt/io/stream_socket.hpp>
#include <boost/cobalt/op.hpp>
#include <openssl/rand.h>
#include <openssl/ssl.h>
#include <cstddef>
#include <cstring>
#include <sys/socket.h>
#include <sys/un.h>
using namespace sim;
namespace io = boost::cobalt::io;
using tls = io::ssl::stream;

const char * const sim_harness_name = "tls";
const char * sim_class_owner(const char * c)
{
  std::string s = c;
  if (s.rfind("tls:", 0) == 0) return "P25";
  if (s.rfind("fd:", 0) == 0) return "P23,P25";
  if (s.rfind("memory:", 0) == 0) return "P17";
  return "";
}

namespace
{
// ---- randomness of the library ------------------------------------------------
std::uint64_t rnd = 88172645463325252ull;
int rnd_bytes(unsigned char * b, int n) { for (int i = 0; i < n; i++) { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; b[i] = (unsigned char)(rnd >> 24); } return 1; }
int rnd_seed(const void *, int) { return 1; }
int rnd_add(const void *, int, double) { return 1; }
int rnd_status() { return 1; }
RAND_METHOD meth{rnd_seed, rnd_bytes, nullptr, rnd_add, rnd_bytes, rnd_status};

struct contexts
{
  std::vector<io::ssl::context> server, trusting, doubting;
  contexts()
  {
    RAND_set_rand_method(&meth);
    for (auto m : {asio::ssl::context::tlsv12, asio::ssl::context::tlsv13})
    {
      server.emplace_back(m); trusting.emplace_back(m); doubting.emplace_back(m);
      server.back().use_certificate_chain(asio::buffer(tls_chain, sizeof tls_chain - 1));
      server.back().use_private_key(asio::buffer(tls_key, sizeof tls_key - 1), asio::ssl::context::pem);
      trusting.back().add_certificate_authority(asio::buffer(tls_root, sizeof tls_root - 1));
    }
    // initialise what the library sets up lazily, once for all runs
    SSL * c = SSL_new(trusting[0].native_handle()), * s = SSL_new(server[0].native_handle());
    BIO * a, * b; BIO_new_bio_pair(&a, 0, &b, 0);
    SSL_set_bio(c, a, a); SSL_set_bio(s, b, b); SSL_set_connect_state(c); SSL_set_accept_state(s);
    for (int i = 0; i < 20; i++) { SSL_do_handshake(c); SSL_do_handshake(s); }
    SSL_free(c); SSL_free(s);
  }
} ctxs;

// ---- the two sides ---------------------------------------------------------------
struct side
{
  std::unique_ptr<tls> s;
  std::weak_ptr<vk::desc> k;
  bool done_hs = false, hs_failed = false, shut = false, closed = false;
  std::size_t plain = 0;                 // plain bytes it sends first
  std::size_t total = 0, sent = 0, tried = 0, received = 0; // bytes over TLS
  bool wdone = false, rdone = false, writing_failed = false, reading_failed = false, finished = false;
  int pending = 0;
  int busy = 0;
  actor * ender = nullptr;
};
side S[2];
struct { bool disturbed, corrupt; int verify, depth; bool cb_result; int cb_calls; int tls13; bool closes_early; bool plain_done[2]; } C;

unsigned char expected(int from, std::size_t i) { static const char mark[] = "cobalt-data:"; std::size_t l = i / 16, o = i % 16; return o < 12 ? mark[o] : (unsigned char)('0' + (l >> (o - 12) * 5 & 31) + from * 40); }
unsigned char plain_byte(int from, std::size_t i) { return (unsigned char)(128 + from + i * 7 % 100); }
int transport_calls() { return vk::counts["send"] + vk::counts["recv"]; }

// application data must never cross the transport in the clear
void check_wire()
{
  for (int i = 0; i < 2; i++)
  {
    auto k = S[i].k.lock();
    if (!k || !k->in) continue;
    std::string w(k->in->avail.begin(), k->in->avail.end());
    w.append(k->in->flight.begin(), k->in->flight.end());
    SIM_CHECK(w.find("cobalt-data:") == w.npos, "tls:plaintext", "application data of side %d crosses the transport unencrypted", 1 - i);
  }
}
bool stop_ok() { return C.disturbed; }

void finish_side(int i, bool lost)
{
  auto & me = S[i];
  me.finished = true;
  if (!me.closed && (lost || C.closes_early || !chance(1, 4, "stay open"))) { me.closed = true; (void)me.s->close(); ev("side %d: closed", i); }
}
proc run_end(actor & a, int i)
{
  auto & me = S[i]; auto & other = S[1 - i];
  {
    // the end
    if (!me.closed && !me.writing_failed && (!me.reading_failed || other.shut))
    {
      if (i == 1 || !C.closes_early)
      {
        me.shut = true;
        me.pending++;
        auto [ec] = co_await cobalt::as_tuple(me.s->shutdown());
        me.pending--;
        ev("side %d: shutdown: %s", i, ec ? ec.message().c_str() : "ok");
        if (!ec && !stop_ok()) SIM_CHECK(other.shut, "tls:shutdown", "shutdown succeeded before the peer shut down");
        if (!ec) probe("shut down");
      }
      else probe("closed without shutdown");
    }
  }
  finish_side(i, false);
  (void)a;
}
void side_idle(int i) { asio::post(W->ctx->get_executor(), [i] { run_end(*S[i].ender, i); }); }
proc run_reader(actor & a, int i)
{
  auto & me = S[i]; auto & other = S[1 - i];
  while (!me.closed)
  {
    bool to_end = me.received >= other.total;
    static const std::size_t sizes[] = {1, 5, 100, 1000, 20000};
    std::size_t size = chance(1, 20, "zero") ? 0 : 1 + choose(sizes[choose(5, "size")], "n");
    std::vector<unsigned char> mem(size + 16, '#');
    std::array<io::mutable_buffer, 3> parts;
    std::size_t cut1 = choose(size + 1, "cut"), cut2 = cut1 + choose(size - cut1 + 1, "cut");
    parts = {io::mutable_buffer(mem.data() + 8, cut1), io::mutable_buffer(mem.data() + 8 + cut1, cut2 - cut1), io::mutable_buffer(mem.data() + 8 + cut2, size - cut2)};
    bool multi = chance(1, 2, "multi");
    me.pending++;
    auto [ec, n] = multi ? co_await cobalt::as_tuple(me.s->read_some(parts)) : co_await cobalt::as_tuple(me.s->read_some(io::buffer(mem.data() + 8, size)));
    me.pending--;
    ev("side %d: read %zu of %zu: %s", i, n, size, ec ? ec.message().c_str() : "ok");
    SIM_CHECK(n <= size, "tls:count", "read of %zu bytes returned %zu", size, n);
    for (std::size_t j = 0; j < n; j++)
      SIM_CHECK(me.received + j < other.tried && mem[8 + j] == expected(1 - i, me.received + j), "tls:content", "side %d received byte %zu altered or never sent", i, me.received + j);
    for (std::size_t j = 0; j < mem.size(); j++) if (j < 8 || j >= 8 + n) if (mem[j] != '#') SIM_CHECK(j >= 8 && j < 8 + size, "tls:outside", "read touched memory outside its buffer");
    me.received += n;
    if (ec)
    {
      me.reading_failed = true;
      if (ec == error_code(asio::error::eof))
      {
        SIM_CHECK(other.shut, "tls:truncation", "side %d saw a regular end although its peer never shut down", i);
        SIM_CHECK(me.received == other.sent, "tls:lost", "side %d saw the end after %zu of %zu bytes", i, me.received, other.sent);
        probe("eof");
      }
      else SIM_CHECK(stop_ok() || (other.closed && !other.shut) || other.shut || me.closed || C.closes_early, "tls:spurious", "read failed: %s", ec.message().c_str());
      break;
    }
    if (to_end && n > 0) SIM_CHECK(false, "tls:content", "more bytes than were written");
    if (me.received >= other.total && other.done_hs && !chance(1, 2, "to the end")) break;
  }
  me.rdone = true;
  if (--me.busy == 0) side_idle(i);
  (void)a;
}
proc run_writer(actor & a, int i)
{
  auto & me = S[i];
  while (me.sent < me.total && !me.closed)
  {
    std::size_t want = std::min<std::size_t>(me.total - me.sent, 1 + choose(chance(1, 4, "big") ? 20000 : 300, "n"));
    std::vector<unsigned char> mem(want);
    for (std::size_t j = 0; j < want; j++) mem[j] = expected(i, me.sent + j);
    me.tried = me.sent + want;
    std::size_t cut = choose(want + 1, "cut");
    std::array<io::const_buffer, 2> parts{io::const_buffer(mem.data(), cut), io::const_buffer(mem.data() + cut, want - cut)};
    bool multi = chance(1, 2, "multi");
    me.pending++;
    auto [ec, n] = multi ? co_await cobalt::as_tuple(me.s->write_some(parts)) : co_await cobalt::as_tuple(me.s->write_some(io::buffer(mem.data(), want)));
    me.pending--;
    ev("side %d: wrote %zu of %zu: %s", i, n, want, ec ? ec.message().c_str() : "ok");
    if (ec)
    {
      me.writing_failed = true;
      SIM_CHECK(stop_ok() || me.closed || S[1 - i].closed || S[1 - i].shut || C.closes_early, "tls:spurious", "write failed: %s", ec.message().c_str());
      break;
    }
    SIM_CHECK(n > 0 && n <= want, "tls:count", "write of %zu bytes returned %zu", want, n);
    me.sent += n; me.tried = me.sent;
    if (chance(1, 6, "pause")) co_await yield_{chance(1, 2, "ext")};
  }
  me.wdone = true;
  if (--me.busy == 0) side_idle(i);
  (void)a;
}
void maybe_move(int i)
{
  if (!chance(1, 4, "move") || S[i].closed) return;
  if constexpr (std::is_move_constructible_v<tls>)
  {
    ev("side %d: moved", i);
    bool sec = S[i].s->secure();
    auto n = std::make_unique<tls>(std::move(*S[i].s));
    int h = n->native_handle();
    S[i].s = std::move(n);
    SIM_CHECK(S[i].s->secure() == sec && S[i].s->is_open() && S[i].s->native_handle() == h && vk::get(h) == S[i].k.lock(), "tls:move", "a moved stream lost its state");
  }
}

proc run_side(actor & a, int i, actor * rd, actor * wr)
{
  auto & me = S[i]; auto & other = S[1 - i];
  auto type = i == 0 ? tls::client : tls::server;
  bool lost = false;
  // plain bytes, one direction after the other
  for (int d = 0; d < 2 && !lost; d++)
  {
    std::size_t n = S[d].plain, at = 0;
    while (at < n && !lost && !me.closed)
    {
      std::vector<unsigned char> mem(n - at);
      me.pending++;
      if (d == i)
      {
        for (std::size_t j = 0; j < mem.size(); j++) mem[j] = plain_byte(i, at + j);
        auto [ec, k] = co_await cobalt::as_tuple(me.s->write_some(io::buffer(mem.data(), mem.size())));
        if (ec) { lost = true; SIM_CHECK(stop_ok(), "tls:spurious", "plain write failed: %s", ec.message().c_str()); }
        at += k;
      }
      else
      {
        auto [ec, k] = co_await cobalt::as_tuple(me.s->read_some(io::buffer(mem.data(), mem.size())));
        if (ec) { lost = true; SIM_CHECK(stop_ok(), "tls:spurious", "plain read failed: %s", ec.message().c_str()); }
        for (std::size_t j = 0; j < k; j++) SIM_CHECK(mem[j] == plain_byte(d, at + j), "tls:plain", "plain byte %zu differs before the handshake", at + j);
        at += k;
      }
      me.pending--;
    }
    if (n) probe("plain bytes");
  }
  if (me.pending) me.pending = 0;
  C.plain_done[i] = true;
  if (!lost && !me.closed)
  {
    maybe_move(i);
    SIM_CHECK(!me.s->secure(), "tls:state", "secure() before the handshake");
    if (chance(1, 4, "early shutdown"))
    {
      int before = transport_calls();
      auto [ec] = co_await cobalt::as_tuple(me.s->shutdown());
      SIM_CHECK(ec == error_code(asio::error::no_protocol_option), "tls:state", "shutdown of a plain stream reports \"%s\"", ec ? ec.message().c_str() : "success");
      SIM_CHECK(transport_calls() == before, "tls:state", "shutdown of a plain stream used the transport");
    }
    // the handshake
    if (i == 0 && C.verify) { auto r = me.s->set_verify_mode(io::ssl::verify::peer); SIM_CHECK(bool(r), "tls:verify", "set_verify_mode failed"); }
    if (i == 0 && C.verify >= 3) { auto r = me.s->set_verify_callback([](bool, auto &) { C.cb_calls++; return C.cb_result; }); SIM_CHECK(bool(r), "tls:verify", "set_verify_callback failed"); }
    if (i == 0 && C.depth >= 0) { auto r = me.s->set_verify_depth(C.depth); SIM_CHECK(bool(r), "tls:verify", "set_verify_depth failed"); }
    bool must_fail = C.verify == 2 || (C.verify == 3 && !C.cb_result) || (C.verify == 1 && C.depth == 0);
    error_code ec;
    std::vector<unsigned char> pre(400);
    std::size_t k = 0;
    if (i == 1 && chance(1, 3, "pre-read"))
    {
      me.pending++;
      std::size_t lim = 1 + choose(pre.size(), "lim");
      auto [e, n] = co_await cobalt::as_tuple(me.s->read_some(io::buffer(pre.data(), lim)));
      me.pending--;
      ev("side %d: read %zu raw bytes: %s", i, n, e ? e.message().c_str() : "ok");
      ec = e; k = n;
    }
    if (!ec)
    {
      bool early = chance(1, 3, "op early");
      me.pending++;
      if (k)
      {
        auto [e, n] = co_await cobalt::as_tuple(me.s->handshake(type, io::buffer(pre.data(), k)));
        ec = e;
        if (!e) SIM_CHECK(n == k, "tls:count", "handshake consumed %zu of %zu bytes", n, k);
        probe("buffered handshake");
      }
      else if (early) { auto op = me.s->handshake(type); auto [e] = co_await cobalt::as_tuple(op); ec = e; }
      else { auto [e] = co_await cobalt::as_tuple(me.s->handshake(type)); ec = e; }
      me.pending--;
    }
    ev("side %d: handshake: %s", i, ec ? ec.message().c_str() : "ok");
    if (ec)
    {
      lost = true; me.hs_failed = true;
      SIM_CHECK(stop_ok() || must_fail || other.hs_failed || me.closed || C.closes_early, "tls:handshake", "handshake failed: %s", ec.message().c_str());
      SIM_CHECK(!me.s->secure(), "tls:state", "secure() after a failed handshake");
      if (must_fail && i == 0 && !stop_ok()) probe("peer refused");
    }
    else
    {
      me.done_hs = true;
      SIM_CHECK(me.s->secure(), "tls:state", "not secure() after a successful handshake");
      SIM_CHECK(i == 1 || !must_fail, "tls:verify", "handshake accepted a peer that must not be trusted");
      if (i == 0 && C.verify >= 3) SIM_CHECK(C.cb_calls > 0, "tls:verify", "the verify callback was never called");
      if (i == 0 && C.verify == 1) probe(C.depth >= 0 ? "verified with a depth limit" : "verified");
      probe(C.tls13 ? "handshake 1.3" : "handshake 1.2");
    }
  }
  if (!lost && !me.closed)
  {
    maybe_move(i);
    if (chance(1, 4, "again"))
    {
      int before = transport_calls();
      error_code ec;
      if (chance(1, 2, "buf")) { auto [e, n] = co_await cobalt::as_tuple(me.s->handshake(type, io::buffer("abc", 3))); ec = e; }
      else { auto [e] = co_await cobalt::as_tuple(me.s->handshake(type)); ec = e; }
      SIM_CHECK(ec == error_code(asio::error::already_started), "tls:state", "a second handshake reports \"%s\"", ec ? ec.message().c_str() : "success");
      SIM_CHECK(transport_calls() == before, "tls:state", "a second handshake used the transport");
    }
    me.busy = 2;
    asio::post(W->ctx->get_executor(), [rd, i] { run_reader(*rd, i); });
    asio::post(W->ctx->get_executor(), [wr, i] { run_writer(*wr, i); });
    co_return;
  }
  finish_side(i, lost);
}
}

void sim_main()
{
  rnd = 1 + choose(1u << 30, "rng");
  RAND_set_rand_method(&meth);
  C = {};
  C.tls13 = (int)choose(2, "tls13");
  C.verify = (int)choose(4, "verify"); // 0 none, 1 trusted, 2 not trusted, 3 callback decides
  C.cb_result = chance(3, 4, "cb");
  if (C.verify == 2 && chance(1, 2, "not so often")) C.verify = 1;
  C.depth = C.verify && chance(1, 3, "depth") ? (int)choose(3, "depth") : -1; // one certificate stands between the server's and the root
  C.corrupt = chance(1, 3, "corrupt");
  bool resets = chance(1, 8, "resets"), cancels = chance(1, 6, "cancels"), closes = chance(1, 6, "closes"), fails = chance(1, 8, "fails");
  C.closes_early = chance(1, 6, "truncate");
  C.disturbed = C.corrupt || resets || cancels || closes || fails;
  vk::enabled = true;
  vk::cfg.time_passes = false;
  static const std::size_t caps[] = {65536, 4096, 200, 64};
  vk::cfg.stream_cap = caps[choose(4, "cap")];
  if (chance(1, 3, "eintr")) vk::cfg.eintr = 4;
  if (chance(1, 3, "again")) vk::cfg.again = 8;
#if !defined(BOOST_COBALT_NO_PMR)
  ledger led("thread default");
  auto * old = cobalt::this_thread::set_default_resource(&led);
#endif
  auto wp = std::make_unique<world>();
  W = wp.get();
  W->kern_actions = vk::actions; W->kern_act = vk::act; W->kern_timer = [] { return false; }; W->kern_advance = vk::advance;
  for (auto & s : S) s = side{};
  auto & cctx = C.verify == 1 || (C.verify == 3 && chance(1, 2, "ca")) ? ctxs.trusting[C.tls13] : ctxs.doubting[C.tls13];
  auto & sctx = ctxs.server[C.tls13];
  auto p = vk::make_stream_pair(chance(1, 2, "inet") ? AF_INET : AF_UNIX);
  for (int i = 0; i < 2; i++)
  {
    int fd = i ? p.second : p.first;
    auto & c = i ? sctx : cctx;
    io::protocol_type pr = vk::get(fd)->domain == AF_UNIX ? io::protocol_type(io::local_stream) : io::protocol_type(io::tcp_v4);
    if (chance(1, 2, "from socket")) { io::stream_socket s(fd, pr); S[i].s = std::make_unique<tls>(c, std::move(s)); }
    else S[i].s = std::make_unique<tls>(c, fd, pr);
    S[i].k = vk::get(fd);
    if (chance(1, 3, "plain")) S[i].plain = 1 + choose(300, "plain");
    static const std::size_t tot[] = {0, 10, 500, 3000, 40000};
    S[i].total = choose(tot[choose(5, "total")] + 1, "bytes");
  }
  W->on_idle = check_wire;
  if (fails)
  {
    static const int errs[] = {ETIMEDOUT, EIO, ENOBUFS, EHOSTUNREACH};
    vk::fail(choose(2) ? "send" : "recv", (int)choose(24, "nth"), errs[choose(4)]);
  }
  std::vector<std::unique_ptr<actor>> as;
  for (int i = 0; i < 8; i++) as.push_back(std::make_unique<actor>(i));
  for (int i = 0; i < 2; i++) S[i].ender = as[6 + i].get();
  for (int i = 0; i < 2; i++) asio::post(W->ctx->get_executor(), [&as, i] { run_side(*as[i], i, as[2 + i].get(), as[4 + i].get()); });
  auto hurt = [&](auto fn) { for (int k = range(1, 2, "times"); k > 0; k--) { int delay = (int)choose(40, "delay"); W->add([fn, delay] { fn(delay); }, true); } };
  // things that happen after a while
  struct later { static void go(int n, std::function<void()> f) { if (n <= 0) { f(); return; } W->add([n, f] { go(n - 1, f); }, true); } };
  if (C.corrupt) hurt([](int delay)
  {
    later::go(delay, []
    {
      if (!C.plain_done[0] || !C.plain_done[1]) return;
      auto k = S[choose(2, "side")].k.lock();
      if (!k || !k->in) return;
      auto & q = k->in->avail.empty() ? k->in->flight : k->in->avail;
      if (q.empty()) return;
      std::size_t at = choose(q.size(), "at");
      switch (choose(4, "damage"))
      {
        case 0: case 1: q[at] ^= (unsigned char)(1 + choose(255, "xor")); break;
        case 2: q.erase(q.begin() + at); break;
        case 3: if (q.size() > 1) std::swap(q[at], q[(at + 1) % q.size()]); break;
      }
      fault("corruption"); ev("transport: byte %zu of %zu damaged", at, q.size());
    });
  });
  if (resets) { auto w = S[0].k; hurt([w](int delay) { later::go(delay, [w] { if (auto d = w.lock(); d && d->in) vk::reset_stream(d, ECONNRESET); }); }); }
  if (cancels) hurt([&as](int delay) { auto * a = as[choose(8, "who")].get(); int i = (int)choose(2, "side"); bool obj = choose(2, "obj"); later::go(delay, [a, i, obj]
  {
    if (obj) { if (S[i].s && !S[i].closed) { fault("cancel-object"); ev("side %d: cancel()", i); (void)S[i].s->cancel(); } return; }
    if (a->finished || !a->started) return;
    fault("cancel-awaiter"); ev("cancel actor %d", a->id);
    static const asio::cancellation_type cts[] = {asio::cancellation_type::terminal, asio::cancellation_type::partial, asio::cancellation_type::total, asio::cancellation_type::all};
    a->sig.emit(cts[choose(4, "ct")]);
  }); });
  if (closes) hurt([](int delay) { int i = (int)choose(2, "side"); later::go(delay, [i] { if (S[i].s && !S[i].closed) { fault("close"); ev("side %d: close()", i); S[i].closed = true; (void)S[i].s->close(); } }); });
  if (chance(1, 10, "early"))
  {
    int steps = range(0, 200, "steps");
    while (steps-- > 0 && W->step_once());
    fault("destroy-context");
  }
  else
  {
    W->run();
    if (!C.disturbed && !C.closes_early)
      for (int i = 0; i < 2; i++)
        SIM_CHECK(S[i].finished || (S[i].pending && (S[i].shut || S[i].received >= S[1 - i].total)), "tls:hang", "side %d never finished: %zu of %zu bytes received, %zu of %zu sent", i, S[i].received, S[1 - i].total, S[i].sent, S[i].total);
    C.disturbed = true;
    for (auto & s : S) if (!s.closed) { s.closed = true; (void)s.s->close(); }
    W->run();
    for (int i = 0; i < 2; i++) SIM_CHECK(S[i].finished, "tls:hang", "side %d never resumed", i);
  }
  W->guard.reset();
  for (auto & s : S) s.s.reset();
  wp.reset();
  for (auto & a : as) SIM_CHECK(a->finished || a->destroyed || !a->started, "tls:leak", "awaiting actor %d leaked", a->id);
  for (auto & a : as) a->sig.slot().clear();
#if !defined(BOOST_COBALT_NO_PMR)
  SIM_CHECK(led.live.empty(), "memory:leak", "%zu allocation(s) never returned", led.live.size());
  cobalt::this_thread::set_default_resource(old);
#endif
  auto fds = vk::open_fds();
  SIM_CHECK(fds.empty(), "fd:leak", "descriptor %s still open at the end", fds.empty() ? "" : vk::describe(fds[0]).c_str());
  SIM_CHECK(vk::bad_closes == 0, "fd:double-close", "%d descriptor(s) closed that were not open", vk::bad_closes);
  W = nullptr;
}
