// P22, P20: datagram and packet sockets over a network that loses, repeats, delays and reorders.
#include "../sim/coro.hpp"
#include "../sim/vk.hpp"
#include <boost/cobalt/io/datagram_socket.hpp>
#include <boost/cobalt/io/seq_packet_socket.hpp>
#include <cstddef>
#include <boost/cobalt/op.hpp>
#include <cstring>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <sys/un.h>
using namespace sim;
namespace io = boost::cobalt::io;

const char * const sim_harness_name = "packet";
const char * sim_class_owner(const char * c)
{
  std::string s = c;
  if (s.rfind("packet:", 0) == 0) return "P22";
  if (s.rfind("io:", 0) == 0) return "P20,P22";
  if (s.rfind("fd:", 0) == 0) return "P22,P23";
  if (s.rfind("memory:", 0) == 0) return "P17";
  return "";
}

namespace
{
enum class net { dgram_pair, seq_pair, udp4, udp6, dgram_path, seq_accept } nt;
bool seq() { return nt == net::seq_pair || nt == net::seq_accept; }
bool inet() { return nt == net::udp4 || nt == net::udp6; }
struct setup { bool cancels, closes, fails; } cfg;

struct side
{
  std::unique_ptr<io::datagram_socket> d;
  std::unique_ptr<io::seq_packet_socket> p;
  std::weak_ptr<vk::desc> k;
  bool closed = false, werr = false, rerr = false;
  std::string addr; std::uint16_t port = 0;
  bool exists() const { return d || p; }
  io::socket & s() { return d ? static_cast<io::socket &>(*d) : *p; }
} sides[2];
bool shut[2] = {false, false}; // some end closed or shut down

struct pending_op { bool active = false, wr = false, asked = false, by_signal = false, gone = false, pending = false; int side = 0; std::size_t sent0 = 0, recv0 = 0; };
std::map<int, pending_op> ops;

const vk::desc * kd(int i) { return sides[i].k.lock().get(); }
std::vector<const vk::transfer *> since(const std::vector<vk::transfer> & log, std::size_t from, const vk::desc * d)
{
  std::vector<const vk::transfer *> r;
  for (std::size_t i = from; i < log.size(); i++) if (log[i].d == d) r.push_back(&log[i]);
  return r;
}

template<typename B>
std::vector<B> cut(char * base, std::size_t n)
{
  std::vector<B> r;
  int parts = range(1, 5, "parts");
  std::size_t at = 0;
  for (int i = 0; i < parts; i++)
  {
    std::size_t k = i + 1 == parts ? n - at : chance(1, 5, "empty") ? 0 : std::min<std::size_t>(n - at, choose((std::uint32_t)n + 1, "cut"));
    r.push_back(B(base + at, k));
    at += k;
  }
  return r;
}
std::size_t random_size() { switch (choose(7, "size")) { case 0: return 1 + choose(12); case 1: return 0; case 2: return 1 + choose(60); case 3: return 1 + choose(1500); case 4: return 4000 + choose(200); default: return 1 + choose(300); } }

bool scripted_error(error_code ec)
{
  for (auto & f : vk::failures) if (f.hit && f.err > 0 && f.err == ec.value() && ec.category() == boost::system::system_category()) { f.err = -1; return true; }
  return false;
}

void check_error(int i, bool wr, error_code ec, std::size_t size, const pending_op & p)
{
  bool legit = scripted_error(ec);
  if (ec == asio::error::operation_aborted) { SIM_CHECK(p.asked, "io:spurious-abort", "%s was aborted although nobody cancelled it", wr ? "send" : "receive"); return; }
  bool down = shut[0] || shut[1];
  if (ec == asio::error::bad_descriptor) legit = sides[i].closed;
  else if (ec.value() == EMSGSIZE) legit = wr && size > 4096;
  else if (ec == asio::error::broken_pipe || ec == asio::error::connection_refused || ec == asio::error::connection_reset || ec == asio::error::not_connected || ec == asio::error::eof || ec.value() == EDESTADDRREQ) legit = legit || down;
  SIM_CHECK(legit, "packet:error", "%s failed with %s for no reason", wr ? "send" : "receive", ec.message().c_str());
}

proc run_sender(actor & a, int i, int n)
{
  for (int k = 0; k < n && sides[i].exists(); k++)
  {
    std::size_t size = random_size();
    std::string mem(size + 16, '#');
    for (std::size_t j = 0; j < size; j++) mem[8 + j] = (char)mix(i * 7919 + k, j);
    std::string copy = mem;
    auto bufs = cut<asio::const_buffer>(mem.data() + 8, size);
    auto cs = bufs.size() == 1 ? io::const_buffer_sequence(bufs[0]) : io::const_buffer_sequence(bufs);
    auto & p = ops[a.id];
    p = {}; p.active = true; p.wr = true; p.side = i; p.sent0 = vk::sent_log.size(); p.recv0 = vk::recv_log.size();
    auto * me = kd(i);
    int fl = chance(1, 3, "eor") ? io::socket::message_end_of_record : 0;
    ev("actor %d: side %d sends %zu byte(s) in %zu buffers", a.id, i, size, bufs.size());
    error_code ec; std::size_t m = 0;
    bool plain = chance(1, 3, "plain"), threw = false;
    if (sides[i].d)
    {
      if (plain) { try { m = co_await sides[i].d->send(cs); } catch (boost::system::system_error & e) { ec = e.code(); threw = true; } }
      else { auto [e, x] = co_await cobalt::as_tuple(sides[i].d->send(cs)); ec = e; m = x; }
    }
    else
    {
      if (plain) { try { m = co_await sides[i].p->send(fl, cs); } catch (boost::system::system_error & e) { ec = e.code(); threw = true; } }
      else { auto [e, x] = co_await cobalt::as_tuple(sides[i].p->send(fl, cs)); ec = e; m = x; }
    }
    p.active = false;
    auto out = since(vk::sent_log, p.sent0, me);
    ev("actor %d: sent %zu%s%s", a.id, m, ec ? ", " : "", ec ? ec.message().c_str() : "");
    if (ec)
    {
      check_error(i, true, ec, size, p);
      SIM_CHECK(out.empty(), "packet:sent-anyway", "a send that failed with %s transmitted a message", ec.message().c_str());
      SIM_CHECK(threw || m == 0, "packet:count", "a failed send reports %zu bytes", m);
      if (ec != asio::error::operation_aborted) sides[i].werr = true;
    }
    else
    {
      SIM_CHECK(m == size, "packet:count", "send of %zu bytes reports %zu", size, m);
      SIM_CHECK(out.size() == 1, "packet:messages", "one send transmitted %zu messages", out.size());
      if (out.size() == 1)
      {
        SIM_CHECK(out[0]->data.size() == size && out[0]->data.compare(0, size, mem, 8, size) == 0, "packet:content", "the message transmitted is not the one sent: %zu bytes instead of %zu", out[0]->data.size(), size);
        if (sides[i].p) SIM_CHECK((out[0]->flags & MSG_EOR) == (fl & MSG_EOR), "packet:flags", "send did not pass its flags on");
      }
      if (p.by_signal && p.pending && sides[i].exists()) SIM_CHECK(false, "io:cancel-ignored", "send was cancelled while pending and still transmitted");
    }
    SIM_CHECK(mem == copy, "packet:outside", "send changed the caller's memory");
    if (chance(1, 4, "pause")) co_await yield_{chance(1, 2, "ext")};
  }
}

proc run_receiver(actor & a, int i, int n)
{
  for (int k = 0; k < n && sides[i].exists(); k++)
  {
    std::size_t size = chance(1, 8, "zero") ? 0 : random_size();
    std::string mem(size + 16, '#');
    auto bufs = cut<asio::mutable_buffer>(mem.data() + 8, size);
    auto ms = bufs.size() == 1 ? io::mutable_buffer_sequence(bufs[0]) : io::mutable_buffer_sequence(bufs);
    auto & p = ops[a.id];
    p = {}; p.active = true; p.side = i; p.sent0 = vk::sent_log.size(); p.recv0 = vk::recv_log.size();
    auto * me = kd(i);
    bool peek = sides[i].p && chance(1, 5, "peek"), want_flags = chance(1, 2, "flags"), plain = chance(1, 3, "plain");
    int out_fl = -1;
    int in_fl = peek ? io::socket::message_peek : 0;
    ev("actor %d: side %d receives up to %zu byte(s) in %zu buffers%s", a.id, i, size, bufs.size(), peek ? ", peeking" : "");
    error_code ec; std::size_t m = 0; bool threw = false;
    if (sides[i].d)
    {
      if (plain) { try { m = co_await sides[i].d->receive(ms); } catch (boost::system::system_error & e) { ec = e.code(); threw = true; } }
      else { auto [e, x] = co_await cobalt::as_tuple(sides[i].d->receive(ms)); ec = e; m = x; }
    }
    else if (want_flags)
    {
      if (plain) { try { m = co_await sides[i].p->receive(in_fl, out_fl, ms); } catch (boost::system::system_error & e) { ec = e.code(); threw = true; } }
      else { auto [e, x] = co_await cobalt::as_tuple(sides[i].p->receive(in_fl, out_fl, ms)); ec = e; m = x; }
    }
    else
    {
      if (plain) { try { m = co_await sides[i].p->receive(in_fl, ms); } catch (boost::system::system_error & e) { ec = e.code(); threw = true; } }
      else { auto [e, x] = co_await cobalt::as_tuple(sides[i].p->receive(in_fl, ms)); ec = e; m = x; }
    }
    p.active = false;
    auto in = since(vk::recv_log, p.recv0, me);
    ev("actor %d: received %zu%s%s", a.id, m, ec ? ", " : "", ec ? ec.message().c_str() : "");
    if (ec)
    {
      check_error(i, false, ec, size, p);
      SIM_CHECK(in.empty(), "io:lost", "a receive that failed with %s took a message", ec.message().c_str());
      SIM_CHECK(threw || m == 0, "packet:count", "a failed receive reports %zu bytes", m);
      if (ec != asio::error::operation_aborted) sides[i].rerr = true;
      m = 0;
    }
    else if (in.empty())
    {
      SIM_CHECK(m == 0, "packet:invented", "receive reports %zu bytes of no message", m);
      SIM_CHECK(shut[0] || shut[1], "packet:invented", "receive succeeded without a message");
      if (chance(1, 2, "stop")) break;
    }
    else
    {
      SIM_CHECK(in.size() == 1, "packet:merged", "one receive took %zu messages", in.size());
      auto & x = *in[0];
      SIM_CHECK(m == std::min(size, x.data.size()), "packet:count", "receive into %zu bytes reports %zu of a message of %zu", size, m, x.data.size());
      SIM_CHECK(mem.compare(8, m, x.data, 0, m) == 0, "packet:content", "a message of %zu bytes arrived altered", x.data.size());
      if (sides[i].p)
      {
        SIM_CHECK(x.peek == peek, "packet:flags", "receive %s the message in spite of its flags", x.peek ? "left" : "took");
        if (want_flags) SIM_CHECK(out_fl == x.flags, "packet:out-flags", "receive reports the flags %x, the system %x", out_fl, x.flags);
      }
      bool sent = false;
      for (auto & t : vk::sent_log) if (t.data == x.data) sent = true;
      if (!sent) harness_error("kernel invented a message");
      if (m < x.data.size()) probe("truncated");
      if (p.by_signal && p.pending && sides[i].exists()) SIM_CHECK(false, "io:cancel-ignored", "receive was cancelled while pending and still took a message");
    }
    for (std::size_t j = 0; j < mem.size(); j++) if (j < 8 || j >= 8 + m) SIM_CHECK(mem[j] == '#', "packet:outside", "receive of %zu bytes into %zu touched byte %zd", m, size, (ssize_t)j - 8);
    if (chance(1, 6, "pause")) co_await yield_{chance(1, 2, "ext")};
  }
}

// ---- addresses -------------------------------------------------------------------
bool kernel_addr_is(const std::string & raw, const std::string & addr, std::uint16_t port)
{
  if (raw.size() < 2) return false;
  auto * sa = reinterpret_cast<const sockaddr *>(raw.data());
  char b[64];
  if (sa->sa_family == AF_INET && raw.size() >= sizeof(sockaddr_in)) { auto * q = reinterpret_cast<const sockaddr_in *>(sa); inet_ntop(AF_INET, &q->sin_addr, b, sizeof b); return addr == b && q->sin_port == htons(port); }
  if (sa->sa_family == AF_INET6 && raw.size() >= 24) { auto * q = reinterpret_cast<const sockaddr_in6 *>(sa); inet_ntop(AF_INET6, &q->sin6_addr, b, sizeof b); return addr == b && q->sin6_port == htons(port); }
  if (sa->sa_family == AF_UNIX) return addr == raw.c_str() + 2;
  return false;
}
io::endpoint random_endpoint(const side & s, bool bound)
{
  switch (nt)
  {
    case net::udp4: switch (choose(bound ? 2 : 4, "ep")) { case 0: return {io::udp_v4, s.addr, s.port}; case 1: return {io::udp, s.addr, s.port}; case 2: return {io::ip_v4, s.addr, s.port}; default: return {io::ip, s.addr, s.port}; }
    case net::udp6: switch (choose(bound ? 2 : 4, "ep")) { case 0: return {io::udp_v6, s.addr, s.port}; case 1: return {io::udp, s.addr, s.port}; case 2: return {io::ip_v6, s.addr, s.port}; default: return {io::ip, s.addr, s.port}; }
    case net::dgram_path: if (bound || chance(1, 2, "ep")) return {io::local_datagram, s.addr}; return {io::local_protocol, s.addr};
    default: if (bound || chance(1, 2, "ep")) return {io::local_seqpacket, s.addr}; return {io::local_protocol, s.addr};
  }
}
void check_endpoint(const io::endpoint & e, const side & s, const char * what)
{
  std::string a; std::uint16_t port = 0;
  if (auto p = get_if<io::ip_v4>(&e)) { a = std::string(p->addr_str()); port = p->port(); SIM_CHECK(!get_if<io::ip_v6>(&e) && !get_if<io::local_protocol>(&e), "packet:address", "%s endpoint is of several families", what); }
  else if (auto p = get_if<io::ip_v6>(&e)) { a = std::string(p->addr_str()); port = p->port(); }
  else if (auto p = get_if<io::local_protocol>(&e)) { a = std::string(p->path()); }
  if (inet()) { auto p = get_if<io::ip>(&e); SIM_CHECK(p && std::string(p->addr_str()) == a && p->port() == port && p->is_ipv6() == (nt == net::udp6), "packet:address", "%s endpoint read as ip differs", what); }
  SIM_CHECK(a == s.addr && port == s.port, "packet:address", "%s endpoint is %s:%d instead of %s:%d", what, a.c_str(), port, s.addr.c_str(), s.port);
}
void expect(error_code ec, const char * what) { SIM_CHECK(!ec, "packet:setup", "%s failed: %s", what, ec.message().c_str()); }

proc run_setup(actor & a)
{
  static const char * a4[] = {"10.1.2.3", "192.168.255.254"};
  static const char * a6[] = {"fe80::1:2", "2001:db8::ff00:42:8329"};
  for (int i = 0; i < 2; i++)
  {
    sides[i].port = inet() ? 1 + choose(65535, "port") : 0;
    if (nt == net::udp4) sides[i].addr = a4[i];
    else if (nt == net::udp6) sides[i].addr = a6[i];
    else { sides[i].addr = std::string("/run/"); for (std::size_t k = choose(4, "len") ? choose(20, "path") : choose(102, "path") ; sides[i].addr.size() < 5 + k; ) sides[i].addr += (char)('a' + i * 13 + k % 13); sides[i].addr += i ? 'y' : 'x'; }
  }
  if (nt == net::seq_accept)
  {
    sockaddr_un un{}; un.sun_family = AF_UNIX;
    memcpy(un.sun_path, sides[0].addr.c_str(), sides[0].addr.size() + 1);
    int ls = ::socket(AF_UNIX, SOCK_SEQPACKET, 0);
    if (::bind(ls, reinterpret_cast<sockaddr *>(&un), offsetof(sockaddr_un, sun_path) + sides[0].addr.size() + 1) || ::listen(ls, 5)) harness_error("listen");
    sides[1].p = std::make_unique<io::seq_packet_socket>();
    if (chance(1, 3, "open")) { auto r = sides[1].p->open(io::local_seqpacket); SIM_CHECK(bool(r), "packet:setup", "open failed"); }
    auto [ec] = co_await cobalt::as_tuple(sides[1].p->connect(random_endpoint(sides[0], false)));
    expect(ec, "connect");
    int c = ec ? -1 : ::accept(ls, nullptr, nullptr);
    ::close(ls);
    if (c < 0) { if (!ec) harness_error("accept"); co_return; }
    sides[0].p = std::make_unique<io::seq_packet_socket>(c, io::local_seqpacket);
    auto r = sides[1].p->remote_endpoint();
    SIM_CHECK(bool(r), "packet:address", "remote_endpoint failed");
    if (r) check_endpoint(*r, sides[0], "remote");
  }
  else
  {
    for (int i = 0; i < 2; i++)
    {
      try { sides[i].d = std::make_unique<io::datagram_socket>(random_endpoint(sides[i], true)); }
      catch (boost::system::system_error & e) { expect(e.code(), "bind"); co_return; }
    }
    for (int i = 0; i < 2; i++)
    {
      auto k = vk::get(sides[i].d->native_handle());
      SIM_CHECK(kernel_addr_is(k->local, sides[i].addr, sides[i].port), "packet:address", "socket bound to another address than %s:%d", sides[i].addr.c_str(), sides[i].port);
      SIM_CHECK(!inet() || (k->type == SOCK_DGRAM && (k->proto == 0 || k->proto == IPPROTO_UDP)), "packet:protocol", "the system was asked for protocol %d instead of UDP", k->proto);
      auto l = sides[i].d->local_endpoint();
      SIM_CHECK(bool(l), "packet:address", "local_endpoint failed");
      if (l) check_endpoint(*l, sides[i], "local");
    }
    for (int i = 0; i < 2; i++)
    {
      auto [ec] = co_await cobalt::as_tuple(sides[i].d->connect(random_endpoint(sides[1 - i], false)));
      expect(ec, "connect");
      auto k = vk::get(sides[i].d->native_handle());
      SIM_CHECK(kernel_addr_is(k->remote, sides[1 - i].addr, sides[1 - i].port), "packet:address", "socket connected to another address than %s:%d", sides[1 - i].addr.c_str(), sides[1 - i].port);
      auto r = sides[i].d->remote_endpoint();
      SIM_CHECK(bool(r), "packet:address", "remote_endpoint failed");
      if (r) check_endpoint(*r, sides[1 - i], "remote");
    }
    if (chance(1, 4, "unopened"))
    {
      io::datagram_socket t;
      auto [ec] = co_await cobalt::as_tuple(t.connect(random_endpoint(sides[0], false)));
      expect(ec, "connect of a new socket");
      auto k = vk::get(t.native_handle());
      SIM_CHECK(k->type == SOCK_DGRAM && k->domain == (nt == net::udp4 ? AF_INET : nt == net::udp6 ? AF_INET6 : AF_UNIX) && (k->proto == 0 || k->proto == IPPROTO_UDP), "packet:protocol", "the system was asked for type %d, protocol %d instead of UDP", k->type, k->proto);
      SIM_CHECK(kernel_addr_is(k->remote, sides[0].addr, sides[0].port), "packet:address", "socket connected to another address");
    }
  }
}

// ---- what else happens -------------------------------------------------------------
void ask(int i) { for (auto & [a, p] : ops) if (p.active && p.side == i) p.asked = true; }
bool pend(int i) { for (auto & [a, p] : ops) if (p.active && p.side == i) return true; return false; }
void disturb(int i, int what)
{
  auto & s = sides[i];
  if (!s.exists()) return;
  switch (what)
  {
    case 0: ask(i); ev("side %d: cancel()", i); fault("cancel-object"); { auto r = s.s().cancel(); SIM_CHECK(bool(r) || s.closed, "io:cancel-error", "cancel() failed"); } break;
    case 1: ask(i); ev("side %d: close()", i); fault("close"); s.closed = true; shut[i] = true; { auto r = s.s().close(); SIM_CHECK(bool(r) && !s.s().is_open(), "io:close-error", "close() failed"); } break;
    case 2: ask(i); for (auto & [a, p] : ops) if (p.active && p.side == i) p.gone = true; ev("side %d: destroyed", i); fault("destroy-object"); s.closed = true; shut[i] = true; s.d.reset(); s.p.reset(); break;
    case 3: if (s.closed) break; ev("side %d: shutdown()", i); fault("shutdown"); shut[i] = true; { auto r = s.s().shutdown(choose(2, "both") ? io::socket::shutdown_type::shutdown_both : io::socket::shutdown_type::shutdown_send); SIM_CHECK(bool(r), "io:shutdown-error", "shutdown() failed: %s", r.error().message().c_str()); } break;
    case 4: if (pend(i)) break; ev("side %d: moved", i); if (s.d) s.d = std::make_unique<io::datagram_socket>(std::move(*s.d)); else s.p = std::make_unique<io::seq_packet_socket>(std::move(*s.p)); break;
  }
}

void check_idle()
{
  for (auto & [a, p] : ops)
  {
    if (!p.active) continue;
    SIM_CHECK(!p.asked, "io:cancel-lost", "%s of actor %d is still pending after it was cancelled", p.wr ? "send" : "receive", a);
    auto k = sides[p.side].k.lock();
    if (!k || sides[p.side].closed) continue;
    if (!p.wr && !sides[p.side].rerr && k->min) SIM_CHECK(k->min->avail.empty() && !k->min->fin_seen, "io:stuck", "receive of actor %d is pending although there is a message", a);
    if (p.wr && !sides[p.side].werr)
    {
      auto q = k->mout;
      if (!q) if (auto to = k->peer.lock()) q = to->min;
      SIM_CHECK(q && q->avail.size() + q->flight.size() >= q->cap && !q->rd_closed, "io:stuck", "send of actor %d is pending although there is room", a);
    }
  }
  for (auto & [a, p] : ops) if (p.active) p.pending = true;
}
}

void sim_main()
{
  static const net nets[] = {net::dgram_pair, net::seq_pair, net::udp4, net::udp6, net::dgram_path, net::seq_accept};
  nt = nets[choose(6, "net")];
  cfg = {chance(1, 2, "cancels"), chance(1, 3, "closes"), chance(1, 3, "fails")};
  vk::enabled = true;
  vk::cfg.time_passes = false;
  vk::cfg.dgram_loss = chance(1, 2, "loss"); vk::cfg.dgram_dup = chance(1, 2, "dup"); vk::cfg.dgram_reorder = chance(1, 2, "reorder");
  if (chance(1, 3, "eintr")) vk::cfg.eintr = 4;
#if !defined(BOOST_COBALT_NO_PMR)
  ledger led("thread default");
  auto * old = cobalt::this_thread::set_default_resource(&led);
#endif
  auto wp = std::make_unique<world>();
  W = wp.get();
  W->kern_actions = vk::actions; W->kern_act = vk::act; W->kern_timer = [] { return false; }; W->kern_advance = vk::advance;
  std::vector<std::unique_ptr<actor>> as;
  auto add = [&](auto fn) { as.push_back(std::make_unique<actor>((int)as.size())); asio::post(W->ctx->get_executor(), [a = as.back().get(), fn] { fn(*a); }); };
  if (nt == net::dgram_pair)
  {
    auto p = io::make_pair(io::local_datagram);
    SIM_CHECK(bool(p), "packet:setup", "make_pair failed");
    sides[0].d = std::make_unique<io::datagram_socket>(std::move(p->first)); sides[1].d = std::make_unique<io::datagram_socket>(std::move(p->second));
  }
  else if (nt == net::seq_pair)
  {
    auto p = io::make_pair(io::local_seqpacket);
    SIM_CHECK(bool(p), "packet:setup", "make_pair failed");
    sides[0].p = std::make_unique<io::seq_packet_socket>(std::move(p->first)); sides[1].p = std::make_unique<io::seq_packet_socket>(std::move(p->second));
  }
  else
  {
    vk::cfg.eintr = 0;
    add([](actor & a) { run_setup(a); });
    W->run();
    SIM_CHECK(as[0]->finished, "packet:setup", "connecting never ended");
  }
  for (auto & s : sides) s.k = vk::get(s.s().native_handle());
  for (auto & s : sides) if (!s.k.lock()) harness_error("no descriptor");
  // a small queue fills up
  for (auto & s : sides) { auto k = s.k.lock(); if (k->min && chance(1, 2, "small")) k->min->cap = 1 + choose(3, "cap"); }
  W->on_idle = check_idle;
  if (cfg.fails)
  {
    static const int errs[] = {ENOBUFS, EPERM, ENETDOWN, EHOSTUNREACH};
    for (int k = range(1, 2, "nfails"); k > 0; k--) vk::fail(choose(2) ? "send" : "recv", (int)choose(8, "nth"), errs[choose(4)]);
  }
  int len = range(1, 8, "len");
  int first = (int)as.size();
  for (int i = 0; i < (chance(1, 2, "both") ? 2 : 1); i++)
  {
    add([i, len](actor & a) { run_sender(a, i, len); });
    add([i, len](actor & a) { run_receiver(a, 1 - i, len + range(0, 4, "more")); });
  }
  int n = (int)as.size() - first;
  if (cfg.cancels)
    for (int k = range(1, 3, "ncancel"); k > 0; k--)
    {
      auto * a = as[first + choose(n, "victim")].get();
      int e = (int)choose(2, "side");
      bool object = chance(1, 2, "object");
      W->add([a, e, object]
      {
        if (object) { disturb(e, 0); return; }
        static const asio::cancellation_type cts[] = {asio::cancellation_type::terminal, asio::cancellation_type::partial, asio::cancellation_type::total, asio::cancellation_type::all};
        auto & p = ops[a->id];
        if (a->finished || !a->started || (p.active && p.gone)) return;
        if (p.active) { p.asked = p.by_signal = true; fault("cancel-awaiter"); }
        ev("cancel actor %d", a->id);
        a->sig.emit(cts[choose(4, "ct")]);
      }, choose(2, "direct"));
    }
  if (cfg.closes)
    for (int k = range(1, 2, "nclose"); k > 0; k--)
    {
      int e = (int)choose(2, "side"), what = 1 + (int)choose(4, "what");
      W->add([e, what] { disturb(e, what); }, choose(2, "direct"));
    }
  if (chance(1, 6, "early"))
  {
    int steps = range(0, 60, "steps");
    while (steps-- > 0 && W->step_once());
    fault("destroy-context");
  }
  else
  {
    W->run();
    for (int i = 0; i < 2; i++) if (sides[i].exists() && !sides[i].closed) disturb(i, 1);
    W->run();
    for (auto & a : as) SIM_CHECK(a->finished, "io:hang", "actor %d never resumed", a->id);
  }
  W->guard.reset();
  for (auto & s : sides) { s.d.reset(); s.p.reset(); }
  wp.reset();
  for (auto & a : as) SIM_CHECK(a->finished || a->destroyed || !a->started, "io:leak", "awaiting actor %d leaked", a->id);
  for (auto & a : as) a->sig.slot().clear();
#if !defined(BOOST_COBALT_NO_PMR)
  SIM_CHECK(led.live.empty(), "memory:leak", "%zu allocation(s) never returned", led.live.size());
  cobalt::this_thread::set_default_resource(old);
#endif
  auto fds = vk::open_fds();
  SIM_CHECK(fds.empty(), "fd:leak", "descriptor %s still open at the end", fds.empty() ? "" : vk::describe(fds[0]).c_str());
  SIM_CHECK(vk::bad_closes == 0, "fd:double-close", "%d descriptor(s) closed that were not open", vk::bad_closes);
  W = nullptr;
}
