// P23: objects owning descriptors, with any system call failing.
#include "../sim/coro.hpp"
#include "../sim/vk.hpp"
#include <boost/cobalt/io/stream_socket.hpp>
#include <boost/cobalt/io/datagram_socket.hpp>
#include <boost/cobalt/io/seq_packet_socket.hpp>
#include <boost/cobalt/io/pipe.hpp>
#include <boost/cobalt/io/serial_port.hpp>
#include <boost/cobalt/io/signal_set.hpp>
#include <boost/cobalt/io/stream_file.hpp>
#include <boost/cobalt/io/random_access_file.hpp>
#include <boost/cobalt/op.hpp>
#include <csignal>
#include <cstddef>
#include <cstring>
#include <set>
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
using namespace sim;
namespace io = boost::cobalt::io;

const char * const sim_harness_name = "socks";
const char * sim_class_owner(const char * c)
{
  std::string s = c;
  if (s.rfind("sys:", 0) == 0 || s.rfind("fd:", 0) == 0) return "P23";
  if (s.rfind("memory:", 0) == 0) return "P17";
  return "";
}

namespace
{
struct slot
{
  std::unique_ptr<io::stream_socket> st;
  std::unique_ptr<io::datagram_socket> dg;
  std::unique_ptr<io::seq_packet_socket> sq;
  std::unique_ptr<io::readable_pipe> rp;
  std::unique_ptr<io::writable_pipe> wp;
  std::unique_ptr<io::serial_port> se;
  std::unique_ptr<io::stream_file> sf;
  std::unique_ptr<io::random_access_file> rf;
  int fd = -1;
  io::socket * sock() { if (st) return st.get(); if (dg) return dg.get(); return sq.get(); }
  io::file * file() { if (sf) return sf.get(); return rf.get(); }
  template<typename F> void with(F && f) { if (st) f(*st); if (dg) f(*dg); if (sq) f(*sq); if (rp) f(*rp); if (wp) f(*wp); if (se) f(*se); if (sf) f(*sf); if (rf) f(*rf); }
  bool exists() { return st || dg || sq || rp || wp || se || sf || rf; }
  void reset() { st.reset(); dg.reset(); sq.reset(); rp.reset(); wp.reset(); se.reset(); sf.reset(); rf.reset(); fd = -1; }
  int type() { return st ? SOCK_STREAM : dg ? SOCK_DGRAM : SOCK_SEQPACKET; }
};
constexpr int nslots = 4;
struct state_t
{
  slot s[nslots];
  std::set<int> base, raw;
  std::unique_ptr<io::signal_set> sigs[2];
  std::set<int> in_set[2];
  std::vector<std::pair<io::endpoint, std::string>> live[3]; // listening: stream, datagram, seqpacket
  int n = 0, port = 1000, connecting = -1;
  bool stopped = false;
};
state_t * G;

std::string fds(const std::set<int> & a, const std::set<int> & b) { std::string r; for (int f : a) if (!b.count(f)) r += " " + std::to_string(f) + "(" + vk::describe(f) + ")"; return r; }
// what is open is what the objects and the harness own
void check_fds(const char * what)
{
  std::set<int> want = G->base, have;
  for (int f : G->raw) want.insert(f);
  for (auto & s : G->s)
  {
    if (!s.exists()) continue;
    s.with([&](auto & o)
    {
      SIM_CHECK(o.is_open() == (s.fd != -1), "fd:state", "object is %s after %s", o.is_open() ? "open" : "not open", what);
      SIM_CHECK(!o.is_open() || o.native_handle() == s.fd, "fd:handle", "object holds descriptor %d instead of %d after %s", (int)o.native_handle(), s.fd, what);
    });
    if (s.fd != -1) want.insert(s.fd);
  }
  for (int f : vk::open_fds()) have.insert(f);
  SIM_CHECK(fds(have, want).empty(), "fd:leak", "descriptor%s left open by %s", fds(have, want).c_str(), what);
  SIM_CHECK(fds(want, have).empty(), "fd:closed", "descriptor%s closed by %s although in use", fds(want, have).c_str(), what);
  SIM_CHECK(vk::bad_closes == 0, "fd:double-close", "%s closed a descriptor that was not open", what);
}

// ---- one call, maybe with a failing system call -----------------------------------
int hits0, injected_errno;
void inject(std::initializer_list<const char *> names, int maxnth = 1)
{
  vk::failures.clear();
  hits0 = 0;
  if (!names.size() || !chance(2, 5, "inject")) return;
  static const int errs[] = {EMFILE, ENOMEM, EIO, EACCES, ENOBUFS};
  injected_errno = errs[choose(5, "errno")];
  vk::fail(names.begin()[choose(names.size(), "call")], (int)choose(maxnth, "nth"), injected_errno);
}
bool was_hit() { return vk::hits() != 0; }
template<typename F> error_code outcome_of(const char * what, F && f)
{
  try
  {
    auto r = f();
    if constexpr (!std::is_void_v<decltype(r)>) { if (r.has_error()) return r.error(); SIM_CHECK(r.has_value(), "sys:result", "%s returned neither a value nor an error", what); }
  }
  catch (std::exception & e) { SIM_CHECK(false, "sys:throws", "%s threw %s instead of returning an error", what, e.what()); }
  return {};
}
const error_code any_error{-1, boost::system::generic_category()};
// the result is the injected error, or `pre`, or success
void judge(const char * what, error_code ec, error_code pre = {})
{
  ev("%s: %s", what, ec ? ec.message().c_str() : "ok");
  bool hit = was_hit();
  vk::failures.clear();
  if (hit)
  {
    SIM_CHECK(bool(ec), "sys:error-lost", "%s succeeded although its system call failed", what);
    SIM_CHECK(ec == error_code(injected_errno, boost::system::system_category()), "sys:error-code", "%s reports \"%s\" instead of the error of its system call", what, ec.message().c_str());
  }
  else if (pre == any_error) SIM_CHECK(bool(ec), "sys:error-missing", "%s succeeded although it can't", what);
  else SIM_CHECK(ec == pre, "sys:unexpected", "%s reports \"%s\" instead of \"%s\"", what, ec.message().c_str(), pre ? pre.message().c_str() : "success");
}
template<typename F> error_code construct(F && f)
{
  try { f(); } catch (boost::system::system_error & e) { return e.code(); }
  return {};
}
const error_code already = asio::error::already_open;

// ---- addresses ---------------------------------------------------------------------
io::protocol_type protocol(int type, int family)
{
  if (family == AF_UNIX) return type == SOCK_STREAM ? io::protocol_type(io::local_stream) : type == SOCK_DGRAM ? io::protocol_type(io::local_datagram) : io::protocol_type(io::local_seqpacket);
  if (type == SOCK_DGRAM) return family == AF_INET ? io::protocol_type(io::udp_v4) : io::protocol_type(io::udp_v6);
  return family == AF_INET ? io::protocol_type(io::tcp_v4) : io::protocol_type(io::tcp_v6);
}
int family_for(int type) { static const int f[] = {AF_UNIX, AF_INET, AF_INET6}; return type == SOCK_SEQPACKET ? AF_UNIX : f[choose(3, "family")]; }
struct address { int family = 0; std::string host; int port = 0; };
address new_address(int family)
{
  address a{family, "", 0};
  if (family == AF_UNIX) a.host = "/run/s" + std::to_string(G->n++);
  else { a.port = G->port++; a.host = family == AF_INET ? "10.0.0.1" : "fe80::7"; }
  return a;
}
io::endpoint endpoint_of(const address & a, int type, bool full)
{
  if (a.family == AF_UNIX)
  {
    if (!full && chance(1, 2, "ep")) return {io::local_protocol, a.host};
    if (type == SOCK_STREAM) return {io::local_stream, a.host};
    if (type == SOCK_DGRAM) return {io::local_datagram, a.host};
    return {io::local_seqpacket, a.host};
  }
  bool v4 = a.family == AF_INET;
  switch (full ? 2 : choose(4, "ep"))
  {
    case 0: return {io::ip, a.host, a.port};
    case 1: if (v4) return {io::ip_v4, a.host, a.port}; return {io::ip_v6, a.host, a.port};
    case 2: if (type == SOCK_STREAM) { if (v4) return {io::tcp_v4, a.host, a.port}; return {io::tcp_v6, a.host, a.port}; }
            if (v4) return {io::udp_v4, a.host, a.port}; return {io::udp_v6, a.host, a.port};
    default: if (type == SOCK_STREAM) return {io::tcp, a.host, a.port}; return {io::udp, a.host, a.port};
  }
}
std::string kernel_address(const address & a)
{
  if (a.family == AF_UNIX) { sockaddr_un u{}; u.sun_family = AF_UNIX; return std::string(reinterpret_cast<char *>(&u), offsetof(sockaddr_un, sun_path)) + a.host + '\0'; }
  if (a.family == AF_INET) { sockaddr_in i{}; i.sin_family = AF_INET; i.sin_port = htons(a.port); inet_pton(AF_INET, a.host.c_str(), &i.sin_addr); return std::string(reinterpret_cast<char *>(&i), sizeof i); }
  sockaddr_in6 i{}; i.sin6_family = AF_INET6; i.sin6_port = htons(a.port); inet_pton(AF_INET6, a.host.c_str(), &i.sin6_addr); return std::string(reinterpret_cast<char *>(&i), sizeof i);
}
bool reads_as(const io::endpoint & e, const address & a)
{
  if (a.family == AF_UNIX) { auto p = get_if<io::local_protocol>(&e); return p && p->path() == a.host; }
  if (a.family == AF_INET) { auto p = get_if<io::ip_v4>(&e); return p && std::string(p->addr_str()) == a.host && p->port() == a.port; }
  auto p = get_if<io::ip_v6>(&e); return p && std::string(p->addr_str()) == a.host && p->port() == a.port;
}
std::map<std::string, bool> dead; // addresses nobody listens at
address target(int type)
{
  auto a = new_address(family_for(type));
  bool d = chance(1, 2, "dead");
  dead[kernel_address(a)] = d;
  if (!d)
  {
    int ls = ::socket(a.family, type, 0);
    auto k = kernel_address(a);
    if (::bind(ls, reinterpret_cast<const sockaddr *>(k.data()), k.size()) || (type != SOCK_DGRAM && ::listen(ls, 100))) harness_error("listen %d", errno);
    G->raw.insert(ls);
  }
  return a;
}
int raw_fd(slot & s)
{
  int fd = -1, sv[2];
  if (s.rp || s.wp)
  {
    if (::pipe(sv)) harness_error("pipe");
    fd = sv[s.rp ? 0 : 1];
    if (chance(1, 2, "keep")) G->raw.insert(sv[s.rp ? 1 : 0]); else ::close(sv[s.rp ? 1 : 0]);
  }
  else if (s.se) fd = ::open("/vtty/0", O_RDWR);
  else if (s.sf || s.rf) fd = ::open("/vfs/raw", O_RDWR | O_CREAT, 0777);
  else if (s.type() == SOCK_SEQPACKET || chance(1, 2, "pair")) { if (::socketpair(AF_UNIX, s.type(), 0, sv)) harness_error("socketpair"); fd = sv[0]; G->raw.insert(sv[1]); }
  else fd = ::socket(AF_INET, s.type(), 0);
  if (fd < 0) harness_error("raw descriptor");
  G->raw.insert(fd);
  return fd;
}

// ---- steps -----------------------------------------------------------------------
void make_object(slot & s, int kind)
{
  switch (kind)
  {
    case 0: s.st = std::make_unique<io::stream_socket>(); break;
    case 1: s.dg = std::make_unique<io::datagram_socket>(); break;
    case 2: s.sq = std::make_unique<io::seq_packet_socket>(); break;
    case 3: s.rp = std::make_unique<io::readable_pipe>(); break;
    case 4: s.wp = std::make_unique<io::writable_pipe>(); break;
    case 5: s.se = std::make_unique<io::serial_port>(); break;
    case 6: s.sf = std::make_unique<io::stream_file>(); break;
    case 7: s.rf = std::make_unique<io::random_access_file>(); break;
  }
}
void step_create(slot & s)
{
  if (s.exists()) { ev("destroy"); inject({"close", "epoll_ctl"}); s.reset(); vk::failures.clear(); check_fds("destruction"); return; }
  int kind = choose(8, "kind");
  switch (choose(3, "how"))
  {
    case 0: make_object(s, kind); check_fds("construction"); return;
    case 1: // from a descriptor
    {
      slot t; make_object(t, kind);
      int fd = raw_fd(t);
      auto pr = kind < 3 ? protocol(t.type(), vk::get(fd)->domain) : io::protocol_type();
      inject({"epoll_add"});
      auto ec = construct([&]
      {
        if (t.st) s.st = std::make_unique<io::stream_socket>(fd, pr);
        if (t.dg) s.dg = std::make_unique<io::datagram_socket>(fd, pr);
        if (t.sq) s.sq = std::make_unique<io::seq_packet_socket>(fd, pr);
        if (t.rp) s.rp = std::make_unique<io::readable_pipe>(fd);
        if (t.wp) s.wp = std::make_unique<io::writable_pipe>(fd);
        if (t.se) s.se = std::make_unique<io::serial_port>(fd);
        if (t.sf) s.sf = std::make_unique<io::stream_file>(fd);
        if (t.rf) s.rf = std::make_unique<io::random_access_file>(fd);
      });
      judge("constructor from a descriptor", ec);
      if (!ec) { s.fd = fd; G->raw.erase(fd); }
      check_fds("constructor from a descriptor");
      return;
    }
    default: // opened by the constructor
    {
      error_code ec, pre;
      if (kind < 3)
      {
        int type = kind == 0 ? SOCK_STREAM : kind == 1 ? SOCK_DGRAM : SOCK_SEQPACKET;
        auto a = new_address(family_for(type));
        auto ep = endpoint_of(a, type, true);
        inject({"socket", "epoll_add", "bind"});
        ec = construct([&] { if (kind == 0) s.st = std::make_unique<io::stream_socket>(ep); else if (kind == 1) s.dg = std::make_unique<io::datagram_socket>(ep); else s.sq = std::make_unique<io::seq_packet_socket>(ep); });
      }
      else if (kind == 5)
      {
        bool missing = chance(1, 6, "missing");
        if (missing) pre = any_error;
        inject({"open", "fcntl", "tcgetattr", "tcsetattr", "epoll_add"});
        ec = construct([&] { s.se = std::make_unique<io::serial_port>(missing ? "/vfs/none/tty" : "/vtty/1"); });
      }
      else if (kind > 5)
      {
        bool missing = chance(1, 6, "missing");
        if (missing) pre = error_code(ENOENT, boost::system::system_category());
        auto fl = missing ? io::file::read_write : io::file::read_write | io::file::create;
        const char * p = missing ? "/vfs/missing" : "/vfs/a";
        inject({"open", "epoll_add"});
        ec = construct([&] { if (kind == 6) s.sf = std::make_unique<io::stream_file>(p, fl); else s.rf = std::make_unique<io::random_access_file>(p, fl); });
      }
      else { make_object(s, kind); return; }
      judge("opening constructor", ec, pre);
      if (!ec) s.with([&](auto & o) { s.fd = o.native_handle(); });
      check_fds("opening constructor");
    }
  }
}
void step_open(slot & s)
{
  error_code ec, pre;
  if (s.fd != -1) pre = already;
  if (auto * k = s.sock())
  {
    auto pr = protocol(s.type(), family_for(s.type()));
    if (!pre && chance(1, 6, "wrong")) { pr = io::protocol_type(); pre = any_error; }
    inject({"socket", "epoll_add"});
    ec = outcome_of("open", [&] { return k->open(pr); });
  }
  else if (s.se)
  {
    inject({"open", "fcntl", "tcgetattr", "tcsetattr", "epoll_add"});
    ec = outcome_of("open", [&] { return s.se->open("/vtty/2"); });
  }
  else if (auto * f = s.file())
  {
    bool missing = chance(1, 6, "missing");
    if (missing && !pre) pre = error_code(ENOENT, boost::system::system_category());
    auto fl = missing ? io::file::read_write : io::file::read_write | io::file::create;
    std::string p = missing ? "/vfs/missing" : "/vfs/b";
    inject({"open", "epoll_add"});
    ec = outcome_of("open", [&] { return chance(1, 2, "str") ? f->open(p, fl) : f->open(p.c_str(), fl); });
  }
  else return;
  judge("open", ec, pre);
  if (!ec) s.with([&](auto & o) { s.fd = o.native_handle(); });
  check_fds("open");
}
void step_assign(slot & s)
{
  int fd = raw_fd(s);
  error_code ec, pre;
  if (s.fd != -1) pre = already;
  inject({"epoll_add"});
  if (auto * k = s.sock()) { auto pr = protocol(s.type(), vk::get(fd)->domain); ec = outcome_of("assign", [&] { return k->assign(pr, fd); }); }
  else if (auto * f = s.file()) ec = outcome_of("assign", [&] { return f->assign(fd); });
  else if (s.rp) ec = outcome_of("assign", [&] { return s.rp->assign(fd); });
  else if (s.wp) ec = outcome_of("assign", [&] { return s.wp->assign(fd); });
  else ec = outcome_of("assign", [&] { return s.se->assign(fd); });
  judge("assign", ec, pre);
  if (!ec) { s.fd = fd; G->raw.erase(fd); }
  check_fds("assign");
}
void step_release(slot & s)
{
  if (s.se) return;
  int got = -1;
  error_code ec;
  auto rel = [&](auto & o) { ec = outcome_of("release", [&] { auto r = o.release(); if (r) got = *r; return r; }); };
  inject({"epoll_ctl", "close"});
  if (s.st) rel(*s.st); if (s.dg) rel(*s.dg); if (s.sq) rel(*s.sq); if (s.rp) rel(*s.rp); if (s.wp) rel(*s.wp); if (s.sf) rel(*s.sf); if (s.rf) rel(*s.rf);
  vk::failures.clear();
  if (s.fd != -1)
  {
    SIM_CHECK(!ec, "sys:unexpected", "release of an open object reports \"%s\"", ec.message().c_str());
    SIM_CHECK(got == s.fd, "fd:handle", "release returned descriptor %d instead of %d", got, s.fd);
    G->raw.insert(s.fd); s.fd = -1;
    probe("released");
  }
  else SIM_CHECK(bool(ec) || got == -1, "fd:handle", "release of a closed object returned descriptor %d", got);
  check_fds("release");
}
void step_close(slot & s)
{
  error_code ec;
  inject({"close"});
  if (s.fd == -1) vk::failures.clear();
  s.with([&](auto & o) { ec = outcome_of("close", [&] { return o.close(); }); });
  judge("close", ec);
  s.fd = -1;
  check_fds("close");
}
void step_cancel(slot & s)
{
  error_code ec;
  vk::failures.clear();
  s.with([&](auto & o) { ec = outcome_of("cancel", [&] { return o.cancel(); }); });
  if (s.fd != -1) judge("cancel", ec);
  check_fds("cancel");
}
void step_move(slot & s)
{
  ev("move");
  auto mv = [&]<typename T>(std::unique_ptr<T> & p)
  {
    if (!p) return;
    auto old = std::move(p);
    p = std::make_unique<T>(std::move(*old));
    SIM_CHECK(!old->is_open(), "fd:move", "an object is still open after it was moved from");
    if (chance(1, 2, "keep")) { (void)old->close(); }
    old.reset();
  };
  vk::failures.clear();
  mv(s.st); mv(s.dg); mv(s.sq); mv(s.rp); mv(s.wp); mv(s.se); mv(s.sf); mv(s.rf);
  check_fds("a move");
}

template<typename T> T value_of(boost::system::result<T> & r) { return *r; }
void step_option(slot & s)
{
  auto * k = s.sock();
  if (!k) return;
  auto run = [&](const char * name, int level, int opt, auto set, auto get, auto v)
  {
    error_code pre;
    auto d = s.fd == -1 ? nullptr : vk::get(s.fd);
    if (!d) pre = any_error;
    else if (level == IPPROTO_TCP && (d->domain == AF_UNIX || d->type != SOCK_STREAM)) pre = error_code(EOPNOTSUPP, boost::system::system_category());
    inject({"setsockopt"});
    auto ec = outcome_of(name, [&] { return set(v); });
    judge((std::string("set_") + name).c_str(), ec, pre);
    if (!ec && level >= 0)
    {
      auto it = d->opts.find({level, opt});
      SIM_CHECK(it != d->opts.end() && *reinterpret_cast<const int *>(it->second.data()) == (int)v * (opt == SO_SNDBUF || opt == SO_RCVBUF ? 2 : 1), "sys:option", "set_%s did not set its option", name);
    }
    inject({"getsockopt"});
    decltype(v) got{};
    bool had = false;
    auto ec2 = outcome_of(name, [&] { auto r = get(); if (r) { got = *r; had = true; } return r; });
    judge((std::string("get_") + name).c_str(), ec2, pre);
    if (had && !ec) SIM_CHECK(got == v, "sys:option", "get_%s returns %d instead of %d", name, (int)got, (int)v);
  };
#define OPT(Name, Level, Opt, V) run(#Name, Level, Opt, [&](auto v) { return k->set_##Name(v); }, [&] { return k->get_##Name(); }, V)
  bool b = choose(2, "v"); int n = 1 + choose(100000, "v");
  switch (choose(11, "option"))
  {
    case 0: OPT(debug, SOL_SOCKET, SO_DEBUG, b); break;
    case 1: OPT(do_not_route, SOL_SOCKET, SO_DONTROUTE, b); break;
    case 2: OPT(enable_connection_aborted, -1, 0, b); break;
    case 3: OPT(keep_alive, SOL_SOCKET, SO_KEEPALIVE, b); break;
    case 4: OPT(receive_buffer_size, SOL_SOCKET, SO_RCVBUF, n); break;
    case 5: OPT(send_buffer_size, SOL_SOCKET, SO_SNDBUF, n); break;
    case 6: OPT(receive_low_watermark, SOL_SOCKET, SO_RCVLOWAT, n); break;
    case 7: OPT(send_low_watermark, SOL_SOCKET, SO_SNDLOWAT, n); break;
    case 8: OPT(reuse_address, SOL_SOCKET, SO_REUSEADDR, b); break;
    case 9: OPT(no_delay, IPPROTO_TCP, TCP_NODELAY, b); break;
    default:
    {
      error_code pre; if (s.fd == -1) pre = any_error;
      int t = choose(20, "linger");
      inject({"setsockopt"});
      auto ec = outcome_of("set_linger", [&] { return k->set_linger(b, t); });
      judge("set_linger", ec, pre);
      inject({"getsockopt"});
      std::pair<bool, int> got;
      auto ec2 = outcome_of("get_linger", [&] { auto r = k->get_linger(); if (r) got = *r; return r; });
      judge("get_linger", ec2, pre);
      if (!ec && !ec2) SIM_CHECK(got == std::pair(b, t), "sys:option", "get_linger returns %d,%d instead of %d,%d", got.first, got.second, b, t);
    }
  }
  check_fds("an option");
}
void step_query(slot & s)
{
  auto * k = s.sock();
  if (!k) return;
  auto d = s.fd == -1 ? nullptr : vk::get(s.fd);
  error_code pre, unconnected; if (!d) pre = unconnected = any_error; else if (!d->connected) unconnected = error_code(ENOTCONN, boost::system::system_category());
  switch (choose(4, "query"))
  {
    case 0:
    {
      std::size_t n = choose(2, "data") ? 1 + choose(50, "data") : 0;
      if (d && d->in && !d->rd_shut) { d->in->avail.assign(n, 'x'); vk::notify(d); }
      std::size_t want = !d ? 0 : d->in ? d->in->avail.size() : d->min && !d->min->avail.empty() ? d->min->avail.front().data.size() : 0, got = 0;
      inject({"ioctl"});
      auto ec = outcome_of("bytes_readable", [&] { auto r = k->bytes_readable(); if (r) got = *r; return r; });
      judge("bytes_readable", ec, pre);
      if (!ec) SIM_CHECK(got == want, "sys:value", "bytes_readable is %zu instead of %zu", got, want);
      break;
    }
    case 1: case 2:
    {
      bool local = choose(2, "local");
      std::string got;
      inject({local ? "getsockname" : "getpeername"});
      auto ec = outcome_of("endpoint", [&] { auto r = local ? k->local_endpoint() : k->remote_endpoint(); if (r) got.assign(static_cast<const char *>(r->data()), r->size()); return r; });
      judge(local ? "local_endpoint" : "remote_endpoint", ec, local ? pre : unconnected);
      if (!ec)
      {
        auto want = local ? d->local : d->remote;
        SIM_CHECK(want.empty() ? got.size() >= 2 && reinterpret_cast<const sockaddr *>(got.data())->sa_family == d->domain : got == want, "sys:value", "%s endpoint is not the kernel's", local ? "local" : "remote");
      }
      break;
    }
    case 3:
    {
      static const io::socket::shutdown_type hows[] = {io::socket::shutdown_type::shutdown_receive, io::socket::shutdown_type::shutdown_send, io::socket::shutdown_type::shutdown_both};
      int h = choose(3, "how");
      bool r0 = d && d->rd_shut, w0 = d && d->wr_shut;
      inject({"shutdown"});
      auto ec = outcome_of("shutdown", [&] { return k->shutdown(hows[h]); });
      judge("shutdown", ec, unconnected);
      if (!ec) SIM_CHECK(d->rd_shut == (r0 || h != 1) && d->wr_shut == (w0 || h != 0), "sys:value", "shutdown closed the wrong side");
      break;
    }
  }
  check_fds("a query");
}
void step_serial(slot & s)
{
  if (!s.se) return;
  auto & p = *s.se;
  error_code pre; if (s.fd == -1) pre = any_error;
  auto run = [&](const char * name, auto set, auto get, auto v, error_code bad = {})
  {
    auto pr = pre ? pre : bad;
    inject({"tcgetattr", "tcsetattr"});
    auto ec = outcome_of(name, [&] { return set(v); });
    judge((std::string("set_") + name).c_str(), ec, pr);
    inject({"tcgetattr"});
    decltype(v) got{};
    auto ec2 = outcome_of(name, [&] { auto r = get(); if (r) got = *r; return r; });
    judge((std::string("get_") + name).c_str(), ec2, pre);
    if (!ec && !ec2) SIM_CHECK(got == v, "sys:option", "get_%s returns %d instead of %d", name, (int)got, (int)v);
  };
#define SOPT(Name, V, ...) run(#Name, [&](auto v) { return p.set_##Name(v); }, [&] { return p.get_##Name(); }, V __VA_OPT__(,) __VA_ARGS__)
  switch (choose(5, "serial"))
  {
    case 0: { static const unsigned b[] = {300, 9600, 19200, 115200, 12345}; unsigned v = b[choose(5, "baud")]; SOPT(baud_rate, v, v == 12345 ? error_code(asio::error::invalid_argument) : error_code()); break; }
    case 1: SOPT(character_size, 5u + (unsigned)choose(4, "size")); break;
    case 2: { static const io::serial_port::flow_control f[] = {io::serial_port::flow_control::none, io::serial_port::flow_control::software, io::serial_port::flow_control::hardware}; SOPT(flow_control, f[choose(3, "flow")]); break; }
    case 3: { static const io::serial_port::parity f[] = {io::serial_port::parity::none, io::serial_port::parity::odd, io::serial_port::parity::even}; SOPT(parity, f[choose(3, "parity")]); break; }
    case 4:
    {
      auto d = s.fd == -1 ? nullptr : vk::get(s.fd);
      std::size_t n = d ? d->opts[{-2, 0}].size() : 0;
      inject({"tcsendbreak"});
      auto ec = outcome_of("send_break", [&] { return p.send_break(); });
      judge("send_break", ec, pre);
      if (d) { std::size_t m = d->opts[{-2, 0}].size(); SIM_CHECK(m == n + !ec, "sys:value", "send_break sent %zu breaks", m - n); }
      break;
    }
  }
  check_fds("a serial port call");
}
void step_pair(slot & a, slot & b)
{
  if (&a == &b) return;
  int how = choose(3, "pair");
  if (how == 2) // a pipe
  {
    if (a.exists() || b.exists()) return;
    inject({"pipe", "epoll_add", "epoll_add"}, 2);
    auto ec = outcome_of("pipe", [&]
    {
      auto r = io::pipe();
      if (r) { a.rp = std::make_unique<io::readable_pipe>(std::move(r->first)); b.wp = std::make_unique<io::writable_pipe>(std::move(r->second)); }
      return boost::system::result<int>(r ? boost::system::result<int>(1) : boost::system::result<int>(r.error()));
    });
    judge("pipe", ec);
    if (!ec) { a.fd = a.rp->native_handle(); b.fd = b.wp->native_handle(); auto x = vk::get(a.fd), y = vk::get(b.fd); SIM_CHECK(x && y && x->k == vk::kind::pipe_r && y->k == vk::kind::pipe_w && x->peer.lock() == y, "fd:pair", "pipe returned ends that don't belong together"); }
    check_fds("pipe");
    return;
  }
  if (how == 1) // a fresh pair
  {
    if (a.exists() || b.exists()) return;
    int t = choose(3, "type");
    inject({"socketpair", "epoll_add", "epoll_add"}, 2);
    auto take = [&](auto r, auto & x, auto & y) { using T = std::decay_t<decltype(*x)>; if (r) { x = std::make_unique<T>(std::move(r->first)); y = std::make_unique<T>(std::move(r->second)); } return r ? boost::system::result<int>(1) : boost::system::result<int>(r.error()); };
    auto ec = outcome_of("make_pair", [&] { if (t == 0) return take(io::make_pair(io::local_stream), a.st, b.st); if (t == 1) return take(io::make_pair(io::local_datagram), a.dg, b.dg); return take(io::make_pair(io::local_seqpacket), a.sq, b.sq); });
    judge("make_pair", ec);
    if (!ec) { a.fd = a.sock()->native_handle(); b.fd = b.sock()->native_handle(); auto x = vk::get(a.fd), y = vk::get(b.fd); SIM_CHECK(x && y && x->type == a.type() && x->peer.lock() == y, "fd:pair", "make_pair returned sockets that aren't connected"); }
    check_fds("make_pair");
    return;
  }
  if (!a.sock() || !b.sock() || &a == &b || a.type() != b.type()) return;
  error_code pre;
  if (a.fd != -1 || b.fd != -1) pre = already;
  int fam = chance(1, 6, "inet") ? AF_INET : AF_UNIX;
  if (fam == AF_INET) pre = error_code(EOPNOTSUPP, boost::system::system_category());
  // with two calls in play an injected failure may not be reached
  inject({"socketpair", "epoll_add", "epoll_add"}, 2);
  auto ec = outcome_of("connect_pair", [&] { return io::connect_pair(protocol(a.type(), fam), *a.sock(), *b.sock()); });
  judge("connect_pair", ec, pre);
  if (!ec) { a.fd = a.sock()->native_handle(); b.fd = b.sock()->native_handle(); auto x = vk::get(a.fd), y = vk::get(b.fd); SIM_CHECK(x && y && x->peer.lock() == y, "fd:pair", "connect_pair left sockets that aren't connected"); }
  else probe("pair-failed");
  check_fds("connect_pair");
}
void step_signal(int i)
{
  auto & p = G->sigs[i];
  static const int nums[] = {SIGINT, SIGTERM, SIGHUP, SIGUSR1};
  int sig = nums[choose(4, "signal")];
  error_code ec, pre;
  auto others = [&](int sg) { return G->in_set[1 - i].count(sg) > 0; };
  if (!p)
  {
    int bad = chance(1, 5, "bad") ? 1 : 0;
    inject({"sigaction"});
    ec = construct([&] { if (bad) p = std::make_unique<io::signal_set>(std::initializer_list<int>{sig, 1000}); else p = std::make_unique<io::signal_set>(std::initializer_list<int>{sig, sig}); });
    judge("signal_set", ec, bad ? error_code(asio::error::invalid_argument) : error_code());
    if (!ec) G->in_set[i] = {sig};
  }
  else switch (choose(5, "sigop"))
  {
    case 0: case 1:
    {
      bool bad = chance(1, 6, "bad");
      inject({"sigaction"});
      ec = outcome_of("add", [&] { return p->add(bad ? 5000 : sig); });
      judge("signal_set::add", ec, bad ? error_code(asio::error::invalid_argument) : error_code());
      if (!ec) G->in_set[i].insert(sig);
      break;
    }
    case 2:
      inject({"sigaction"});
      ec = outcome_of("remove", [&] { return p->remove(sig); });
      judge("signal_set::remove", ec);
      if (!ec) G->in_set[i].erase(sig);
      break;
    case 3:
      vk::failures.clear();
      ec = outcome_of("clear", [&] { return p->clear(); });
      judge("signal_set::clear", ec);
      G->in_set[i].clear();
      break;
    case 4: vk::failures.clear(); p.reset(); G->in_set[i].clear(); break;
  }
  for (int sg : nums) SIM_CHECK(vk::handles(sg) == (G->in_set[i].count(sg) || others(sg)), "sys:signals", "signal %d is %s", sg, vk::handles(sg) ? "caught although nobody asked for it" : "not caught");
  check_fds("a signal set call");
}

error_code errno_code(int e) { if (e == EAGAIN) e = ENOBUFS; return error_code(e, boost::system::system_category()); }

proc run_actor(actor & a)
{
  int n = range(4, 24, "steps");
  for (int i = 0; i < n; i++)
  {
    auto & s = G->s[choose(nslots, "slot")];
    int what = choose(16, "step");
    if (!s.exists() && what < 12) what = 0;
    if (what == 0 && s.exists() && !chance(1, 3, "really")) what = 10;
    switch (what)
    {
      case 0: step_create(s); break;
      case 1: step_open(s); break;
      case 2: step_assign(s); break;
      case 3: step_release(s); break;
      case 4: step_close(s); break;
      case 5: step_cancel(s); break;
      case 6: step_move(s); break;
      case 7: case 8: step_option(s); break;
      case 9: step_query(s); break;
      case 12: case 13: step_pair(s, G->s[choose(nslots, "slot")]); break;
      case 14: step_signal(choose(2, "set")); break;
      case 15: step_serial(s); break;
      case 10: case 11:
      {
        if (s.se) { step_serial(s); break; }
        auto * k = s.sock();
        if (!k) break;
        int type = s.type();
        bool was_open = s.fd != -1;
        std::size_t from = vk::connect_log.size();
        auto d0 = was_open ? vk::get(s.fd) : nullptr;
        G->connecting = &s - G->s; G->stopped = false;
        if (chance(1, 4, "stop"))
        {
          int w = choose(2, "what");
          W->add([k, w]
          {
            if (G->connecting == -1 || G->s[G->connecting].sock() != k) return;
            ev("%s while connecting", w ? "close()" : "cancel()"); fault(w ? "close-connecting" : "cancel-connecting");
            G->stopped = true;
            if (w) (void)k->close(); else (void)k->cancel();
          }, choose(2, "direct"));
        }
        if (chance(1, 2, "range"))
        {
          std::vector<address> as; io::endpoint_sequence eps;
          for (int m = choose(4, "neps"); m > 0; m--) { as.push_back(target(type)); eps.push_back(endpoint_of(as.back(), type, false)); }
          from = vk::connect_log.size();
          inject({"connect", "connect", "socket", "connect-async", "epoll_add"}, 3);
          auto [ec, ep] = co_await cobalt::as_tuple(k->connect(eps));
          G->connecting = -1;
          bool hit_open = false;
          for (auto & f : vk::failures) if (f.hit && (f.name == "socket" || f.name == "epoll_add")) hit_open = true;
          ev("connect of %zu endpoints: %s", as.size(), ec ? ec.message().c_str() : "ok");
          vk::failures.clear();
          auto & L = vk::connect_log;
          std::size_t m = L.size() - from;
          SIM_CHECK(m <= as.size(), "sys:order", "connect was called %zu times for %zu endpoints", m, as.size());
          for (std::size_t j = 0; j < m; j++) SIM_CHECK(L[from + j].addr == kernel_address(as[j]), "sys:order", "endpoint %zu was not tried in its turn", j);
          for (std::size_t j = 0; j + 1 < m && !G->stopped; j++) SIM_CHECK(L[from + j].err != 0, "sys:order", "endpoint %zu was connected and yet endpoint %zu was tried", j, j + 1);
          if (!ec)
          {
            SIM_CHECK(m > 0 && L[from + m - 1].err == 0, "sys:error-lost", "connect succeeded although no endpoint was connected");
            SIM_CHECK(reads_as(ep, as[m - 1]), "sys:value", "connect reports another endpoint than the one it connected to");
            auto d = vk::get(k->native_handle());
            SIM_CHECK(d && d->connected && d->remote == kernel_address(as[m - 1]) && d->type == type, "sys:value", "connect succeeded and left the socket unconnected");
            probe("range-connected");
          }
          else if (!G->stopped && !hit_open)
          {
            if (as.empty()) SIM_CHECK(ec == error_code(asio::error::not_found), "sys:error-code", "connecting to nothing reports %s", ec.message().c_str());
            else
            {
              SIM_CHECK(m == as.size(), "sys:order", "connect gave up after %zu of %zu endpoints", m, as.size());
              SIM_CHECK(L.back().err > 0 && ec == errno_code(L.back().err), "sys:error-code", "connect reports \"%s\" instead of the last error %d", ec.message().c_str(), L.back().err);
            }
          }
          if (!ec) for (std::size_t j = 0; j < m; j++) if (j + 1 == m) SIM_CHECK(!dead[kernel_address(as[j])] || type == SOCK_DGRAM, "sys:value", "connected to nobody");
        }
        else
        {
          auto t = target(type);
          from = vk::connect_log.size();
          auto ep = endpoint_of(t, type, false);
          inject({"connect", "socket", "connect-async", "epoll_add"});
          auto [ec] = co_await cobalt::as_tuple(k->connect(ep));
          G->connecting = -1;
          bool hit = was_hit();
          ev("connect: %s", ec ? ec.message().c_str() : "ok");
          vk::failures.clear();
          auto & L = vk::connect_log;
          std::size_t m = L.size() - from;
          SIM_CHECK(m <= 1 && (m == 0 || L[from].addr == kernel_address(t)), "sys:order", "connect went to another address");
          if (!ec)
          {
            auto d = vk::get(k->native_handle());
            SIM_CHECK(m == 1 && L[from].err == 0 && d && d->connected && d->remote == kernel_address(t), "sys:error-lost", "connect succeeded although the kernel did not connect");
            SIM_CHECK(!hit, "sys:error-lost", "connect succeeded although a system call failed");
            SIM_CHECK(d->type == type, "sys:value", "the socket has type %d", d->type);
            if (!was_open && d->domain != AF_UNIX) SIM_CHECK(d->proto == 0 || d->proto == (type == SOCK_STREAM ? IPPROTO_TCP : IPPROTO_UDP), "sys:value", "the socket has protocol %d", d->proto);
            probe("connected");
          }
          else if (!G->stopped)
          {
            if (m && L[from].err > 0) SIM_CHECK(ec == errno_code(L[from].err), "sys:error-code", "connect reports \"%s\" instead of error %d", ec.message().c_str(), L[from].err);
            else SIM_CHECK(m == 0 && hit && ec == errno_code(injected_errno), "sys:error-code", "connect reports \"%s\"", ec.message().c_str());
          }
          if (was_open && !G->stopped) SIM_CHECK(k->is_open() && vk::get(k->native_handle()) == d0, "fd:state", "connect replaced the descriptor of an open socket");
        }
        s.fd = k->is_open() ? (int)k->native_handle() : -1;
        check_fds("connect");
        break;
      }
    }
    if (chance(1, 8, "pause")) co_await yield_{false};
  }
  (void)a;
}
}

void sim_main()
{
  vk::enabled = true;
  vk::cfg.time_passes = false;
  vk::cfg.connect_async = !chance(1, 4, "sync");
#if !defined(BOOST_COBALT_NO_PMR)
  ledger led("thread default");
  auto * old = cobalt::this_thread::set_default_resource(&led);
#endif
  auto wp = std::make_unique<world>();
  W = wp.get();
  W->kern_actions = vk::actions; W->kern_act = vk::act; W->kern_timer = [] { return false; }; W->kern_advance = vk::advance;
  state_t g;
  G = &g;
  dead.clear();
  for (auto p : {"/vtty/0", "/vtty/1", "/vtty/2"}) vk::files[p] = std::make_shared<vk::inode>();
  auto signals = std::make_unique<io::signal_set>();
  { auto p = io::make_pair(io::local_stream); if (!p) harness_error("make_pair"); }
  for (int f : vk::open_fds()) g.base.insert(f);
  auto a = std::make_unique<actor>(0);
  asio::post(W->ctx->get_executor(), [&] { run_actor(*a); });
  if (chance(1, 8, "early"))
  {
    int steps = range(0, 30, "steps");
    while (steps-- > 0 && W->step_once());
    fault("destroy-context");
  }
  else
  {
    W->run();
    SIM_CHECK(a->finished, "sys:hang", "a connect never completed");
  }
  W->guard.reset();
  g.connecting = -1;
  vk::failures.clear();
  for (auto & s : g.s) s.reset();
  for (auto & s : g.sigs) s.reset();
  signals.reset();
  wp.reset();
  SIM_CHECK(a->finished || a->destroyed || !a->started, "sys:leak", "awaiting actor leaked");
  a->sig.slot().clear();
#if !defined(BOOST_COBALT_NO_PMR)
  SIM_CHECK(led.live.empty(), "memory:leak", "%zu allocation(s) never returned", led.live.size());
  cobalt::this_thread::set_default_resource(old);
#endif
  std::set<int> have;
  for (int f : vk::open_fds()) have.insert(f);
  SIM_CHECK(fds(have, g.raw).empty(), "fd:leak", "descriptor%s still open at the end", fds(have, g.raw).c_str());
  SIM_CHECK(fds(g.raw, have).empty(), "fd:closed", "descriptor%s closed by an object that didn't own it", fds(g.raw, have).c_str());
  SIM_CHECK(vk::bad_closes == 0, "fd:double-close", "%d descriptor(s) closed that were not open", vk::bad_closes);
  W = nullptr;
  G = nullptr;
}
