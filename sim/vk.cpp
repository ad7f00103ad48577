#include "vk.hpp"
#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <termios.h>
#include <unistd.h>
#undef fstat
#undef open
#undef lseek

using namespace sim;
namespace vk
{
config cfg;
std::vector<failure> failures;
std::map<std::string, int> counts;
std::map<std::string, std::shared_ptr<inode>> files;
bool enabled = false;
int bad_closes = 0;
std::vector<transfer> sent_log, recv_log;
std::vector<connect_try> connect_log;
int hits() { int n = 0; for (auto & f : failures) n += f.hit; return n; }
std::function<bool()> on_block;
std::function<void(const char *)> on_call;
std::function<void(const char *)> on_switch;
std::function<void(std::function<bool()>, const char *)> on_wait;
std::function<resolution(const char *, const char *, const void *)> on_resolve;
int live_addrinfo = 0;

namespace
{
std::map<int, dp> table;
std::vector<std::weak_ptr<desc>> all;
int ephemeral = 40000;
std::uint64_t msg_no = 0;
struct sigaction handlers[65];

struct guard { bool * b; explicit guard(bool & x) : b(&x) { x = true; } ~guard() { *b = false; } };
bool inside = false; // no signal injection from inside the kernel

bool virt(int fd) { return enabled && fd >= first_fd; }
int fail_(int e) { errno = e; return -1; }

// every call goes through here: signals, scripted failures
bool enter(const char * name, int * err)
{
  counts[name]++;
  if (on_switch) on_switch(name);
  if (on_call && !inside) { guard g(inside); on_call(name); }
  for (auto & f : failures)
    if (!f.hit && f.name == name && f.nth-- == 0)
    {
      f.hit = true;
      *err = f.err;
      fault((std::string("fail-") + name).c_str());
      ev("kernel: %s fails with %d", name, f.err);
      return false;
    }
  return true;
}
#define ENTER(name) do { int e_ = 0; if (!enter(name, &e_)) return fail_(e_); } while (0)
#define GET(d, fd) auto d = get(fd); if (!d) { return fail_(EBADF); }

bool maybe(unsigned w, const char * what)
{
  if (w && chance(w, 64, what)) { fault(what); return true; }
  return false;
}

int install(dp d)
{
  int fd = first_fd;
  while (table.count(fd)) fd++;
  table[fd] = d;
  d->refs++;
  all.push_back(d);
  return fd;
}

std::uint32_t readiness(desc & d)
{
  std::uint32_t r = 0;
  switch (d.k)
  {
    case kind::stream: case kind::tty:
      if (d.connecting) return 0;
      if (d.so_error) r |= EPOLLERR | EPOLLIN | EPOLLOUT;
      if (!d.in) return r | EPOLLOUT | EPOLLHUP;
      if (!d.in->avail.empty() || d.in->fin_seen || d.in->rd_err || d.rd_shut) r |= EPOLLIN;
      if (d.in->rd_err) r |= EPOLLERR;
      if (d.out->room() > 0 || d.out->rd_closed || d.wr_shut) r |= EPOLLOUT;
      if (d.in->fin_seen) { r |= EPOLLRDHUP; if (d.wr_shut || d.out->rd_closed) r |= EPOLLHUP; }
      return r;
    case kind::pipe_r:
      if (!d.in->avail.empty()) r |= EPOLLIN;
      if (d.in->fin_seen) r |= EPOLLHUP | (d.in->avail.empty() ? 0 : EPOLLIN);
      return r;
    case kind::pipe_w:
      if (d.out->room() > 0) r |= EPOLLOUT;
      if (d.out->rd_closed) r |= EPOLLERR | EPOLLOUT;
      return r;
    case kind::dgram: case kind::seqpacket:
      if (d.so_error) r |= EPOLLERR | EPOLLIN | EPOLLOUT;
      if (!d.min) return r | EPOLLOUT;
      if (!d.min->avail.empty() || d.min->fin_seen || d.min->rd_err || d.rd_shut) r |= EPOLLIN;
      if (d.min->rd_err) r |= EPOLLERR;
      if (d.k == kind::seqpacket) { if (d.mout->avail.size() + d.mout->flight.size() < d.mout->cap || d.mout->rd_closed) r |= EPOLLOUT; if (d.min->fin_seen) r |= EPOLLHUP | EPOLLRDHUP; }
      else
      {
        auto p = d.peer.lock();
        if (!p || !p->min || p->min->rd_closed || d.domain != AF_UNIX || p->min->avail.size() + p->min->flight.size() < p->min->cap) r |= EPOLLOUT;
      }
      return r;
    case kind::listener: return d.accept_q.empty() ? 0 : EPOLLIN;
    case kind::eventfd: return (d.count ? EPOLLIN : 0) | EPOLLOUT;
    case kind::timerfd: return d.expiry >= 0 && steady_ns >= d.expiry ? EPOLLIN : 0;
    case kind::regular: return EPOLLIN | EPOLLOUT;
    case kind::fresh: return d.connecting ? 0 : EPOLLOUT | EPOLLHUP;
    default: return 0;
  }
}

void shut_write(desc & d)
{
  if (d.wr_shut) return;
  d.wr_shut = true;
  if (d.out) d.out->fin = true;
  if (d.mout) d.mout->fin = true;
  if (auto p = d.peer.lock()) notify(p);
}

void last_close(const dp & d)
{
  ev("kernel: %s released", d->name.c_str());
  shut_write(*d);
  auto p = d->peer.lock();
  if (d->in)
  {
    bool unread = !d->in->avail.empty() || !d->in->flight.empty();
    d->in->rd_closed = true;
    d->in->flight.clear();
    if (unread && d->k == kind::stream && p && p->in && !p->in->fin_seen) { p->in->rd_err = ECONNRESET; fault("reset-by-close"); }
  }
  if (d->min) d->min->rd_closed = true;
  if (d->ino) d->ino->opens--;
  for (auto & c : d->accept_q) { if (c->in) c->in->rd_closed = true; if (c->out) { c->out->fin = true; } if (c->mout) c->mout->fin = true; if (auto q = c->peer.lock()) { if (q->in) q->in->rd_err = ECONNRESET; notify(q); } }
  d->accept_q.clear();
  d->watches.clear();
  if (p) notify(p);
}

ssize_t take(stream_q & q, const iovec * v, int n, bool peek)
{
  std::size_t done = 0;
  for (int i = 0; i < n; i++)
    for (std::size_t j = 0; j < v[i].iov_len && done < q.avail.size(); j++) static_cast<unsigned char *>(v[i].iov_base)[j] = q.avail[done++];
  if (!peek) { q.avail.erase(q.avail.begin(), q.avail.begin() + done); q.consumed += done; }
  return done;
}

std::size_t total(const iovec * v, int n) { std::size_t t = 0; for (int i = 0; i < n; i++) t += v[i].iov_len; return t; }

int wait_in(const dp & d, const char * what)
{
  block_until([d] { return (readiness(*d) & (EPOLLIN | EPOLLERR | EPOLLHUP)) != 0; }, what);
  return 0;
}

ssize_t regular_io(const dp & d, const iovec * v, int n, bool wr, std::int64_t at)
{
  auto & f = *d->ino;
  bool own = at < 0;
  int acc = d->oflags & O_ACCMODE;
  if (wr ? acc == O_RDONLY : acc == O_WRONLY) return fail_(EBADF);
  std::size_t want = total(v, n);
  // regular files may transfer less than asked for
  if (want > 1 && cfg.eintr && chance(1, 4, "short-io")) { want = 1 + choose(want - 1, "short"); fault("short-io"); }
  if (wr && (d->oflags & O_APPEND)) at = f.data.size();
  else if (own) at = d->pos;
  if (!wr)
  {
    std::size_t done = 0;
    for (int i = 0; i < n; i++)
      for (std::size_t j = 0; j < v[i].iov_len && done < want && at + done < f.data.size(); j++) static_cast<char *>(v[i].iov_base)[j] = f.data[at + done++];
    if (own) d->pos = at + done;
    return done;
  }
  if ((std::size_t)at + want > f.limit)
  {
    if ((std::size_t)at >= f.limit) { fault("disk-full"); return fail_(ENOSPC); }
    want = f.limit - at; fault("disk-full-short");
  }
  if (f.data.size() < at + want) f.data.resize(at + want);
  std::size_t done = 0;
  for (int i = 0; i < n; i++)
    for (std::size_t j = 0; j < v[i].iov_len && done < want; j++) f.data[at + done++] = static_cast<const char *>(v[i].iov_base)[j];
  if (own || (d->oflags & O_APPEND)) d->pos = at + done;
  return done;
}

// all reading ends here
ssize_t do_read(int fd, iovec * v, int n, int flags, msghdr * mh, const char * name)
{
  if (auto d = get(fd); d && (d->k == kind::eventfd || d->k == kind::timerfd)) name = "event-read";
  ENTER(name);
  GET(d, fd);
  if (maybe(cfg.eintr, "eintr")) return fail_(EINTR);
  bool nb = d->nonblock || (flags & MSG_DONTWAIT);
  if (mh) { mh->msg_flags = 0; }
  for (;;)
  {
    switch (d->k)
    {
      case kind::stream: case kind::pipe_r: case kind::tty:
      {
        if (!d->in) return fail_(d->connecting ? EAGAIN : ENOTCONN);
        auto & q = *d->in;
        if (q.rd_err) { int e = q.rd_err; q.rd_err = 0; return fail_(e); }
        if (!q.avail.empty())
        {
          if (nb && !(flags & MSG_PEEK) && maybe(cfg.again, "eagain")) { fault("spurious-eagain"); for (auto & [f, x] : table) if (x->k == kind::epoll) for (auto & [g, w] : x->watches) if (w.d.lock() == d) w.trig = true; return fail_(EAGAIN); }
          ssize_t r = take(q, v, n, flags & MSG_PEEK);
          if (auto p = d->peer.lock()) notify(p);
          ev("kernel: %s reads %zd of %zu", d->name.c_str(), r, total(v, n));
          return r;
        }
        if (q.fin_seen || d->rd_shut || total(v, n) == 0) return 0;
        break;
      }
      case kind::dgram: case kind::seqpacket:
      {
        if (!d->min) { if (d->k == kind::seqpacket) return fail_(ENOTCONN); break; }
        auto & q = *d->min;
        if (q.rd_err) { int e = q.rd_err; q.rd_err = 0; return fail_(e); }
        if (!q.avail.empty())
        {
          auto m = q.avail.front();
          std::size_t done = 0;
          for (int i = 0; i < n; i++)
            for (std::size_t j = 0; j < v[i].iov_len && done < m.data.size(); j++) static_cast<char *>(v[i].iov_base)[j] = m.data[done++];
          if (mh)
          {
            if (done < m.data.size()) mh->msg_flags |= MSG_TRUNC;
            mh->msg_flags |= m.flags;
            if (mh->msg_name) { mh->msg_namelen = std::min<std::size_t>(mh->msg_namelen, m.from.size()); std::memcpy(mh->msg_name, m.from.data(), mh->msg_namelen); }
          }
          recv_log.push_back({d.get(), m.data, done, mh ? mh->msg_flags : 0, (flags & MSG_PEEK) != 0});
          if (!(flags & MSG_PEEK)) { q.avail.pop_front(); q.consumed++; }
          if (auto p = d->peer.lock()) notify(p);
          for (auto & w : all) if (auto x = w.lock()) if (x->k == kind::dgram && x->peer.lock() == d) notify(x);
          ev("kernel: %s receives message %llu, %zu of %zu bytes", d->name.c_str(), (unsigned long long)m.no, done, m.data.size());
          return done;
        }
        if (q.fin_seen || d->rd_shut) return 0;
        break;
      }
      case kind::regular: { auto r = regular_io(d, v, n, false, -1); ev("kernel: %s reads %zd at %lld", d->name.c_str(), r, (long long)d->pos); return r; }
      case kind::eventfd: if (d->count) { std::uint64_t c = d->count; d->count = 0; std::memcpy(v[0].iov_base, &c, 8); return 8; } break;
      case kind::timerfd: if (d->expiry >= 0 && steady_ns >= d->expiry) { std::uint64_t c = 1; d->expiry = -1; std::memcpy(v[0].iov_base, &c, 8); return 8; } break;
      case kind::listener: case kind::fresh: return fail_(ENOTCONN);
      default: return fail_(EINVAL);
    }
    if (nb) return fail_(EAGAIN);
    wait_in(d, name);
  }
}

dp find_bound(int domain, kind k, const std::string & addr)
{
  for (auto & w : all)
    if (auto x = w.lock())
      if (x->refs > 0 && x->domain == domain && x->bound && x->local == addr && (k == kind::listener ? x->k == kind::listener : x->k == k)) return x;
  return nullptr;
}

ssize_t transmit(const dp & d, const iovec * v, int n, int flags)
{
  if (d->wr_shut) return fail_(EPIPE);
  std::string data;
  for (int i = 0; i < n; i++) data.append(static_cast<const char *>(v[i].iov_base), v[i].iov_len);
  if (data.size() > 4096) return fail_(EMSGSIZE);
  std::shared_ptr<msg_q> q;
  dp to;
  if (d->k == kind::seqpacket)
  {
    if (!d->mout) return fail_(ENOTCONN);
    q = d->mout;
    if (q->rd_closed) return fail_(EPIPE);
    to = d->peer.lock();
  }
  else
  {
    to = d->peer.lock();
    if (!to && d->remote.size()) to = find_bound(d->domain, kind::dgram, d->remote);
    if (!to && d->remote.empty()) return fail_(d->domain == AF_UNIX ? ENOTCONN : EDESTADDRREQ);
    if (!to || to->refs == 0) { if (d->domain == AF_UNIX) return fail_(ECONNREFUSED); fault("datagram-to-nobody"); return data.size(); }
    if (!to->min) to->min = std::make_shared<msg_q>();
    q = to->min;
    if (q->rd_closed) return fail_(ECONNREFUSED);
    if (to->remote.size() && d->local != to->remote && d->domain != AF_UNIX) return data.size(); // filtered by the peer
  }
  if (q->avail.size() + q->flight.size() >= q->cap)
  {
    if (d->domain != AF_UNIX) { fault("datagram-dropped"); q->lost++; q->log.push_back(data); q->sent++; return data.size(); }
    return fail_(EAGAIN);
  }
  message m; m.data = data; m.from = d->local; m.no = ++msg_no;
  if (d->k == kind::seqpacket && (flags & MSG_EOR)) m.flags |= MSG_EOR;
  q->sent++; q->log.push_back(data);
  ev("kernel: %s sends message %llu, %zu bytes", d->name.c_str(), (unsigned long long)m.no, data.size());
  q->flight.push_back(m);
  return data.size();
}

ssize_t send_message(const dp & d, const iovec * v, int n, int flags)
{
  auto r = transmit(d, v, n, flags);
  if (r >= 0)
  {
    std::string data;
    for (int i = 0; i < n; i++) data.append(static_cast<const char *>(v[i].iov_base), v[i].iov_len);
    sent_log.push_back({d.get(), data, data.size(), flags, false});
  }
  return r;
}

ssize_t do_write(int fd, const iovec * v, int n, int flags, const char * name)
{
  if (auto d = get(fd); d && d->k == kind::eventfd) name = "event-write";
  ENTER(name);
  GET(d, fd);
  if (maybe(cfg.eintr, "eintr")) return fail_(EINTR);
  bool nb = d->nonblock || (flags & MSG_DONTWAIT);
  for (;;)
  {
    switch (d->k)
    {
      case kind::stream: case kind::pipe_w: case kind::tty:
      {
        if (d->so_error) { int e = d->so_error; d->so_error = 0; return fail_(e); }
        if (!d->out) return fail_(d->connecting ? EAGAIN : (d->k == kind::stream ? ENOTCONN : EPIPE));
        auto & q = *d->out;
        if (d->wr_shut || q.rd_closed) return fail_(EPIPE);
        if (total(v, n) == 0) return 0;
        std::size_t room = q.room(), done = 0;
        if (room == 0) break;
        for (int i = 0; i < n; i++)
          for (std::size_t j = 0; j < v[i].iov_len && done < room; j++, done++) q.flight.push_back(static_cast<const unsigned char *>(v[i].iov_base)[j]);
        q.sent += done;
        if (done < total(v, n)) fault("short-write");
        ev("kernel: %s writes %zu of %zu", d->name.c_str(), done, total(v, n));
        if (d->k == kind::pipe_w && !cfg.pipe_latency)
        {
          q.avail.insert(q.avail.end(), q.flight.begin(), q.flight.end());
          q.flight.clear();
          for (auto & [f, x] : table) if (x->k == kind::pipe_r && x->in == d->out) { notify(x); break; }
        }
        return done;
      }
      case kind::dgram: case kind::seqpacket:
      {
        auto r = send_message(d, v, n, flags);
        if (r < 0 && errno == EAGAIN) break;
        return r;
      }
      case kind::regular: { auto r = regular_io(d, v, n, true, -1); ev("kernel: %s writes %zd, then at %lld", d->name.c_str(), r, (long long)d->pos); return r; }
      case kind::eventfd: { std::uint64_t c; std::memcpy(&c, v[0].iov_base, 8); d->count += c; notify(d); return 8; }
      case kind::fresh: case kind::listener: return fail_(d->type == SOCK_STREAM ? EPIPE : ENOTCONN);
      default: return fail_(EINVAL);
    }
    if (nb) return fail_(EAGAIN);
    block_until([d] { return (readiness(*d) & (EPOLLOUT | EPOLLERR | EPOLLHUP)) != 0; }, name);
  }
}

kind kind_of_type(int type) { return type == SOCK_STREAM ? kind::stream : type == SOCK_DGRAM ? kind::dgram : kind::seqpacket; }

void link_pair(const dp & a, const dp & b)
{
  a->peer = b; b->peer = a;
  a->connected = b->connected = true;
  a->connecting = false;
  if (kind_of_type(a->type) == kind::stream)
  {
    auto x = std::make_shared<stream_q>(), y = std::make_shared<stream_q>();
    x->cap = y->cap = cfg.stream_cap;
    a->k = b->k = kind::stream;
    a->in = x; b->out = x; a->out = y; b->in = y;
  }
  else if (a->type == SOCK_DGRAM)
  {
    a->k = b->k = kind::dgram;
    a->min = std::make_shared<msg_q>(); b->min = std::make_shared<msg_q>();
  }
  else
  {
    auto x = std::make_shared<msg_q>(), y = std::make_shared<msg_q>();
    a->k = b->k = kind::seqpacket;
    a->min = x; b->mout = x; a->mout = y; b->min = y;
  }
}

// path names end at the first zero, which belongs to the address
std::string canon(const sockaddr * a, socklen_t l)
{
  std::string s(reinterpret_cast<const char *>(a), l);
  if (a->sa_family == AF_UNIX && l > 2 && s[2])
  {
    auto z = s.find('\0', 2);
    if (z != s.npos) s.resize(z);
    s += '\0';
  }
  return s;
}

int finish_connect(const dp & d) // returns 0 or errno
{
  auto l = find_bound(d->domain, kind::listener, d->remote);
  if (!l || l->k != kind::listener || l->type != d->type) return ECONNREFUSED;
  if ((int)l->accept_q.size() >= std::max(1, l->backlog)) return d->domain == AF_UNIX ? EAGAIN : ETIMEDOUT;
  auto s = std::make_shared<desc>();
  s->domain = d->domain; s->type = d->type; s->proto = d->proto;
  s->local = l->local;
  if (d->local.empty() && d->domain != AF_UNIX)
  {
    d->local = d->remote;
    if (d->domain == AF_INET) reinterpret_cast<sockaddr_in *>(d->local.data())->sin_port = htons(ephemeral++);
    else reinterpret_cast<sockaddr_in6 *>(d->local.data())->sin6_port = htons(ephemeral++);
  }
  s->remote = d->local;
  s->name = "accepted";
  link_pair(d, s);
  all.push_back(s);
  l->accept_q.push_back(s);
  notify(l);
  return 0;
}

struct action { int what; dp d; };
std::vector<action> list_actions()
{
  std::vector<action> r;
  std::erase_if(all, [](auto & w) { return w.expired(); });
  for (auto & w : all)
    if (auto d = w.lock())
    {
      if (d->refs == 0 && d->accept_q.empty() && !d->connected) continue;
      if (d->in && (!d->in->flight.empty() || (d->in->fin && !d->in->fin_seen)) && !d->in->rd_closed) r.push_back({0, d});
      if (d->min && !d->min->flight.empty()) r.push_back({1, d});
      if (d->min && d->min->flight.empty() && d->min->fin && !d->min->fin_seen) r.push_back({2, d});
      if (d->connecting) r.push_back({3, d});
    }
  return r;
}
}

dp get(int fd) { auto it = table.find(fd); return it == table.end() ? nullptr : it->second; }
std::vector<int> open_fds() { std::vector<int> r; for (auto & [f, d] : table) r.push_back(f); return r; }
std::string describe(int fd) { auto d = get(fd); return d ? d->name : "closed"; }
void fail(const char * name, int nth, int err) { failures.push_back({name, nth, err, false}); }

void notify(const dp & d)
{
  for (auto & [f, x] : table)
    if (x->k == kind::epoll)
      for (auto & [g, w] : x->watches)
        if (w.d.lock() == d) w.trig = true;
}

bool has_timer() { for (auto & [f, d] : table) if (d->k == kind::timerfd && d->expiry >= 0) return true; return false; }
void pass(std::int64_t ns) { steady_ns += ns; }
void jump_system(std::int64_t ns) { system_off_ns += ns; fault("clock-jump"); ev("system clock jumps by %lld ns", (long long)ns); }
bool advance()
{
  std::int64_t t = -1;
  // with several threads an expired timer may belong to one that doesn't look at it
  for (auto & [f, d] : table) if (d->k == kind::timerfd && d->expiry >= 0 && (!on_wait || d->expiry > steady_ns) && (t < 0 || d->expiry < t)) t = d->expiry;
  if (t < 0) return false;
  if (t > steady_ns)
  {
    steady_ns = t;
    if (chance(1, 4, "late")) steady_ns += (std::int64_t)choose(2000000, "lateness");
    ev("time %lld", (long long)steady_ns);
  }
  return true;
}

std::size_t actions() { return list_actions().size(); }
void act(std::size_t i)
{
  auto as = list_actions();
  if (i >= as.size()) return;
  auto & a = as[i];
  auto & d = a.d;
  switch (a.what)
  {
    case 0:
    {
      auto & q = *d->in;
      if (!q.flight.empty())
      {
        std::size_t n = q.flight.size();
        std::size_t k = n - choose(std::min<std::size_t>(n, 4096), "segment");
        if (k < n) fault("split-delivery");
        q.avail.insert(q.avail.end(), q.flight.begin(), q.flight.begin() + k);
        q.flight.erase(q.flight.begin(), q.flight.begin() + k);
        ev("network: %zu byte(s) reach %s", k, d->name.c_str());
      }
      else { q.fin_seen = true; ev("network: end of stream reaches %s", d->name.c_str()); }
      notify(d);
      break;
    }
    case 1:
    {
      auto & q = *d->min;
      bool inet = d->domain != AF_UNIX && d->type == SOCK_DGRAM;
      std::size_t j = inet && cfg.dgram_reorder ? choose(q.flight.size(), "reorder") : 0;
      if (j) fault("datagram-reordered");
      auto m = q.flight[j];
      q.flight.erase(q.flight.begin() + j);
      if (inet && cfg.dgram_loss && chance(1, 5, "loss")) { fault("datagram-lost"); q.lost++; ev("network: message %llu lost", (unsigned long long)m.no); notify(d); break; }
      q.avail.push_back(m);
      if (inet && cfg.dgram_dup && chance(1, 5, "dup")) { fault("datagram-duplicated"); q.dup++; q.flight.push_back(m); }
      ev("network: message %llu reaches %s", (unsigned long long)m.no, d->name.c_str());
      notify(d);
      break;
    }
    case 2: d->min->fin_seen = true; ev("network: end reaches %s", d->name.c_str()); notify(d); break;
    case 3:
    {
      int e = finish_connect(d);
      d->connecting = false;
      int e2 = 0;
      if (!enter("connect-async", &e2)) { if (!e && d->in) { reset_stream(d, ECONNRESET); d->in.reset(); d->out.reset(); d->connected = false; d->peer.reset(); } e = e2; }
      if (e) { d->so_error = e; d->remote.clear(); }
      for (auto i = connect_log.rbegin(); i != connect_log.rend(); ++i) if (i->d == d.get()) { i->err = e; break; }
      ev("network: connect of %s: %d", d->name.c_str(), e);
      notify(d);
      break;
    }
  }
}

bool deliver_all() { bool r = false; while (actions()) { act(0); r = true; } return r; }

void reset_reader(const std::shared_ptr<stream_q> & q, int err) { q->flight.clear(); q->rd_err = err; }
void reset_stream(dp d, int err)
{
  fault("connection-reset");
  ev("network: connection of %s breaks", d->name.c_str());
  auto p = d->peer.lock();
  for (auto & x : {d, p})
    if (x && x->in)
    {
      x->in->flight.clear(); x->in->avail.clear();
      x->in->rd_err = err; x->in->fin = x->in->fin_seen = true;
      x->out->rd_closed = true;
      notify(x);
    }
}

void block_until(std::function<bool()> ready, const char * what)
{
  if (on_wait) return on_wait(std::move(ready), what);
  while (!ready())
  {
    step();
    if (!on_block || !on_block()) violation("hang", "%s blocks for ever: nothing can happen any more", what);
  }
}

std::pair<int, int> make_stream_pair(int domain)
{
  auto a = std::make_shared<desc>(), b = std::make_shared<desc>();
  a->domain = b->domain = domain; a->type = b->type = SOCK_STREAM;
  link_pair(a, b);
  int x = install(a), y = install(b);
  a->name = "stream" + std::to_string(x); b->name = "stream" + std::to_string(y);
  return {x, y};
}

bool handles(int sig) { return sig > 0 && sig < 65 && handlers[sig].sa_handler != SIG_DFL && handlers[sig].sa_handler != SIG_IGN; }
void raise_signal(int sig)
{
  ev("signal %d", sig);
  if (handles(sig)) { bool was = inside; inside = true; handlers[sig].sa_handler(sig); inside = was; }
}
}

using namespace vk;
extern "C"
{
int close(int fd)
{
  if (!virt(fd)) return ::syscall(SYS_close, fd);
  auto d = get(fd);
  if (!d) { bad_closes++; ev("kernel: close of %d which is not open", fd); return fail_(EBADF); }
  int e = 0;
  bool ok = enter("close", &e);
  if (!ok && e == EWOULDBLOCK) return fail_(e); // lingering: still open
  ev("kernel: close %d %s", fd, d->name.c_str());
  table.erase(fd);
  // descriptors leave their epoll sets when the last reference goes
  if (--d->refs == 0)
  {
    for (auto & [f, x] : table) if (x->k == kind::epoll) std::erase_if(x->watches, [&](auto & w) { return w.second.d.lock() == d; });
    last_close(d);
  }
  return ok ? 0 : fail_(e);
}

ssize_t read(int fd, void * p, size_t n) { if (!virt(fd)) return ::syscall(SYS_read, fd, p, n); iovec v{p, n}; return do_read(fd, &v, 1, 0, nullptr, "read"); }
ssize_t write(int fd, const void * p, size_t n) { if (!virt(fd)) return ::syscall(SYS_write, fd, p, n); iovec v{const_cast<void *>(p), n}; return do_write(fd, &v, 1, 0, "write"); }
ssize_t readv(int fd, const iovec * v, int n) { if (!virt(fd)) return ::syscall(SYS_readv, fd, v, n); return do_read(fd, const_cast<iovec *>(v), n, 0, nullptr, "read"); }
ssize_t writev(int fd, const iovec * v, int n) { if (!virt(fd)) return ::syscall(SYS_writev, fd, v, n); return do_write(fd, v, n, 0, "write"); }
static ssize_t at_io(int fd, const iovec * v, int n, off_t o, bool wr)
{
  ENTER(wr ? "pwrite" : "pread");
  GET(d, fd);
  if (d->k != kind::regular) return fail_(ESPIPE);
  if (o < 0) return fail_(EINVAL);
  if (maybe(vk::cfg.eintr, "eintr")) return fail_(EINTR);
  auto r = regular_io(d, v, n, wr, o);
  ev("kernel: %s p%s %zd at %lld", d->name.c_str(), wr ? "writes" : "reads", r, (long long)o);
  return r;
}
ssize_t pread(int fd, void * p, size_t n, off_t o) { if (!virt(fd)) return ::syscall(SYS_pread64, fd, p, n, o); iovec v{p, n}; return at_io(fd, &v, 1, o, false); }
ssize_t pread64(int fd, void * p, size_t n, off64_t o) { return pread(fd, p, n, o); }
ssize_t pwrite(int fd, const void * p, size_t n, off_t o) { if (!virt(fd)) return ::syscall(SYS_pwrite64, fd, p, n, o); iovec v{const_cast<void *>(p), n}; return at_io(fd, &v, 1, o, true); }
ssize_t pwrite64(int fd, const void * p, size_t n, off64_t o) { return pwrite(fd, p, n, o); }
ssize_t preadv(int fd, const iovec * v, int n, off_t o) { if (!virt(fd)) return ::syscall(SYS_preadv, fd, v, n, o, 0); return at_io(fd, v, n, o, false); }
ssize_t preadv64(int fd, const iovec * v, int n, off64_t o) { return preadv(fd, v, n, o); }
ssize_t pwritev(int fd, const iovec * v, int n, off_t o) { if (!virt(fd)) return ::syscall(SYS_pwritev, fd, v, n, o, 0); return at_io(fd, v, n, o, true); }
ssize_t pwritev64(int fd, const iovec * v, int n, off64_t o) { return pwritev(fd, v, n, o); }

ssize_t recv(int fd, void * p, size_t n, int fl) { if (!virt(fd)) return ::syscall(SYS_recvfrom, fd, p, n, fl, nullptr, nullptr); iovec v{p, n}; return do_read(fd, &v, 1, fl, nullptr, "recv"); }
ssize_t recvmsg(int fd, msghdr * m, int fl) { if (!virt(fd)) return ::syscall(SYS_recvmsg, fd, m, fl); return do_read(fd, m->msg_iov, m->msg_iovlen, fl, m, "recv"); }
ssize_t recvfrom(int fd, void * p, size_t n, int fl, sockaddr * a, socklen_t * l)
{
  if (!virt(fd)) return ::syscall(SYS_recvfrom, fd, p, n, fl, a, l);
  iovec v{p, n}; msghdr m{}; m.msg_name = a; m.msg_namelen = l ? *l : 0;
  auto r = do_read(fd, &v, 1, fl, &m, "recv");
  if (l) *l = m.msg_namelen;
  return r;
}
ssize_t send(int fd, const void * p, size_t n, int fl) { if (!virt(fd)) return ::syscall(SYS_sendto, fd, p, n, fl, nullptr, 0); iovec v{const_cast<void *>(p), n}; return do_write(fd, &v, 1, fl, "send"); }
ssize_t sendmsg(int fd, const msghdr * m, int fl) { if (!virt(fd)) return ::syscall(SYS_sendmsg, fd, m, fl); return do_write(fd, m->msg_iov, m->msg_iovlen, fl, "send"); }
ssize_t sendto(int fd, const void * p, size_t n, int fl, const sockaddr *, socklen_t) { if (!virt(fd)) return fail_(ENOSYS); iovec v{const_cast<void *>(p), n}; return do_write(fd, &v, 1, fl, "send"); }

int socket(int domain, int type, int proto)
{
  if (!enabled) return ::syscall(SYS_socket, domain, type, proto);
  ENTER("socket");
  if (domain != AF_INET && domain != AF_INET6 && domain != AF_UNIX) return fail_(EAFNOSUPPORT);
  auto d = std::make_shared<desc>();
  d->domain = domain; d->type = type & 0xf; d->proto = proto; d->nonblock = type & SOCK_NONBLOCK;
  if (d->type != SOCK_STREAM && d->type != SOCK_DGRAM && d->type != SOCK_SEQPACKET) return fail_(ESOCKTNOSUPPORT);
  if (domain == AF_UNIX && proto != 0) return fail_(EPROTONOSUPPORT);
  if (domain == AF_INET6 && proto == IPPROTO_ICMP) return fail_(EPROTONOSUPPORT);
  if (domain != AF_UNIX && proto != 0 && (d->type == SOCK_STREAM) != (proto == IPPROTO_TCP || proto == IPPROTO_SCTP)) { if (d->type != SOCK_SEQPACKET || proto != IPPROTO_SCTP) return fail_(EPROTONOSUPPORT); }
  if (d->type == SOCK_DGRAM) d->k = kind::dgram;
  int fd = install(d);
  d->name = "socket" + std::to_string(fd);
  ev("kernel: socket(%d,%d,%d) = %d", domain, type & 0xf, proto, fd);
  return fd;
}
int socketpair(int domain, int type, int proto, int sv[2])
{
  if (!enabled) return ::syscall(SYS_socketpair, domain, type, proto, sv);
  ENTER("socketpair");
  if (domain != AF_UNIX) return fail_(EOPNOTSUPP);
  auto a = std::make_shared<desc>(), b = std::make_shared<desc>();
  a->domain = b->domain = domain; a->type = b->type = type & 0xf;
  link_pair(a, b);
  sv[0] = install(a); sv[1] = install(b);
  a->name = "pair" + std::to_string(sv[0]); b->name = "pair" + std::to_string(sv[1]);
  ev("kernel: socketpair(%d) = %d %d", a->type, sv[0], sv[1]);
  return 0;
}
int pipe2(int fds[2], int)
{
  if (!enabled) return ::syscall(SYS_pipe, fds);
  ENTER("pipe");
  auto a = std::make_shared<desc>(), b = std::make_shared<desc>();
  a->k = kind::pipe_r; b->k = kind::pipe_w;
  auto q = std::make_shared<stream_q>();
  q->cap = vk::cfg.stream_cap;
  a->in = q; b->out = q; a->peer = b; b->peer = a; a->connected = b->connected = true;
  fds[0] = install(a); fds[1] = install(b);
  a->name = "pipe-read" + std::to_string(fds[0]); b->name = "pipe-write" + std::to_string(fds[1]);
  ev("kernel: pipe = %d %d", fds[0], fds[1]);
  return 0;
}
int pipe(int fds[2]) noexcept { return pipe2(fds, 0); }
int bind(int fd, const sockaddr * a, socklen_t l)
{
  if (!virt(fd)) return ::syscall(SYS_bind, fd, a, l);
  ENTER("bind");
  GET(d, fd);
  std::string s = canon(a, l);
  if (d->bound) return fail_(EINVAL);
  if (a->sa_family != d->domain) return fail_(d->domain == AF_UNIX ? EINVAL : EAFNOSUPPORT);
  if (d->domain == AF_INET) { auto * p = reinterpret_cast<sockaddr_in *>(s.data()); if (l < sizeof(sockaddr_in)) return fail_(EINVAL); if (p->sin_port == 0) p->sin_port = htons(ephemeral++); }
  if (d->domain == AF_INET6) { auto * p = reinterpret_cast<sockaddr_in6 *>(s.data()); if (l < 24) return fail_(EINVAL); if (p->sin6_port == 0) p->sin6_port = htons(ephemeral++); }
  for (auto & w : all) if (auto x = w.lock()) if (x->refs > 0 && x->bound && x->domain == d->domain && x->type == d->type && x->local == s) return fail_(EADDRINUSE);
  d->local = s; d->bound = true;
  if (d->type == SOCK_DGRAM && !d->min) d->min = std::make_shared<msg_q>();
  return 0;
}
int listen(int fd, int backlog)
{
  if (!virt(fd)) return ::syscall(SYS_listen, fd, backlog);
  ENTER("listen");
  GET(d, fd);
  if (d->type == SOCK_DGRAM) return fail_(EOPNOTSUPP);
  if (!d->bound && d->domain == AF_UNIX) return fail_(EINVAL);
  d->k = kind::listener; d->backlog = backlog;
  return 0;
}
static int do_accept(int fd, sockaddr * a, socklen_t * l)
{
  ENTER("accept");
  GET(d, fd);
  if (d->k != kind::listener) return fail_(d->type == SOCK_DGRAM ? EOPNOTSUPP : EINVAL);
  if (maybe(vk::cfg.eintr, "eintr")) return fail_(EINTR);
  if (d->accept_q.empty())
  {
    if (d->nonblock) return fail_(EAGAIN);
    block_until([d] { return !d->accept_q.empty(); }, "accept");
  }
  auto s = d->accept_q.front(); d->accept_q.pop_front();
  int n = install(s);
  s->name = "accepted" + std::to_string(n);
  if (a && l) { socklen_t k = std::min<std::size_t>(*l, s->remote.size()); std::memcpy(a, s->remote.data(), k); if (s->remote.empty() && *l >= 2) { a->sa_family = s->domain; k = 2; } *l = k; }
  ev("kernel: accept = %d", n);
  return n;
}
int accept(int fd, sockaddr * a, socklen_t * l) { if (!virt(fd)) return ::syscall(SYS_accept, fd, a, l); return do_accept(fd, a, l); }
int accept4(int fd, sockaddr * a, socklen_t * l, int) { return accept(fd, a, l); }
static int do_connect(int fd, const dp & d, const sockaddr * a, socklen_t l, const std::string & s)
{
  ENTER("connect");
  if (!d) return fail_(EBADF);
  if ((d->domain == AF_INET && l < sizeof(sockaddr_in)) || (d->domain == AF_INET6 && l < 24)) return fail_(EINVAL);
  if (d->type == SOCK_DGRAM)
  {
    if (a->sa_family != d->domain) return fail_(EAFNOSUPPORT);
    d->remote = s;
    auto to = find_bound(d->domain, kind::dgram, s);
    if (d->domain == AF_UNIX) { if (!to) return fail_(ECONNREFUSED); d->peer = to; }
    if (d->local.empty() && d->domain != AF_UNIX)
    {
      d->local = s;
      if (d->domain == AF_INET) reinterpret_cast<sockaddr_in *>(d->local.data())->sin_port = htons(ephemeral++);
      else reinterpret_cast<sockaddr_in6 *>(d->local.data())->sin6_port = htons(ephemeral++);
      d->bound = true;
    }
    if (!d->min) d->min = std::make_shared<msg_q>();
    d->connected = true;
    return 0;
  }
  if (a->sa_family != d->domain) return fail_(d->domain == AF_UNIX ? EINVAL : EAFNOSUPPORT);
  if (d->connected) return fail_(EISCONN);
  if (d->connecting) return fail_(EALREADY);
  if (d->k == kind::listener) return fail_(EINVAL);
  d->remote = s;
  if (d->domain == AF_UNIX || !vk::cfg.connect_async)
  {
    int e = finish_connect(d);
    if (e) { d->remote.clear(); return fail_(e); }
    return 0;
  }
  d->connecting = true; d->so_error = 0;
  ev("kernel: connect of %d in progress", fd);
  if (!d->nonblock) { block_until([d] { return !d->connecting; }, "connect"); if (d->so_error) { int e = d->so_error; d->so_error = 0; return fail_(e); } return 0; }
  return fail_(EINPROGRESS);
}
int connect(int fd, const sockaddr * a, socklen_t l)
{
  if (!virt(fd)) return ::syscall(SYS_connect, fd, a, l);
  std::string s = canon(a, l);
  auto d = get(fd);
  std::size_t no = connect_log.size();
  connect_log.push_back({d.get(), s, -1});
  int r = do_connect(fd, d, a, l, s), e = r ? errno : 0;
  if (e != EINPROGRESS && (std::size_t)no < connect_log.size()) connect_log[no].err = e;
  errno = e ? e : errno;
  return r;
}
int shutdown(int fd, int how)
{
  if (!virt(fd)) return ::syscall(SYS_shutdown, fd, how);
  ENTER("shutdown");
  GET(d, fd);
  if (!d->connected) return fail_(ENOTCONN);
  if (how == SHUT_RD || how == SHUT_RDWR) d->rd_shut = true;
  if (how == SHUT_WR || how == SHUT_RDWR) shut_write(*d);
  notify(d);
  return 0;
}
int getsockname(int fd, sockaddr * a, socklen_t * l)
{
  if (!virt(fd)) return ::syscall(SYS_getsockname, fd, a, l);
  ENTER("getsockname");
  GET(d, fd);
  std::string s = d->local;
  if (s.empty()) { s.assign(d->domain == AF_INET ? sizeof(sockaddr_in) : d->domain == AF_INET6 ? sizeof(sockaddr_in6) : 2, 0); reinterpret_cast<sockaddr *>(s.data())->sa_family = d->domain; }
  std::memcpy(a, s.data(), std::min<std::size_t>(*l, s.size())); *l = s.size();
  return 0;
}
int getpeername(int fd, sockaddr * a, socklen_t * l)
{
  if (!virt(fd)) return ::syscall(SYS_getpeername, fd, a, l);
  ENTER("getpeername");
  GET(d, fd);
  if (!d->connected) return fail_(ENOTCONN);
  std::string s = d->remote;
  if (s.empty()) { s.assign(2, 0); reinterpret_cast<sockaddr *>(s.data())->sa_family = d->domain; }
  std::memcpy(a, s.data(), std::min<std::size_t>(*l, s.size())); *l = s.size();
  return 0;
}
int setsockopt(int fd, int level, int opt, const void * p, socklen_t l)
{
  if (!virt(fd)) return ::syscall(SYS_setsockopt, fd, level, opt, p, l);
  ENTER("setsockopt");
  GET(d, fd);
  if (level == IPPROTO_TCP && (d->domain == AF_UNIX || d->type != SOCK_STREAM)) return fail_(EOPNOTSUPP);
  d->opts[{level, opt}] = std::string(static_cast<const char *>(p), l);
  // as Linux does it
  if (level == SOL_SOCKET && (opt == SO_SNDBUF || opt == SO_RCVBUF) && l == sizeof(int)) { int v; std::memcpy(&v, p, 4); v *= 2; std::memcpy(d->opts[{level, opt}].data(), &v, 4); }
  ev("kernel: setsockopt(%d, %d, %d)", fd, level, opt);
  return 0;
}
int getsockopt(int fd, int level, int opt, void * p, socklen_t * l)
{
  if (!virt(fd)) return ::syscall(SYS_getsockopt, fd, level, opt, p, l);
  ENTER("getsockopt");
  GET(d, fd);
  auto put = [&](int v) { std::memcpy(p, &v, std::min<socklen_t>(*l, 4)); *l = 4; return 0; };
  if (level == SOL_SOCKET && opt == SO_ERROR) { int e = d->so_error; d->so_error = 0; return put(e); }
  if (level == SOL_SOCKET && opt == SO_TYPE) return put(d->type);
  if (level == SOL_SOCKET && opt == SO_ACCEPTCONN) return put(d->k == kind::listener);
  if (level == IPPROTO_TCP && (d->domain == AF_UNIX || d->type != SOCK_STREAM)) return fail_(EOPNOTSUPP);
  auto it = d->opts.find({level, opt});
  if (it != d->opts.end()) { socklen_t k = std::min<std::size_t>(*l, it->second.size()); std::memcpy(p, it->second.data(), k); *l = k; return 0; }
  if (level == SOL_SOCKET && opt == SO_LINGER) { linger g{}; std::memcpy(p, &g, std::min<socklen_t>(*l, sizeof g)); *l = sizeof g; return 0; }
  return put(level == SOL_SOCKET && (opt == SO_SNDBUF || opt == SO_RCVBUF) ? 65536 : level == SOL_SOCKET && (opt == SO_RCVLOWAT || opt == SO_SNDLOWAT) ? 1 : 0);
}
int ioctl(int fd, unsigned long req, ...) noexcept
{
  va_list ap; va_start(ap, req); void * arg = va_arg(ap, void *); va_end(ap);
  if (!virt(fd)) return ::syscall(SYS_ioctl, fd, req, arg);
  ENTER("ioctl");
  GET(d, fd);
  if (req == FIONBIO) { d->nonblock = *static_cast<int *>(arg) != 0; return 0; }
  if (req == FIONREAD)
  {
    int n = 0;
    if (d->in) n = d->in->avail.size();
    else if (d->min) n = d->min->avail.empty() ? 0 : d->min->avail.front().data.size();
    *static_cast<int *>(arg) = n;
    return 0;
  }
  return fail_(ENOTTY);
}
int fcntl(int fd, int cmd, ...)
{
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  if (!virt(fd)) return ::syscall(SYS_fcntl, fd, cmd, arg);
  ENTER("fcntl");
  GET(d, fd);
  switch (cmd)
  {
    case F_GETFL: return d->oflags | (d->nonblock ? O_NONBLOCK : 0);
    case F_SETFL: d->nonblock = arg & O_NONBLOCK; return 0;
    case F_GETFD: case F_SETFD: return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: { int n = install(d); return n; }
  }
  return fail_(EINVAL);
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, arg); }
int dup(int fd) noexcept { if (!virt(fd)) return ::syscall(SYS_dup, fd); ENTER("dup"); GET(d, fd); return install(d); }

int poll(struct pollfd * p, nfds_t n, int timeout)
{
  bool v = false;
  for (nfds_t i = 0; i < n; i++) v = v || virt(p[i].fd);
  if (!v) return ::syscall(SYS_poll, p, n, timeout);
  ENTER("poll");
  auto scan = [&] { int c = 0; for (nfds_t i = 0; i < n; i++) { auto d = get(p[i].fd); p[i].revents = d ? readiness(*d) & (p[i].events | POLLERR | POLLHUP) : POLLNVAL; if (p[i].revents) c++; } return c; };
  int c = scan();
  if (c == 0 && timeout != 0) { block_until([&] { return (c = scan()) != 0; }, "poll"); }
  return c;
}

int epoll_create1(int flags) noexcept
{
  if (!enabled) return ::syscall(SYS_epoll_create1, flags);
  ENTER("epoll_create");
  auto d = std::make_shared<desc>(); d->k = kind::epoll;
  int fd = install(d); d->name = "epoll" + std::to_string(fd);
  return fd;
}
int epoll_create(int) noexcept { return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, epoll_event * e) noexcept
{
  if (!virt(ep)) return ::syscall(SYS_epoll_ctl, ep, op, fd, e);
  ENTER(op == EPOLL_CTL_ADD ? "epoll_add" : "epoll_ctl");
  auto x = get(ep); auto d = get(fd);
  if (!x || !d) return fail_(EBADF);
  if (op == EPOLL_CTL_ADD)
  {
    if (d->k == kind::regular) return fail_(EPERM);
    if (x->watches.count(fd)) return fail_(EEXIST);
    x->watches[fd] = {fd, d, e->events, e->data.u64, true};
  }
  else if (op == EPOLL_CTL_MOD)
  {
    auto it = x->watches.find(fd);
    if (it == x->watches.end()) return fail_(ENOENT);
    it->second.interest = e->events; it->second.data = e->data.u64; it->second.trig = true;
  }
  else
  {
    if (!x->watches.erase(fd)) return fail_(ENOENT);
  }
  return 0;
}
int epoll_wait(int ep, epoll_event * evs, int max, int timeout)
{
  if (!virt(ep)) return ::syscall(SYS_epoll_wait, ep, evs, max, timeout);
  { int e = 0; if (!enter("epoll_wait", &e)) return fail_(e); }
  auto x = get(ep);
  if (!x) return fail_(EBADF);
  auto ready = [x](desc::watch & w) -> std::uint32_t
  {
    auto d = w.d.lock();
    if (!d) return 0;
    std::uint32_t r = readiness(*d) & (w.interest | EPOLLERR | EPOLLHUP);
    if ((w.interest & EPOLLET) && !w.trig) return 0;
    return r;
  };
  auto collect = [&]
  {
    std::vector<desc::watch *> rs;
    for (auto & [f, w] : x->watches) if (ready(w)) rs.push_back(&w);
    int n = 0;
    while (!rs.empty() && n < max)
    {
      std::size_t i = choose(rs.size(), "epoll-order");
      auto * w = rs[i];
      rs.erase(rs.begin() + i);
      evs[n].events = ready(*w); evs[n].data.u64 = w->data; n++;
      w->trig = false;
      // the kernel may hand out events in several portions
      if (!rs.empty() && chance(1, 8, "epoll-part")) break;
    }
    return n;
  };
  int n = collect();
  if (n || timeout == 0) return n;
  auto any = [x, ready] { for (auto & [f, w] : x->watches) if (ready(w)) return true; return false; };
  if (maybe(vk::cfg.eintr, "eintr")) return fail_(EINTR);
  std::int64_t until = timeout < 0 ? -1 : steady_ns + timeout * 1000000ll;
  block_until([&] { return any() || (until >= 0 && steady_ns >= until); }, "epoll_wait");
  return collect();
}
int eventfd(unsigned c, int flags) noexcept
{
  if (!enabled) return ::syscall(SYS_eventfd2, c, flags);
  ENTER("eventfd");
  auto d = std::make_shared<desc>(); d->k = kind::eventfd; d->count = c; d->nonblock = flags & EFD_NONBLOCK;
  int fd = install(d); d->name = "eventfd" + std::to_string(fd);
  return fd;
}
int timerfd_create(int clock, int flags) noexcept
{
  if (!enabled) return ::syscall(SYS_timerfd_create, clock, flags);
  ENTER("timerfd_create");
  auto d = std::make_shared<desc>(); d->k = kind::timerfd; d->nonblock = true;
  int fd = install(d); d->name = "timerfd" + std::to_string(fd);
  return fd;
}
int timerfd_settime(int fd, int flags, const itimerspec * n, itimerspec * o) noexcept
{
  if (!virt(fd)) return ::syscall(SYS_timerfd_settime, fd, flags, n, o);
  GET(d, fd);
  if (o) std::memset(o, 0, sizeof *o);
  std::int64_t t = n->it_value.tv_sec * 1000000000ll + n->it_value.tv_nsec;
  if (t == 0) d->expiry = -1;
  else if (flags & TFD_TIMER_ABSTIME) d->expiry = std::max<std::int64_t>(0, t - steady_base_ns);
  else d->expiry = steady_ns + t;
  return 0;
}

// ---- clocks -----------------------------------------------------------------
int clock_gettime(clockid_t id, timespec * t) noexcept
{
  if (!sim::in_run() || !enabled) return ::syscall(SYS_clock_gettime, id, t);
  if (vk::cfg.time_passes) sim::steady_ns += 20 + (sim::chance(1, 32, "tick") ? sim::choose(50000, "ticks") : 0);
  std::int64_t ns = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? sim::system_base_ns + sim::steady_ns + sim::system_off_ns : sim::steady_base_ns + sim::steady_ns;
  t->tv_sec = ns / 1000000000; t->tv_nsec = ns % 1000000000;
  return 0;
}
int gettimeofday(timeval * t, void *) noexcept { timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t * p) noexcept { timespec s; clock_gettime(CLOCK_REALTIME, &s); if (p) *p = s.tv_sec; return s.tv_sec; }

// ---- files --------------------------------------------------------------------
static int do_open(const char * path, int flags, mode_t)
{
  ENTER("open");
  auto d = std::make_shared<desc>();
  d->path = path; d->oflags = flags & ~(O_CREAT | O_EXCL | O_TRUNC | O_CLOEXEC);
  if (!std::strncmp(path, "/vtty/", 6))
  {
    if (!files.count(path)) return fail_(ENOENT);
    d->k = kind::tty; d->nonblock = flags & O_NONBLOCK; d->connected = true;
    d->in = std::make_shared<stream_q>(); d->out = std::make_shared<stream_q>(); d->in->cap = d->out->cap = vk::cfg.stream_cap;
    int fd = install(d); d->name = "tty" + std::to_string(fd);
    return fd;
  }
  auto it = files.find(path);
  if (it == files.end())
  {
    if (!(flags & O_CREAT)) return fail_(ENOENT);
    files[path] = std::make_shared<inode>();
    it = files.find(path);
  }
  else if ((flags & O_CREAT) && (flags & O_EXCL)) return fail_(EEXIST);
  if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) it->second->data.clear();
  d->k = kind::regular; d->ino = it->second; d->ino->opens++;
  int fd = install(d);
  d->name = "file" + std::to_string(fd);
  ev("kernel: open %s flags %x = %d", path, flags, fd);
  return fd;
}
int open(const char * path, int flags, ...)
{
  va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
  if (!enabled || (std::strncmp(path, "/vfs/", 5) && std::strncmp(path, "/vtty/", 6))) return ::syscall(SYS_openat, AT_FDCWD, path, flags, m);
  return do_open(path, flags, m);
}
int open64(const char * path, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap); return open(path, flags, m); }
off_t lseek(int fd, off_t o, int whence) noexcept
{
  if (!virt(fd)) return ::syscall(SYS_lseek, fd, o, whence);
  ENTER("lseek");
  GET(d, fd);
  if (d->k != kind::regular) return fail_(ESPIPE);
  std::int64_t b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? d->pos : whence == SEEK_END ? (std::int64_t)d->ino->data.size() : -1;
  if (b < 0 || b + o < 0) return fail_(EINVAL);
  d->pos = b + o;
  ev("kernel: %s seeks to %lld", d->name.c_str(), (long long)d->pos);
  return d->pos;
}
off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
int fstat(int fd, struct stat * s) noexcept
{
  if (!virt(fd)) return ::syscall(SYS_fstat, fd, s);
  ENTER("fstat");
  GET(d, fd);
  std::memset(s, 0, sizeof *s);
  s->st_size = d->ino ? d->ino->data.size() : 0;
  s->st_mode = d->ino ? S_IFREG | 0644 : S_IFSOCK;
  return 0;
}
int fstat64(int fd, struct stat64 * s) noexcept { return fstat(fd, reinterpret_cast<struct stat *>(s)); }
int ftruncate(int fd, off_t n) noexcept
{
  if (!virt(fd)) return ::syscall(SYS_ftruncate, fd, n);
  ENTER("ftruncate");
  GET(d, fd);
  if (!d->ino || n < 0 || (d->oflags & O_ACCMODE) == O_RDONLY) return fail_(EINVAL);
  if ((std::size_t)n > d->ino->limit) return fail_(EFBIG);
  d->ino->data.resize(n);
  return 0;
}
int ftruncate64(int fd, off64_t n) noexcept { return ftruncate(fd, n); }
int fsync(int fd)
{
  if (!virt(fd)) return ::syscall(SYS_fsync, fd);
  ENTER("fsync");
  GET(d, fd);
  if (!d->ino) return fail_(EINVAL);
  d->ino->syncs++; d->ino->synced = d->ino->data.size();
  return 0;
}
int fdatasync(int fd)
{
  if (!virt(fd)) return ::syscall(SYS_fdatasync, fd);
  ENTER("fdatasync");
  GET(d, fd);
  if (!d->ino) return fail_(EINVAL);
  d->ino->syncs++; d->ino->synced = d->ino->data.size();
  return 0;
}

// ---- serial ports ---------------------------------------------------------------
int tcgetattr(int fd, termios * t) noexcept
{
  if (!virt(fd)) return fail_(ENOTTY);
  ENTER("tcgetattr");
  GET(d, fd);
  if (d->k != kind::tty) return fail_(ENOTTY);
  auto it = d->opts.find({-1, 0});
  if (it == d->opts.end()) std::memset(t, 0, sizeof *t); else std::memcpy(t, it->second.data(), sizeof *t);
  return 0;
}
int tcsetattr(int fd, int, const termios * t) noexcept
{
  if (!virt(fd)) return fail_(ENOTTY);
  ENTER("tcsetattr");
  GET(d, fd);
  if (d->k != kind::tty) return fail_(ENOTTY);
  d->opts[{-1, 0}] = std::string(reinterpret_cast<const char *>(t), sizeof *t);
  return 0;
}
int tcsendbreak(int fd, int) noexcept
{
  if (!virt(fd)) return fail_(ENOTTY);
  ENTER("tcsendbreak");
  GET(d, fd);
  d->opts[{-2, 0}] += "b";
  return 0;
}

// ---- signals ----------------------------------------------------------------------
int sigaction(int sig, const struct sigaction * n, struct sigaction * o) noexcept
{
  if (!enabled || !sim::in_run() || sig == SIGSEGV || sig == SIGBUS || sig == SIGFPE || sig == SIGABRT || sig == SIGILL) return 0;
  if (sig < 1 || sig > 64 || sig == SIGKILL || sig == SIGSTOP) return fail_(EINVAL);
  ENTER("sigaction");
  if (o) *o = handlers[sig];
  if (n) handlers[sig] = *n;
  return 0;
}

// ---- resolver ----------------------------------------------------------------------
int getaddrinfo(const char * host, const char * service, const addrinfo * hints, addrinfo ** res)
{
  *res = nullptr;
  if (!enabled || !on_resolve) return EAI_FAIL;
  { int e = 0; if (!enter("getaddrinfo", &e)) { errno = e; return EAI_SYSTEM; } }
  auto r = on_resolve(host, service, hints);
  if (r.eai) { errno = r.sys; return r.eai; }
  addrinfo ** tail = res;
  for (auto & a : r.addrs)
  {
    auto * n = new addrinfo{};
    auto * s = static_cast<sockaddr *>(::operator new(a.size()));
    std::memcpy(s, a.data(), a.size());
    n->ai_family = s->sa_family; n->ai_socktype = hints ? hints->ai_socktype : 0; n->ai_protocol = hints ? hints->ai_protocol : 0;
    n->ai_addrlen = a.size(); n->ai_addr = s;
    *tail = n; tail = &n->ai_next;
    live_addrinfo++;
  }
  return 0;
}
void freeaddrinfo(addrinfo * a) noexcept
{
  while (a) { auto * n = a->ai_next; ::operator delete(a->ai_addr); delete a; live_addrinfo--; a = n; }
}
}
