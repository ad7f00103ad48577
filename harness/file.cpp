// P21: files on a virtual disk that is short, full or broken when the scheduler says so.
#include "../sim/coro.hpp"
#include "../sim/vk.hpp"
#include <boost/cobalt/io/stream_file.hpp>
#include <boost/cobalt/io/random_access_file.hpp>
#include <boost/cobalt/io/read.hpp>
#include <boost/cobalt/io/write.hpp>
#include <boost/cobalt/gather.hpp>
#include <boost/cobalt/op.hpp>
#include <cstring>
#include <unistd.h>
using namespace sim;
namespace io = boost::cobalt::io;
using fl = io::file;

const char * const sim_harness_name = "file";
const char * sim_class_owner(const char * c)
{
  std::string s = c;
  if (s.rfind("xfer:", 0) == 0) return "P15,P21";
  if (s.rfind("file:", 0) == 0) return "P21";
  if (s.rfind("fd:", 0) == 0) return "P21,P23";
  if (s.rfind("memory:", 0) == 0) return "P17";
  return "";
}

namespace
{
struct setup { bool cancels, fails, full; } cfg;
struct disk_t { std::map<std::string, std::string> data; std::map<std::string, std::size_t> limit; } disk; // what should be stored
std::size_t limit_of(const std::string & p) { auto it = disk.limit.find(p); return it == disk.limit.end() ? 1u << 22 : it->second; }

struct handle_t
{
  std::unique_ptr<io::stream_file> s;
  std::unique_ptr<io::random_access_file> r;
  bool open = false;
  std::string path;
  int acc = O_RDONLY; bool append = false;
  std::int64_t pos = 0;
  io::file & f() { return s ? static_cast<io::file &>(*s) : *r; }
  bool exists() const { return s || r; }
  bool rd() const { return acc != O_WRONLY; }
  bool wr() const { return acc != O_RDONLY; }
};

struct prog
{
  std::vector<std::string> paths;
  handle_t h[3];
  bool asked = false; // cancelled while an operation was pending
  bool active = false;
};

void check_disk(const std::vector<std::string> & paths, const char * after)
{
  for (auto & p : paths)
  {
    auto m = disk.data.find(p);
    auto k = vk::files.find(p);
    SIM_CHECK((m != disk.data.end()) == (k != vk::files.end()), "file:exists", "%s %s after %s", p.c_str(), k != vk::files.end() ? "exists" : "is missing", after);
    if (m == disk.data.end() || k == vk::files.end()) continue;
    auto & a = m->second, & b = k->second->data;
    if (a == b) continue;
    std::size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    SIM_CHECK(false, "file:content", "%s differs at byte %zu after %s: %zu bytes stored, %zu expected", p.c_str(), i, after, b.size(), a.size());
  }
}

int hits0;
int last_err() { for (auto & f : vk::failures) if (f.hit && f.err > 0) return f.err; return 0; }
// an error that was injected during the call must be what the call reports
bool injected(error_code ec, const char * what)
{
  if (vk::hits() == hits0) return false;
  hits0 = vk::hits();
  SIM_CHECK(bool(ec), "file:error-lost", "%s succeeded although the system call failed", what);
  bool known = false;
  for (auto & f : vk::failures) if (f.hit && f.err == ec.value() && ec.category() == boost::system::system_category()) known = true;
  SIM_CHECK(known, "file:error-code", "%s reports %s instead of the error of the system call", what, ec.message().c_str());
  return true;
}

io::file::flags random_flags(int & acc, bool & append, bool & create, bool & excl, bool & trunc)
{
  static const int accs[] = {O_RDWR, O_RDWR, O_WRONLY, O_RDONLY};
  acc = accs[choose(4, "acc")];
  append = acc != O_RDONLY && chance(1, 6, "append");
  create = !chance(1, 6, "nocreate");
  excl = create && chance(1, 8, "excl");
  trunc = acc != O_RDONLY && chance(1, 8, "trunc");
  auto f = acc == O_RDWR ? fl::read_write : acc == O_WRONLY ? fl::write_only : fl::read_only;
  if (append) f = f | fl::append;
  if (create) f |= fl::create;
  if (excl) f |= fl::exclusive;
  if (trunc) f |= fl::truncate;
  return f;
}

void do_open(prog & g, int hi)
{
  auto & h = g.h[hi];
  int acc; bool append, create, excl, trunc;
  auto f = random_flags(acc, append, create, excl, trunc);
  auto path = g.paths[choose(g.paths.size(), "path")];
  bool was = h.open;
  error_code ec;
  bool ctor = !h.exists() && chance(1, 2, "ctor");
  ev("open %s%s%s%s%s%s", path.c_str(), acc == O_RDWR ? " rw" : acc == O_RDONLY ? " r" : " w", append ? " append" : "", create ? " create" : "", excl ? " exclusive" : "", trunc ? " truncate" : "");
  bool str = chance(1, 2, "string");
  hits0 = vk::hits();
  if (ctor)
  {
    try
    {
      if (chance(1, 2, "stream")) h.s = str ? std::make_unique<io::stream_file>(path, f) : std::make_unique<io::stream_file>(path.c_str(), f);
      else h.r = str ? std::make_unique<io::random_access_file>(path, f) : std::make_unique<io::random_access_file>(path.c_str(), f);
    }
    catch (boost::system::system_error & e) { ec = e.code(); }
  }
  else
  {
    if (!h.exists()) { if (chance(1, 2, "stream")) h.s = std::make_unique<io::stream_file>(); else h.r = std::make_unique<io::random_access_file>(); }
    auto r = str ? h.f().open(path, f) : h.f().open(path.c_str(), f);
    if (!r) ec = r.error();
  }
  bool exists = disk.data.count(path) != 0;
  if (was)
  {
    SIM_CHECK(bool(ec), "file:open-twice", "open() of an open file succeeded");
    hits0 = vk::hits();
    check_disk(g.paths, "open() of an open file");
    return;
  }
  int want = !exists && !create ? ENOENT : exists && excl ? EEXIST : 0;
  if (injected(ec, "open"))
  {
    // the file may have been created or truncated before the failure
    auto k = vk::files.find(path);
    if (!want && k != vk::files.end() && k->second->data.empty() && (!exists || trunc)) disk.data[path].clear();
    check_disk(g.paths, "a failed open()");
    SIM_CHECK(!h.exists() || !h.f().is_open(), "file:open", "is_open() after a failed open()");
    return;
  }
  SIM_CHECK(ec.value() == want, "file:open", "open() of %s reports %s instead of %s", path.c_str(), ec ? ec.message().c_str() : "success", want ? std::strerror(want) : "success");
  if (ec) { SIM_CHECK(!h.exists() || !h.f().is_open(), "file:open", "is_open() after a failed open()"); check_disk(g.paths, "a failed open()"); return; }
  if (trunc || !exists) disk.data[path].clear();
  auto lim = limit_of(path);
  vk::files[path]->limit = lim;
  h.open = true; h.path = path; h.acc = acc; h.append = append; h.pos = 0;
  SIM_CHECK(h.f().is_open(), "file:open", "not open after a successful open()");
  check_disk(g.paths, "open()");
}

void put(const handle_t & h, std::uint64_t at, const char * p, std::size_t n)
{
  auto & d = disk.data[h.path];
  if (n == 0) return;
  if (d.size() < at + n) d.resize(at + n);
  d.replace(at, n, p, n);
}

// cuts n bytes into up to 4 buffers, some of them empty
template<typename B>
std::vector<B> cut(char * base, std::size_t n)
{
  std::vector<B> r;
  int parts = range(1, 4, "parts");
  std::size_t at = 0;
  for (int i = 0; i < parts; i++)
  {
    std::size_t k = i + 1 == parts ? n - at : chance(1, 5, "empty") ? 0 : std::min<std::size_t>(n - at, choose((std::uint32_t)n + 1, "cut"));
    r.push_back(B(base + at, k));
    at += k;
  }
  return r;
}

void judge(prog & g, handle_t & h, bool wr, bool all, std::uint64_t at, std::size_t size, std::string & mem, error_code ec, std::size_t n, bool have_n)
{
  g.active = false;
  char what[64];
  std::snprintf(what, sizeof what, "%s%s of %zu at %llu", wr ? "write" : "read", all ? "" : "_some", size, (unsigned long long)at);
  auto & d = disk.data[h.path];
  bool file_ok = h.open && (wr ? h.wr() : h.rd());
  bool absurd = h.r && (std::int64_t)at < 0;
  if (wr && h.append) at = d.size();
  if (!have_n) // an exception carries no count: take what is stored
  {
    n = 0;
    if (file_ok && wr)
    {
      auto & k = vk::files[h.path]->data;
      while (n < size && at + n < k.size() && k[at + n] == mem[8 + n] && (at + n >= d.size() || d[at + n] != mem[8 + n])) n++;
      if (h.s) n = std::min<std::size_t>(size, h.append ? k.size() - d.size() : vk::get(h.f().native_handle())->pos - h.pos);
    }
    else if (file_ok && h.s) n = vk::get(h.f().native_handle())->pos - h.pos;
  }
  ev("%s: %zu%s%s", what, n, ec ? ", " : "", ec ? ec.message().c_str() : "");
  SIM_CHECK(n <= size, "xfer:count", "%s reports %zu bytes", what, n);
  bool inj = injected(ec, what);
  if (!inj)
  {
    if (ec == asio::error::operation_aborted) SIM_CHECK(g.asked, "file:spurious-abort", "%s was aborted although nobody cancelled it", what);
    else if (size == 0) SIM_CHECK(n == 0, "file:count", "%s reports %zu", what, n);
    else if (absurd) SIM_CHECK(bool(ec), "file:offset", "%s succeeded", what);
    else if (!file_ok) SIM_CHECK(ec == asio::error::bad_descriptor && n == 0, "file:closed", "%s on a file not open for it reports %zu bytes and %s", what, n, ec ? ec.message().c_str() : "success");
    else if (!wr)
    {
      std::size_t avail = at < d.size() ? d.size() - at : 0;
      if (ec) SIM_CHECK(ec == asio::error::eof && n == std::min(avail, size) && (all ? n < size : avail == 0), "file:eof", "%s of a file of %zu bytes reports %zu and %s", what, d.size(), n, ec.message().c_str());
      else SIM_CHECK(n > 0 && n <= avail && (!all || n == size), "file:count", "%s of a file of %zu bytes reports %zu bytes", what, d.size(), n);
    }
    else
    {
      auto lim = limit_of(h.path);
      std::size_t room = at < lim ? lim - at : 0;
      if (ec) SIM_CHECK(ec.value() == ENOSPC && n == std::min(room, size) && (all ? n < size : room == 0), "file:full", "%s with room for %zu reports %zu and %s", what, room, n, ec.message().c_str());
      else SIM_CHECK(n > 0 && n <= room && (!all || n == size), "file:count", "%s with room for %zu reports %zu bytes", what, room, n);
    }
  }
  if (wr) { if (file_ok) put(h, at, mem.data() + 8, n); }
  else if (file_ok)
    SIM_CHECK(n == 0 || (at + n <= d.size() && d.compare(at, n, mem, 8, n) == 0), "file:read", "%s returned other bytes than those stored there", what);
  for (std::size_t i = 0; i < mem.size(); i++) if (i < 8 || i >= 8 + (wr ? size : n)) SIM_CHECK(mem[i] == '#', "file:outside", "%s touched memory outside of what it reported", what);
  if (h.s && file_ok) h.pos = wr && h.append && n ? at + n : h.pos + n;
  check_disk(g.paths, what);
}

std::size_t random_size() { switch (choose(4, "size")) { case 0: return 1 + choose(12); case 1: return choose(3); case 2: return 1 + choose(100); default: return 1 + choose(2000); } }

proc run_actor(actor & a, prog & g, int len)
{
  for (int k = 0; k < len; k++)
  {
    int hi = (int)choose(3, "handle");
    auto & h = g.h[hi];
    int act = (int)choose(16, "act");
    if (!h.exists() || (!h.open && act < 9 && chance(3, 4, "reopen"))) act = 9;
    hits0 = vk::hits();
    if (act < 8)
    {
      bool wr = chance(1, 2, "write"), all = chance(1, 2, "all");
      std::size_t size = random_size();
      std::string mem(size + 16, '#');
      if (wr) for (std::size_t i = 0; i < size; i++) mem[8 + i] = (char)('a' + mix(a.id * 131 + k * 17, i) % 26);
      std::size_t fsize = h.open ? disk.data[h.path].size() : 0;
      std::uint64_t at = 0;
      if (h.r) { at = choose(4, "where") ? choose((std::uint32_t)fsize + 2, "off") : choose(6000, "far"); if (chance(1, 40, "absurd")) at = ~0ull - 5; }
      else at = h.pos;
      ev("actor %d: %s %s of %zu at %lld in handle %d", a.id, h.s ? "stream" : "random", wr ? "write" : "read", size, (long long)at, hi);
      auto cb = cut<asio::const_buffer>(mem.data() + 8, size);
      auto mb = cut<asio::mutable_buffer>(mem.data() + 8, size);
      auto cs = cb.size() == 1 ? io::const_buffer_sequence(cb[0]) : io::const_buffer_sequence(cb);
      auto ms = mb.size() == 1 ? io::mutable_buffer_sequence(mb[0]) : io::mutable_buffer_sequence(mb);
      error_code ec; std::size_t n = 0; bool have = true;
      g.asked = false; g.active = true;
      if (chance(1, 4, "plain"))
      {
        try
        {
          if (h.s) { if (wr) { if (all) n = co_await io::write(*h.s, cs); else n = co_await h.s->write_some(cs); } else { if (all) n = co_await io::read(*h.s, ms); else n = co_await h.s->read_some(ms); } }
          else { if (wr) { if (all) n = co_await io::write_at(*h.r, at, cs); else n = co_await h.r->write_some_at(at, cs); } else { if (all) n = co_await io::read_at(*h.r, at, ms); else n = co_await h.r->read_some_at(at, ms); } }
        }
        catch (boost::system::system_error & e) { ec = e.code(); have = false; }
        // how far a positional transfer of several steps came is known to nobody then
        if (!have && h.r && all) { g.active = false; hits0 = vk::hits(); if (h.open) disk.data[h.path] = vk::files[h.path]->data; continue; }
      }
      else if (h.s)
      {
        if (wr) { if (all) std::tie(ec, n) = co_await cobalt::as_tuple(io::write(*h.s, cs)); else std::tie(ec, n) = co_await cobalt::as_tuple(h.s->write_some(cs)); }
        else { if (all) std::tie(ec, n) = co_await cobalt::as_tuple(io::read(*h.s, ms)); else std::tie(ec, n) = co_await cobalt::as_tuple(h.s->read_some(ms)); }
      }
      else
      {
        if (wr) { if (all) std::tie(ec, n) = co_await cobalt::as_tuple(io::write_at(*h.r, at, cs)); else std::tie(ec, n) = co_await cobalt::as_tuple(h.r->write_some_at(at, cs)); }
        else { if (all) std::tie(ec, n) = co_await cobalt::as_tuple(io::read_at(*h.r, at, ms)); else std::tie(ec, n) = co_await cobalt::as_tuple(h.r->read_some_at(at, ms)); }
      }
      judge(g, h, wr, all, at, size, mem, ec, n, have);
    }
    else switch (act)
    {
      case 8: // several at once on one random access file, on different parts
      {
        if (!h.r || !h.open || !h.rd() || !h.wr() || h.append || cfg.fails || cfg.full || cfg.cancels || disk.data[h.path].size() < 40) break;
        auto & d = disk.data[h.path];
        std::size_t half = d.size() / 2;
        std::size_t o1 = choose((std::uint32_t)half - 10, "o1"), o2 = half + choose((std::uint32_t)half - 10, "o2");
        std::size_t n1 = 1 + choose(10, "n1"), n2 = 1 + choose(10, "n2");
        std::string rd(n1, '#'), w(n2, 'Z');
        ev("actor %d: reads %zu at %zu while writing %zu at %zu", a.id, n1, o1, n2, o2);
        std::string want = d.substr(o1, n1);
        std::size_t r1, r2;
        if (chance(1, 2, "order")) { auto [x, y] = co_await cobalt::gather(io::read_at(*h.r, o1, asio::buffer(rd)), io::write_at(*h.r, o2, asio::buffer(w))); r1 = x.value(); r2 = y.value(); }
        else { auto [y, x] = co_await cobalt::gather(io::write_at(*h.r, o2, asio::buffer(w)), io::read_at(*h.r, o1, asio::buffer(rd))); r1 = x.value(); r2 = y.value(); }
        SIM_CHECK(r1 == n1 && r2 == n2, "file:count", "concurrent transfers report %zu of %zu and %zu of %zu", r1, n1, r2, n2);
        SIM_CHECK(rd == want, "file:read", "concurrent read_at returned other bytes than those stored there");
        put(h, o2, w.data(), n2);
        check_disk(g.paths, "concurrent transfers");
        probe("concurrent-at");
        break;
      }
      case 9: do_open(g, hi); break;
      case 10: // close, destroy
      {
        if (!h.exists()) break;
        ev("actor %d: close handle %d", a.id, hi);
        if (chance(1, 3, "destroy")) { h.s.reset(); h.r.reset(); hits0 = vk::hits(); }
        else
        {
          auto r = h.f().close();
          injected(r ? error_code{} : r.error(), "close");
          SIM_CHECK(!h.f().is_open(), "file:close", "is_open() after close()");
        }
        h.open = false;
        check_disk(g.paths, "close()");
        break;
      }
      case 11: // seek
      {
        if (!h.s) break;
        int wh = (int)choose(3, "whence");
        std::int64_t off = (std::int64_t)choose(200, "off") - (wh == 0 ? 5 : 100);
        std::int64_t size = h.open ? disk.data[h.path].size() : 0;
        std::int64_t to = wh == 0 ? off : wh == 1 ? h.pos + off : size + off;
        auto r = h.s->seek(off, wh == 0 ? fl::seek_set : wh == 1 ? fl::seek_cur : fl::seek_end);
        ev("actor %d: seek %lld from %d", a.id, (long long)off, wh);
        if (injected(r ? error_code{} : r.error(), "seek")) break;
        if (!h.open || to < 0) SIM_CHECK(!r && r.error().value() == (h.open ? EINVAL : EBADF), "file:seek", "seek to %lld %s", (long long)to, r ? "succeeded" : r.error().message().c_str());
        else
        {
          SIM_CHECK(bool(r), "file:seek", "seek to %lld failed: %s", (long long)to, r.error().message().c_str());
          SIM_CHECK((std::int64_t)*r == to, "file:seek", "seek to %lld reports %lld", (long long)to, (long long)*r);
          h.pos = to;
        }
        break;
      }
      case 12: // resize
      {
        if (!h.exists()) break;
        std::uint64_t n = choose(3000, "size");
        auto r = h.f().resize(n);
        ev("actor %d: resize to %llu", a.id, (unsigned long long)n);
        if (injected(r ? error_code{} : r.error(), "resize")) { check_disk(g.paths, "failed resize()"); break; }
        bool ok = h.open && h.wr() && n <= limit_of(h.path);
        SIM_CHECK(bool(r) == ok, "file:resize", "resize() %s", r ? "succeeded" : r.error().message().c_str());
        if (ok) disk.data[h.path].resize(n);
        check_disk(g.paths, "resize()");
        break;
      }
      case 13: // size, sync
      {
        if (!h.exists()) break;
        auto r = h.f().size();
        if (!injected(r ? error_code{} : r.error(), "size"))
        {
          SIM_CHECK(bool(r) == h.open, "file:size", "size() %s", r ? "succeeded on a closed file" : r.error().message().c_str());
          if (r) SIM_CHECK(*r == disk.data[h.path].size(), "file:size", "size() is %llu, the file has %zu bytes", (unsigned long long)*r, disk.data[h.path].size());
        }
        bool data = chance(1, 2, "data");
        auto before = h.open ? vk::files[h.path]->syncs : 0;
        auto s = data ? h.f().sync_data() : h.f().sync_all();
        ev("actor %d: sync", a.id);
        if (injected(s ? error_code{} : s.error(), "sync")) break;
        SIM_CHECK(bool(s) == h.open, "file:sync", "sync %s", s ? "succeeded on a closed file" : s.error().message().c_str());
        if (s) SIM_CHECK(vk::files[h.path]->syncs == before + 1, "file:sync", "sync succeeded without reaching the device");
        break;
      }
      case 14: // release and wrap again
      {
        if (!h.exists() || !h.open) break;
        auto r = h.f().release();
        ev("actor %d: release handle %d", a.id, hi);
        SIM_CHECK(bool(r) && !h.f().is_open(), "file:release", "release() failed");
        if (!r) break;
        int fd = *r;
        error_code ec;
        if (chance(1, 2, "same")) { auto x = h.f().assign(fd); if (!x) ec = x.error(); }
        else
        {
          bool str = chance(1, 2, "stream");
          h.s.reset(); h.r.reset();
          try { if (str) h.s = std::make_unique<io::stream_file>(fd); else h.r = std::make_unique<io::random_access_file>(fd); }
          catch (boost::system::system_error & e) { ec = e.code(); }
        }
        if (injected(ec, "assign")) { ::close(fd); hits0 = vk::hits(); h.open = false; break; }
        SIM_CHECK(!ec, "file:assign", "assign() failed: %s", ec.message().c_str());
        if (h.s) h.pos = vk::get(fd)->pos;
        check_disk(g.paths, "release()");
        break;
      }
      case 15: // move
        if (!h.exists()) break;
        ev("actor %d: move handle %d", a.id, hi);
        if (h.s) h.s = std::make_unique<io::stream_file>(std::move(*h.s));
        else h.r = std::make_unique<io::random_access_file>(std::move(*h.r));
        SIM_CHECK(h.f().is_open() == h.open, "file:move", "a moved file is %s", h.open ? "closed" : "open");
        break;
    }
    if (chance(1, 6, "pause")) co_await yield_{chance(1, 2, "ext")};
  }
  for (auto & h : g.h) { h.s.reset(); h.r.reset(); }
}
}

void sim_main()
{
  cfg = {chance(1, 3, "cancels"), chance(1, 3, "fails"), chance(1, 4, "full")};
  vk::enabled = true;
  vk::cfg.time_passes = false;
  if (chance(1, 2, "short")) vk::cfg.eintr = 4;
#if !defined(BOOST_COBALT_NO_PMR)
  ledger led("thread default");
  auto * old = cobalt::this_thread::set_default_resource(&led);
#endif
  auto wp = std::make_unique<world>();
  W = wp.get();
  W->kern_actions = vk::actions; W->kern_act = vk::act; W->kern_timer = [] { return false; }; W->kern_advance = vk::advance;
  { io::stream_file f{W->exec()}; } // sets up the reactor, which doesn't report that it failed to do so
  int n = cfg.fails ? 1 : range(1, 3, "actors");
  std::vector<std::unique_ptr<actor>> as;
  std::vector<std::unique_ptr<prog>> gs;
  for (int i = 0; i < n; i++)
  {
    gs.push_back(std::make_unique<prog>());
    for (int k = 0; k < 2; k++)
    {
      auto p = "/vfs/f" + std::to_string(i) + std::to_string(k);
      gs.back()->paths.push_back(p);
      if (cfg.full) disk.limit[p] = 20 + choose(800, "limit");
    }
  }
  if (cfg.fails)
    for (int k = range(1, 3, "nfails"); k > 0; k--)
    {
      static const char * names[] = {"write", "read", "lseek", "open", "fsync", "fdatasync", "ftruncate", "fstat", "epoll_add", "ioctl", "close"};
      static const int errs[] = {EIO, ENOMEM, ENXIO, EDQUOT};
      W->add([c = choose(11, "fail"), nth = (int)choose(4, "nth"), e = errs[choose(4, "errno")]] { vk::fail(names[c], nth, e); }, true);
    }
  int len = range(2, 16, "len");
  for (int i = 0; i < n; i++)
  {
    as.push_back(std::make_unique<actor>(i));
    asio::post(W->ctx->get_executor(), [a = as.back().get(), g = gs[i].get(), len] { run_actor(*a, *g, len); });
  }
  if (cfg.cancels)
    for (int k = range(1, 3, "ncancel"); k > 0; k--)
    {
      int i = (int)choose(n, "victim");
      W->add([a = as[i].get(), g = gs[i].get()]
      {
        static const asio::cancellation_type cts[] = {asio::cancellation_type::terminal, asio::cancellation_type::partial, asio::cancellation_type::total, asio::cancellation_type::all};
        if (a->finished || !a->started) return;
        if (g->active) { g->asked = true; fault("cancel-awaiter"); }
        ev("cancel actor %d", a->id);
        a->sig.emit(cts[choose(4, "ct")]);
      }, choose(2, "direct"));
    }
  bool early = chance(1, 8, "early");
  if (early)
  {
    int steps = range(0, 60, "steps");
    while (steps-- > 0 && W->step_once());
    fault("destroy-context");
  }
  else
  {
    W->run();
    for (auto & a : as) SIM_CHECK(a->finished, "file:hang", "actor %d never resumed", a->id);
  }
  W->guard.reset();
  for (auto & g : gs) for (auto & h : g->h) { h.s.reset(); h.r.reset(); }
  wp.reset();
  for (auto & a : as) SIM_CHECK(a->finished || a->destroyed || !a->started, "file:leak", "awaiting actor %d leaked", a->id);
  for (auto & a : as) a->sig.slot().clear();
#if !defined(BOOST_COBALT_NO_PMR)
  SIM_CHECK(led.live.empty(), "memory:leak", "%zu allocation(s) never returned", led.live.size());
  cobalt::this_thread::set_default_resource(old);
#endif
  auto fds = vk::open_fds();
  SIM_CHECK(fds.empty(), "fd:leak", "descriptor %s still open at the end", fds.empty() ? "" : vk::describe(fds[0]).c_str());
  SIM_CHECK(vk::bad_closes == 0, "fd:double-close", "%d descriptor(s) closed that were not open", vk::bad_closes);
  W = nullptr;
}
