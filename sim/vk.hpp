// A virtual kernel: descriptors, sockets, pipes, files, epoll, timers, clocks and signals
// answered inside the process.  Asio and cobalt are compiled unchanged; their libc calls end here.
#pragma once
#include "sim.hpp"
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <sys/types.h>

namespace vk
{
constexpr int first_fd = 400;

enum class kind { stream, dgram, seqpacket, listener, pipe_r, pipe_w, regular, tty, epoll, eventfd, timerfd, fresh };

// one direction of a byte stream
struct stream_q
{
  std::deque<unsigned char> avail;  // can be read
  std::deque<unsigned char> flight; // accepted by the kernel, not yet delivered
  std::size_t cap = 65536;
  bool fin = false, fin_seen = false; // writer closed or shut down / visible to the reader
  bool rd_closed = false;             // nobody will read
  int rd_err = 0;                     // pending error for the reader
  std::uint64_t sent = 0, consumed = 0;
  std::size_t room() const { std::size_t u = avail.size() + flight.size(); return u >= cap ? 0 : cap - u; }
};
struct message { std::string data; int flags = 0; std::string from; std::uint64_t no = 0; };
struct msg_q
{
  std::deque<message> avail, flight;
  std::size_t cap = 8;
  bool fin = false, fin_seen = false, rd_closed = false;
  int rd_err = 0;
  std::uint64_t sent = 0, consumed = 0, lost = 0, dup = 0;
  std::vector<std::string> log; // every message accepted for transmission
};
struct inode { std::string data; std::uint64_t synced = 0; std::size_t limit = 1u << 22; int opens = 0; std::uint64_t syncs = 0; };

struct desc // open file description
{
  kind k = kind::fresh;
  int refs = 0;
  int domain = 0, type = 0, proto = 0;
  bool nonblock = false;
  // sockets, pipes
  std::shared_ptr<stream_q> in, out;
  std::shared_ptr<msg_q> min, mout;
  std::weak_ptr<desc> peer;
  bool connected = false, connecting = false, bound = false;
  int so_error = 0;
  bool rd_shut = false, wr_shut = false;
  std::string local, remote; // raw sockaddr bytes
  std::map<std::pair<int, int>, std::string> opts;
  // listener
  int backlog = 0;
  std::deque<std::shared_ptr<desc>> accept_q;
  // regular
  std::shared_ptr<inode> ino; std::string path;
  std::int64_t pos = 0; int oflags = 0;
  // timerfd
  std::int64_t expiry = -1;
  // eventfd
  std::uint64_t count = 0;
  // epoll
  struct watch { int fd; std::weak_ptr<desc> d; std::uint32_t interest; std::uint64_t data; bool trig; };
  std::map<int, watch> watches;
  std::string name;
};
using dp = std::shared_ptr<desc>;

// ---- configuration ---------------------------------------------------------
struct config
{
  unsigned eintr = 0;        // in 1/64 of eligible calls
  unsigned again = 0;        // spurious EAGAIN
  bool dgram_loss = false, dgram_dup = false, dgram_reorder = false;
  std::size_t stream_cap = 65536;
  bool time_passes = true;   // virtual time moves a little with every clock reading
  bool connect_async = true;
  bool pipe_latency = true;  // bytes written to a pipe arrive later and in pieces
};
extern config cfg;

// scripted failures: the n-th call (from now) of `name` fails with errno; "" = off
struct failure { std::string name; int nth = 0; int err = 0; bool hit = false; };
extern std::vector<failure> failures;
void fail(const char * name, int nth, int err);
// number of calls by name since the last reset_counts
extern std::map<std::string, int> counts;

// ---- state -----------------------------------------------------------------
dp get(int fd);                       // null when not open
std::vector<int> open_fds();          // all virtual descriptors
std::string describe(int fd);
extern std::map<std::string, std::shared_ptr<inode>> files;
extern bool enabled;
// what every datagram or packet socket transmitted and handed out, in order
struct transfer { const desc * d; std::string data; std::size_t done; int flags; bool peek; };
extern std::vector<transfer> sent_log, recv_log;
struct connect_try { const desc * d; std::string addr; int err = -1; }; // -1: undecided
extern std::vector<connect_try> connect_log;
extern int bad_closes;                // close() of a descriptor that isn't open
int hits();                           // scripted failures that happened
extern std::function<void(const char *)> on_call; // before each interposed call (signal injection)

// ---- the outside world -----------------------------------------------------
std::size_t actions();                 // what the kernel or the network could do now
void act(std::size_t i);
bool advance();                        // jump to the next timer; false if none is armed
bool has_timer();
void pass(std::int64_t ns);            // let virtual time pass
void jump_system(std::int64_t ns);     // clock adjustment
extern std::function<bool()> on_block; // called while a call blocks: make something happen, false = nothing can
extern std::function<void(std::function<bool()>, const char *)> on_wait; // replaces block_until (other threads run meanwhile)
extern std::function<void(const char *)> on_switch; // before each interposed call, outside of the kernel
void block_until(std::function<bool()> ready, const char * what);
void reset_stream(dp d, int err);      // connection breaks: both ends see err
void reset_reader(const std::shared_ptr<stream_q> & q, int err);
void notify(const dp & d);             // readiness may have changed
std::pair<int, int> make_stream_pair(int domain);
bool deliver_all();                    // network catches up
// signals
bool handles(int sig);
void raise_signal(int sig);
// resolver
struct resolution { int eai = 0; int sys = 0; std::vector<std::string> addrs; };
extern std::function<resolution(const char * host, const char * service, const void * hints)> on_resolve;
extern int live_addrinfo;
}
