// Virtual threads: real OS threads of which exactly one runs at a time; the seeded scheduler decides who
// runs next at every mutex, condition variable, thread and system call.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
namespace vt
{
extern bool enabled;
extern unsigned rate;                    // out of 64: how eagerly threads are switched
extern bool spurious;                    // condition variables wake up spuriously
void start();                            // the calling thread becomes thread 0
int self();                              // number of the calling thread
void point(const char * what);           // another thread may run here
void wait(std::function<bool()> ready, const char * what); // block until ready()
void sleep(std::int64_t ns);             // virtual time
extern std::function<void()> on_idle;    // no thread can run: invariants, before time passes
int alive();                             // threads that haven't ended
bool finished(int id);
int created();
// happens-before edges, for the race detector (race.cpp)
enum class sync { acquire, release, create, join };
extern void (*on_sync)(sync, const void * object, int thread);
void forget(const void * p, std::size_t n); // memory that is handed out anew
void sync_finished();                    // the caller learnt in some way of its own that threads have ended
extern int fail_create;                  // the n-th pthread_create from now fails (-1: off)
}
