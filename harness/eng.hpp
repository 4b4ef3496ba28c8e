// Controlled execution of small concurrent programs. The code under test is compiled with -fsanitize=thread but linked
// against the runtime in eng.cpp, which runs the program's threads as fibers of one OS thread, decides at every shared
// access which fiber goes on, models the kernel side (futex, clocks, sleeping, pthread mutex and condition variable),
// optionally delays stores as a weaker memory would, injects spurious wakeups and allocation failures, and watches plain
// accesses with vector clocks. Everything is a function of Cfg::seed and the program.
#ifndef VERIF_ENG_HPP
#define VERIF_ENG_HPP
#include "common.hpp"
#include <functional>
namespace eng {
using vf::u64; using vf::u128;
typedef std::int64_t i64;
#ifdef VF_BIG
enum { MAXF = 20 };
#else
enum { MAXF = 8 };
#endif
struct Cfg {
    u64 seed; int strat; unsigned sw; int depth; unsigned len; bool tso; int scheme; unsigned spurious; unsigned tick; i64 tickmax; bool jumps; bool races; u64 failmask; bool failall; unsigned max_steps;
    Cfg() : seed(1), strat(0), sw(16), depth(2), len(300), tso(false), scheme(0), spurious(0), tick(0), tickmax(0), jumps(false), races(true), failmask(0), failall(false), max_steps(30000) {}
    static Cfg random(u64 seed); // varied scheduling parameters; memory and fault parameters are left to the caller
};
enum Status { S_DONE, S_QUIESCENT, S_LIVELOCK };
struct Result {
    Status status; std::string error; // error: data race, use of freed memory, failed call ...
    unsigned steps, switches, blocks, wakes, requeues, spurious, timeouts, allocs, failed_allocs, forwarded; std::vector<int> blocked; std::vector<std::string> where;
    i64 end_time, passed; size_t live_allocs; size_t peak_allocs; size_t live_at_end;
    std::vector<std::pair<unsigned, i64> > tlog; // virtual time at some of the steps
    std::vector<char> waiting; // which fibers were blocked in the kernel at the end
};
typedef void (*ProcFn)(void*);
// run the bodies as fibers; proc[i] is the process fiber i belongs to (private futexes do not cross processes)
Result run(const std::vector<std::function<void()> >& bodies, const Cfg& cfg, const std::vector<int>* proc = 0);
// inside a fiber: code between op_begin and op_end is the code under test
void op_begin(const char* what); void op_end();
struct Op { Op(const char* w) { op_begin(w); } ~Op() { op_end(); } };
void quiet(bool on);        // harness code inside an operation
struct Quiet { Quiet() { quiet(true); } ~Quiet() { quiet(false); } };
unsigned step();            // logical time
i64 now();                  // virtual CLOCK_MONOTONIC, ns
i64 now_real();             // virtual CLOCK_REALTIME
void set_start_time(i64 mono, i64 real);
i64 advanced(); // total of advance() so far
void advance(i64 ns);       // time passes while this fiber computes
void yield_point();         // a scheduling point in harness code
void block_until_steps();   // let other fibers run for a while
void plain_write(void* p, size_t n); void plain_read(const void* p, size_t n); // harness data, checked for races
void add_region(void* p, size_t n);            // memory whose accesses are scheduled and checked
void add_alias(void* p, size_t n, void* canon); // p is another mapping of the memory at canon
void clear_regions();
// the bytes at p are sampled at every step; history(i) lists their values with the step at which each was first seen
int add_watch(const void* p, size_t n); struct Seen { unsigned step; std::string bytes; }; const std::vector<Seen>& history(int watch);
i64 max_real_since(i64 mono);  // largest CLOCK_REALTIME between virtual time mono and now
unsigned blocks_of(int fiber); // how often it blocked so far
bool is_blocked(int fiber);    // in the kernel model
void forbid_library_state(bool on); // from now on this fiber must not touch the library's process-private state
void fail(const std::string& why);
int self();
bool in_fiber();
}
#endif
