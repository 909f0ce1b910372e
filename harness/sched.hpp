// A scheduler for multi-threaded runs: every operation on a mutex, condition
// variable or thread (and, with the thread sanitizer, every atomic access) of
// the program is a point where another thread may be chosen to go on.  One
// thread runs at a time; which one is decided by a policy, so that a run can be
// repeated and all runs of a kind can be enumerated.  The operations are
// redirected here by the linker (--wrap); nothing in the library knows of it.
#pragma once
#include <cstddef>
namespace sc {
enum Kind { Random = 0, Priorities = 1, List = 2 };
struct Choice { unsigned char options, taken, preempts, could; };
struct Shared { // survives the child process
    volatile int nlog; char log[1 << 20];
    volatile int nchoices; Choice choices[4096];
    volatile int verdict; // 0 running, 1 deadlock, 2 no progress, 3 ended, 4 taken off the leash
    volatile int steps, threads, done; volatile long total; volatile int deep, different;
};
struct Policy { Kind kind; unsigned seed; int permille; int changes; int length; bool spurious; const unsigned char* list; int nlist; };
Shared* shared();                     // allocates it on first use
void reset();                         // before a run
void begin(Policy const&);            // in the child: the calling thread is thread 0
void end();
void log(const char* s, size_t n);    // appends a line
int counter(int k, int add);          // counters that are not seen by the sanitizers
}
