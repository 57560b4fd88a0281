// Controlled execution of several threads on code compiled with -fsanitize=thread: the instrumentation calls come here
// instead of to the race detector's library. One thread runs at a time; which one is decided at points in the code.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace sched {

enum Points : uint32_t {
    Functions, // every function entry of the code under test
    Accesses,  // every access to memory that is not on the thread's own stack
    Conflicts, // accesses to the given 8-byte cells only
};

struct Script {
    int first = 0;                   // thread that starts
    std::vector<uint64_t> switch_at; // numbers of the points before which the running thread is switched
    Points points = Functions;
    std::vector<uint64_t> cells;     // for Conflicts, sorted
    bool record = false;             // record all accesses
    std::vector<std::string> before; // texts assembled before the threads start
};

struct Run {
    bool died = false, hung = false, overflow = false, helped = false;
    std::string how;
    std::vector<std::vector<uint64_t>> words;
    std::vector<std::string> error;     // empty: the call succeeded
    uint64_t points = 0;                // how many points there were
    uint64_t accesses = 0;
    std::vector<uint64_t> conflicts;    // cells where two threads race or synchronise
    std::vector<uint64_t> shared_written; // cells outside the thread's stack and own allocations that were written
    std::vector<uint64_t> shared_used;    // ... that were used at all (only those in writable static memory)
};

bool available();
// Runs the texts, one thread each, in a fresh process.
Run execute(const std::vector<std::string>& texts, const Script& script);

} // namespace sched
