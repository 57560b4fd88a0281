// Runs the items of a finite space on all cores, in worker processes that may die or hang.
#pragma once
#include "impl.hpp"
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <string_view>
#include <vector>

namespace run {

extern bool thorough;     // tier
extern int jobs;          // worker processes
extern int only_violations; // stop after this many

// Counters, shared by the workers
void states(uint64_t n = 1);
void transitions(uint64_t n = 1);
void traces(uint64_t n = 1);
void count(int which, uint64_t n = 1); // free counters 0..15
uint64_t counter(int which);

// Runs the code under test on a text, remembering it for the case that the process dies.
const impl::Result& assemble(std::string_view text, const char* filename = "file.sass");
// For work that is not assemble(): what to report if it dies.
void mark(std::string_view text);
void alive(); // shows progress

// Reports that the property is broken. kind: short; text: the input; detail: what happened.
void violation(std::string_view kind, std::string_view text, std::string_view detail);
bool stop(); // enough violations: give up

// Suspicious text: judges it again in a process that has not run anything else, by calling judge(mode, text, kind)
// there. Returns what judge returns (false: it reported a violation). A process that calls exit() in the real tool
// ends there; here it goes on, so only what a fresh process shows counts.
extern bool (*judge)(unsigned mode, std::string_view text, const char* kind);
bool confirm(unsigned mode, std::string_view text, const char* kind);

void sample(std::string_view s); // an example for the evidence (only the first few are kept)

// Calls fn(item) for all items 0 .. n-1. dying_is: kind of violation when a worker dies or hangs.
// A death counts if the text last passed to assemble() also kills a fresh process, or, with whole_item, if the item
// does so again when run alone.
void all(const std::string& what, size_t n, const std::function<void(size_t)>& fn, const char* dying_is = "crash",
         bool whole_item = false);
// The same in chunks: fn(begin, end)
void ranges(const std::string& what, uint64_t n, uint64_t chunk, const std::function<void(uint64_t, uint64_t)>& fn);

void note(const std::string& key, const std::string& value); // goes to the evidence
void bound(const std::string& text);                         // a line for "bounds"

int finish(const std::string& property, const char* out); // writes the result file
} // namespace run
