// Controlled scheduler for multi-threaded code compiled with -fsanitize=thread.
//
// The __tsan_* instrumentation calls (and pthread mutexes, once, static guards and
// operator new/delete) come here instead of ThreadSanitizer's runtime.  One thread
// runs at a time; before every synchronising operation (mutex, once, atomic) the
// explorer chooses who goes on, with a bound on preemptions.  Plain accesses are
// checked for data races with vector clocks (so exploring the order of synchronising
// operations is enough) and for use of freed heap memory.
// Every execution runs in a forked child, so that it starts from the same process state.
#pragma once
#include "vp.hpp"

namespace sched {
// run one execution in a child process; decisions made there continue the tape
void isolated(vp::Ctx& c, const std::function<void(vp::Ctx&)>& body);
// inside isolated(): run the threads to completion under all schedules with at most
// `preemptions` preemptions. false: deadlock or abandoned (already reported)
void run(vp::Ctx& c, std::vector<std::function<void()>> threads, int preemptions);
// not reported as races
void exempt(const void* p, size_t n);
// report from a scheduled thread
void fail(const std::string& key, const std::string& text);
void state(uint64_t h);
uint64_t points(); // synchronising operations of this execution
}
