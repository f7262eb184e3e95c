// Controlled threads: a stand-in for the OpenMP runtime and for pthread mutexes
// under which exactly one thread runs at a time and every choice of which one
// is enumerated; memory accesses of instrumented code are checked for
// happens-before on every schedule.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace sched {
// A schedule deviates from the default (go on with the running thread; when it blocks or ends, with the
// first that can run) in at most `preemptions` places; with free_choices, who goes on after a thread
// blocks or ends is not counted.
struct Config { int team = 2; bool nested = false; int preemptions = 2; bool free_choices = true; int limit = 2000000; };
struct Result {
    uint64_t schedules = 0, points = 0, accesses = 0, max_depth = 0; bool cut = false;
    std::string bad;       // race, use after free; empty if none
    std::string path;      // the schedule it happened on
};
// Runs body on every schedule within the bounds. body must build its own world;
// after every execution, done() judges it (outside the controlled part) and
// returns false to stop.
Result explore(const Config& c, const std::function<void()>& body, const std::function<bool()>& done);
// Serial execution (team of one).
void serial(const std::function<void()>& body);
// Runs the functions concurrently, as callers of their own (inside body only).
void concurrently(const std::function<void()>* f, int n);
std::string current_path();
}
