// Controlled OpenMP runtime: replaces libgomp (and, for recording, libtsan).
// A parallel region runs on one OS thread; tasks are suspended at creation and executed where the plan says, under the
// thread number the plan says.  In recording mode every access of the instrumented code is attributed to the task (or
// implicit task) that made it and unordered conflicting accesses are reported.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace omprt
{
    struct Plan
    {
        int threads = 2;       // omp_get_max_threads
        int single  = 0;       // thread that enters the single construct
        int region  = -1;      // region with a prescribed schedule (counted from the last reset)
        std::vector<int> ev;   // its events: -1 the next creation, k: task k is executed
        std::vector<int> thr;  // its threads
        int pattern    = 0;    // elsewhere: task k runs on thread (k >> pattern) modulo threads, in order of creation
        bool record    = false;
        bool scribble  = true; // overwrite the dead part of the stack before tasks run at the end of a region
    };

    void reset(const Plan& p);                                            // start of an execution
    void watch(const void* p, std::size_t n, const std::string& name);    // memory hashed after every region; name for reports
    void unwatch();

    const std::vector<int>& tasks();              // number of tasks of every region of the execution
    const std::vector<std::uint64_t>& hashes();   // content of the watched memory after every region
    const std::vector<std::string>& conflicts();  // unordered conflicting accesses
    std::uint64_t recorded();                     // number of accesses recorded
    int unsupported();                            // number of calls into parts of the runtime that are not modelled
}
