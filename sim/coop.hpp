// Several processes that work at the same time: each runs on a stack of its own, and at the simulated system calls
// named by the plan another one goes on. Between two calls a process runs alone.
#pragma once
#include "simkit.hpp"
namespace sim {
    struct CoopResult { vector<string> out, err; u64 switches = 0, points = 0; };
    // A turn: after that many system calls of the running processes process `to` goes on (if it has not ended).
    struct Turn { u64 after; size_t to; };
    CoopResult cooperate(const vector<std::function<void()>> &processes, const vector<Turn> &turns);
    size_t coop_self(); // which process runs
    string coop_out(); // what it printed since the last call
    string coop_err();
    u64 coop_faults(size_t process); // errors that hit it
}
