// Deterministic simulation layer: simulated clock, cooperative seeded thread scheduler, simulated UDP
// network and file-fault injection.  Implemented by interposing libc symbols from the executable, so the
// code under test runs unmodified.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace sim
{
    struct Cfg
    {
        uint64_t sched_seed   = 0;
        int      sched_mode   = 0;     // 0 = stay (no voluntary preemption), 1 = random, 2 = explicit list
        int      preempt_mean = 50;    // random mode: mean number of preemption points between voluntary switches
        std::vector<std::pair<uint64_t, int>> sched_list;  // explicit list: (decision index, thread id)
        int64_t  clock_tick_ns  = 1000;  // every clock read moves simulated time by this much
        int64_t  nap_extra_ns   = 0;      // the next sleep takes longer by this much ...
        int64_t  nap_jump_ns    = 0;      // ... and the wall clock is set meanwhile
        uint32_t entropy        = 12345;  // state of the simulated entropy device
        uint64_t max_decisions  = 4000000;
    };

    extern Cfg cfg;

    void start();                       // enter simulated mode (calling thread becomes thread 0)
    bool active();
    void advance(int64_t ns);           // let simulated time pass for the calling thread (other threads may run)
    void jump_clock(int64_t ns);        // wall clock jump (CLOCK_REALTIME only)
    void set_wall(int64_t ns);          // set wall clock (CLOCK_REALTIME) epoch
    int64_t now();
    int64_t wall();
    void yield_now(int n);              // n explicit scheduling opportunities
    bool quiesce(int64_t max_ns);       // run other threads until all are blocked without pending input

    // network
    void udp_deliver(int port, const std::string& data);                 // now
    void udp_deliver_at(int64_t delay_ns, int port, const std::string& data);
    size_t udp_pending(int port);       // undelivered datagrams in a socket queue (0 when no socket)
    bool udp_bound(int port);
    int  open_sockets();

    extern bool net_trace;              // trace every received datagram: V port delivery-number

    // faults
    struct FileRule
    {
        std::string match;   // substring of path
        std::string kind;    // w:eio w:enospc w:short w:crash w:openfail w:eintr  r:missing r:trunc r:eio
        int64_t     at = 0;  // byte offset
        int64_t     n  = 0;
        int         hits = 0;
        bool        once = false;
    };
    extern std::vector<FileRule> file_rules;
    struct SysRule
    {
        std::string call;   // socket, bind, recv, setsockopt
        int         nth;    // 1-based count of calls
        int         err;
        int         hits = 0;
    };
    extern std::vector<SysRule> sys_rules;

    // stats / probes
    void        probe(const char* name);
    std::string probes_str();
    std::string schedule_str();         // recorded decisions, in the explicit-list format
    uint64_t    decisions();
    uint64_t    sched_hash();
    int         live_threads();
    void        trace(const char* fmt, ...);  // append to trace buffer
    void        fatal(const char* kind, const char* detail);  // record verdict and leave the process
}
