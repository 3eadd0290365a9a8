#include "sim.hpp"

#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <fcntl.h>
#include <time.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <sys/syscall.h>
#include <sys/ioctl.h>
#include <deque>
#include <map>
#include <set>
#include <random>
#include <algorithm>
#include <functional>

namespace sim
{
    Cfg                   cfg;
    std::vector<FileRule> file_rules;
    std::vector<SysRule>  sys_rules;

    static bool on_ = false;

    template <typename T>
    static T real(const char* name)
    {
        return reinterpret_cast<T>(dlsym(RTLD_NEXT, name));
    }
#define REAL(fn) (*([]() -> decltype(&::fn) { static decltype(&::fn) p = sim::real<decltype(&::fn)>(#fn); return p; })())

    struct Th
    {
        int     id = 0;
        sem_t   sem;
        enum St
        {
            RUN,
            B_MUTEX,
            B_JOIN,
            B_RECV,
            B_SLEEP,
            B_COND,
            B_IDLE,
            DONE
        } st             = RUN;
        const void* obj  = nullptr;
        int64_t deadline = -1;
        bool    timedout = false;
        void* (*fn)(void*) = nullptr;
        void*     arg      = nullptr;
        void*     ret      = nullptr;
        pthread_t pt;
    };

    static std::vector<Th*> ths;
    static thread_local Th* me = nullptr;
    static thread_local int busy = 0;  // inside the simulator: no preemption

    static int64_t  mono_     = 1000000000;              // simulated monotonic time
    static int64_t  wall_off_ = 1700000000000000000LL;   // wall = mono + offset
    static uint64_t ppoint_ = 0, picks_ = 0, hash_ = 1469598103934665603ULL;
    static uint64_t rng_ = 0;
    static std::vector<std::pair<uint64_t, int>> recorded_;
    static size_t  list_pos_ = 0;
    static int64_t countdown_ = 0;
    static std::map<std::string, uint64_t> probes_;

    struct Guard
    {
        Guard() { busy++; }
        ~Guard() { busy--; }
    };

    static uint64_t rnd()
    {
        // splitmix64
        uint64_t z = (rng_ += 0x9e3779b97f4a7c15ULL);
        z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z          = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }

    void probe(const char* name) { probes_[name]++; }
    std::string probes_str()
    {
        std::string s;
        for (auto& p : probes_) s += p.first + "=" + std::to_string(p.second) + " ";
        return s;
    }

    // ---- network state
    struct Sock
    {
        int     port    = 0;
        int64_t timeout = 0;  // ns, 0 = block forever
        bool    nonblock = false;
        std::deque<std::pair<std::string, int>> q;  // data, delivery number
    };
    bool net_trace = false;
    static int deliveries_ = 0;
    static std::map<int, Sock> socks;  // fd -> socket
    struct Ev
    {
        int64_t     t;
        uint64_t    seq;
        int         port;
        std::string data;
        int         nr = 0;
        bool operator<(const Ev& o) const { return t != o.t ? t < o.t : seq < o.seq; }
    };
    static std::set<Ev> events;
    static uint64_t     ev_seq = 0;

    static void wake(Th::St st, const void* obj)
    {
        for (auto* t : ths)
            if (t->st == st && t->obj == obj)
            {
                t->st       = Th::RUN;
                t->timedout = false;
                t->deadline = -1;
            }
    }

    static void push_port(int port, const std::string& data, int nr)
    {
        bool any = false;
        for (auto& s : socks)
            if (s.second.port == port)
            {
                s.second.q.push_back({data, nr});
                wake(Th::B_RECV, &s.second);
                any = true;
                break;
            }
        probe(any ? "net.delivered" : "net.noport");
    }

    static void fire_due()
    {
        while (!events.empty() && events.begin()->t <= mono_)
        {
            Ev e = *events.begin();
            events.erase(events.begin());
            push_port(e.port, e.data, e.nr);
        }
        for (auto* t : ths)
            if (t->st != Th::RUN && t->st != Th::DONE && t->deadline >= 0 && t->deadline <= mono_)
            {
                t->st       = Th::RUN;
                t->timedout = true;
                t->deadline = -1;
            }
    }

    static Th* pick(bool forced)
    {
        std::vector<Th*> r;
        for (;;)
        {
            fire_due();
            r.clear();
            for (auto* t : ths)
                if (t->st == Th::RUN) r.push_back(t);
            if (!r.empty()) break;
            // nobody runnable: an idle-waiting thread may continue, else let time pass
            int64_t next = -1;
            for (auto* t : ths)
                if (t->st != Th::DONE && t->deadline >= 0 && (next < 0 || t->deadline < next)) next = t->deadline;
            if (!events.empty() && (next < 0 || events.begin()->t < next)) next = events.begin()->t;
            if (next < 0)
            {
                std::string d;
                for (auto* t : ths)
                    if (t->st != Th::DONE) d += "t" + std::to_string(t->id) + ":" + std::to_string(t->st) + " ";
                fatal("DEADLOCK", d.c_str());
            }
            if (next > mono_) mono_ = next;
        }
        if (++picks_ > cfg.max_decisions) fatal("LIVELOCK", "scheduling budget exhausted");
        Th* c = nullptr;
        if (r.size() == 1)
            c = r[0];
        else if (cfg.sched_mode == 1)
        {
            if (forced)
                c = r[rnd() % r.size()];
            else
            {
                // voluntary preemption: any other runnable thread
                std::vector<Th*> o;
                for (auto* t : r)
                    if (t != me) o.push_back(t);
                c = o.empty() ? me : o[rnd() % o.size()];
            }
        }
        else if (cfg.sched_mode == 2)
        {
            while (list_pos_ < cfg.sched_list.size() && cfg.sched_list[list_pos_].first < ppoint_) list_pos_++;
            if (list_pos_ < cfg.sched_list.size() && cfg.sched_list[list_pos_].first == ppoint_)
            {
                for (auto* t : r)
                    if (t->id == cfg.sched_list[list_pos_].second) c = t;
            }
            if (!c) c = (!forced && me->st == Th::RUN) ? me : r[0];
        }
        else
            c = (!forced && me->st == Th::RUN) ? me : r[0];
        if (r.size() > 1)
        {
            hash_ = (hash_ ^ (ppoint_ * 31 + c->id)) * 1099511628211ULL;
            Th* dflt = (!forced && me->st == Th::RUN) ? me : r[0];
            if (c != dflt) recorded_.push_back({ppoint_, c->id});
        }
        return c;
    }

    static void switch_to(Th* c, bool leaving)
    {
        Th* self = me;
        if (c == self) return;
        probe("sched.switch");
        sem_post(&c->sem);
        if (!leaving)
            while (sem_wait(&self->sem) != 0) {}
    }

    static void reset_countdown()
    {
        countdown_ = cfg.sched_mode == 1 ? 1 + static_cast<int64_t>(rnd() % static_cast<uint64_t>(2 * cfg.preempt_mean)) : 0;
    }

    // Every preemption point and every blocking operation has an index (ppoint_); scheduling decisions that
    // differ from the default (stay / lowest runnable id) are recorded as (index, thread) and can be replayed
    // as an explicit list.
    static void preempt_point()
    {
        if (!on_ || busy || !me) return;
        if (ths.size() < 2) return;
        ppoint_++;
        if (cfg.sched_mode == 0) return;
        if (cfg.sched_mode == 1)
        {
            if (--countdown_ > 0) return;
            Guard g;
            reset_countdown();
            if (live_threads() < 2) return;
            switch_to(pick(false), false);
        }
        else
        {
            while (list_pos_ < cfg.sched_list.size() && cfg.sched_list[list_pos_].first < ppoint_) list_pos_++;
            if (list_pos_ >= cfg.sched_list.size() || cfg.sched_list[list_pos_].first != ppoint_) return;
            Guard g;
            switch_to(pick(false), false);
        }
    }

    static void block_forced()
    {
        ppoint_++;
        Th* c = pick(true);
        switch_to(c, false);
    }

    void start()
    {
        Th* t = new Th;
        t->id = 0;
        sem_init(&t->sem, 0, 0);
        t->pt = pthread_self();
        ths.push_back(t);
        me   = t;
        rng_ = cfg.sched_seed * 0x2545F4914F6CDD1DULL + 88172645463325252ULL;
        reset_countdown();
        on_ = true;
    }
    bool    active() { return on_; }
    int64_t now() { return mono_; }
    int64_t wall() { return mono_ + wall_off_; }
    void    jump_clock(int64_t ns) { wall_off_ += ns; probe("clock.jump"); }
    void    set_wall(int64_t ns) { wall_off_ = ns - mono_; }
    uint64_t decisions() { return ppoint_; }
    uint64_t sched_hash() { return hash_; }
    int      live_threads()
    {
        int n = 0;
        for (auto* t : ths) n += t->st != Th::DONE;
        return n;
    }
    std::string schedule_str()
    {
        std::string s;
        for (auto& p : recorded_) s += std::to_string(p.first) + ":" + std::to_string(p.second) + ",";
        return s;
    }

    void advance(int64_t ns)
    {
        Guard g;
        if (live_threads() < 2)
        {
            int64_t end = mono_ + ns;
            while (!events.empty() && events.begin()->t <= end)
            {
                mono_ = std::max(mono_, events.begin()->t);
                fire_due();
            }
            mono_ = std::max(mono_, end);
            return;
        }
        me->st       = Th::B_SLEEP;
        me->obj      = nullptr;
        me->deadline = mono_ + (ns > 0 ? ns : 0);
        block_forced();
    }

    void yield_now(int n)
    {
        for (int i = 0; i < n; i++) preempt_point();
    }

    // Run the other threads until each of them is blocked and no socket a thread is waiting on has input.
    bool quiesce(int64_t max_ns)
    {
        int64_t end = mono_ + max_ns;
        while (mono_ <= end)
        {
            bool pending = !events.empty();
            for (auto& s : socks)
                if (!s.second.q.empty()) pending = true;
            bool runnable = false;
            for (auto* t : ths)
                if (t != me && t->st == Th::RUN) runnable = true;
            if (!pending && !runnable) return true;
            advance(1000000);
        }
        return false;
    }

    void udp_deliver(int port, const std::string& d)
    {
        Guard g;
        push_port(port, d, deliveries_++);
    }
    void udp_deliver_at(int64_t delay, int port, const std::string& d)
    {
        Guard g;
        events.insert(Ev{mono_ + delay, ev_seq++, port, d, deliveries_++});
    }
    size_t udp_pending(int port)
    {
        size_t n = 0;
        for (auto& s : socks)
            if (s.second.port == port) n += s.second.q.size();
        return n;
    }
    bool udp_bound(int port)
    {
        for (auto& s : socks)
            if (s.second.port == port) return true;
        return false;
    }
    int open_sockets() { return static_cast<int>(socks.size()); }

    static int sysfault(const char* call)
    {
        for (auto& r : sys_rules)
            if (r.call == call)
            {
                r.hits++;
                if (r.nth == 0 || r.hits == r.nth)
                {
                    probe((std::string("fault.") + call).c_str());
                    return r.err;
                }
            }
        return 0;
    }

    static void* trampoline(void* p)
    {
        Th* t = static_cast<Th*>(p);
        me    = t;
        while (sem_wait(&t->sem) != 0) {}
        t->ret = t->fn(t->arg);
        busy++;
        t->st = Th::DONE;
        wake(Th::B_JOIN, t);
        ppoint_++;
        Th* c = pick(true);
        switch_to(c, true);
        return t->ret;
    }

    // ---- file rules
    struct Tracked
    {
        std::string path;
        int64_t     off = 0;  // bytes that reached the file through this descriptor
        bool        dead = false;
    };
    static std::map<int, Tracked> wfds;
    static std::map<int, Tracked> rfds;

    static FileRule* rule(const std::string& path, char dir)
    {
        for (auto& r : file_rules)
            if (r.kind[0] == dir && path.find(r.match) != std::string::npos) return &r;
        return nullptr;
    }

    // returns number of bytes to write really, or -1 with errno; crash leaves the process
    static ssize_t wfault(Tracked& t, size_t len, int fd, const std::function<ssize_t(size_t)>& doit)
    {
        (void)fd;
        FileRule* r = rule(t.path, 'w');
        if (r == nullptr || r->kind == "w:openfail")
        {
            ssize_t n = doit(len);
            if (n > 0) t.off += n;
            return n;
        }
        if (r->kind == "w:short")  // every write is cut to at most n bytes from offset at
        {
            size_t k = t.off >= r->at ? std::min<size_t>(len, static_cast<size_t>(std::max<int64_t>(1, r->n))) : len;
            if (k < len)
            {
                r->hits++;
                probe("fault.write_short");
            }
            ssize_t n = doit(k);
            if (n > 0) t.off += n;
            return n;
        }
        if (r->kind == "w:eintr")
        {
            if (t.off >= r->at && r->hits < r->n)
            {
                r->hits++;
                probe("fault.write_eintr");
                errno = EINTR;
                return -1;
            }
            ssize_t n = doit(len);
            if (n > 0) t.off += n;
            return n;
        }
        if (t.off + static_cast<int64_t>(len) <= r->at)
        {
            ssize_t n = doit(len);
            if (n > 0) t.off += n;
            return n;
        }
        // this write crosses the fault offset
        size_t k = r->at > t.off ? static_cast<size_t>(r->at - t.off) : 0;
        if (r->once && r->hits > 0)
        {
            ssize_t n = doit(len);
            if (n > 0) t.off += n;
            return n;
        }
        r->hits++;
        if (r->kind == "w:crash")
        {
            if (k > 0) doit(k);
            probe("fault.crash");
            fatal("CRASHED", "injected");
        }
        if (k > 0)
        {
            ssize_t n = doit(k);  // partial write first, error next time
            if (n > 0) t.off += n;
            probe("fault.write_partial");
            return n;
        }
        probe(r->kind == "w:enospc" ? "fault.enospc" : "fault.write_eio");
        errno = r->kind == "w:enospc" ? ENOSPC : EIO;
        return -1;
    }

    struct Cookie
    {
        int         fd;
        std::string path;
        bool        writing;
        int64_t     roff = 0;
    };
}  // namespace sim

using namespace sim;

// ------------------------------------------------------------------ time
extern "C" int clock_gettime(clockid_t id, struct timespec* ts)
{
    if (!on_ || !me) return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
    mono_ += cfg.clock_tick_ns;
    int64_t t = mono_ + ((id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? wall_off_ : 0);
    ts->tv_sec  = t / 1000000000;
    ts->tv_nsec = t % 1000000000;
    probe("clock.read");
    preempt_point();
    return 0;
}
extern "C" int gettimeofday(struct timeval* tv, void* tz)
{
    (void)tz;
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec  = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
extern "C" time_t time(time_t* t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
static int sim_sleep(int64_t ns)
{
    probe("clock.sleep");
    advance(ns + cfg.nap_extra_ns);
    if (cfg.nap_jump_ns != 0) jump_clock(cfg.nap_jump_ns);
    cfg.nap_extra_ns = cfg.nap_jump_ns = 0;
    return 0;
}
extern "C" int nanosleep(const struct timespec* rq, struct timespec* rm)
{
    if (!on_ || !me) return REAL(nanosleep)(rq, rm);
    return sim_sleep(rq->tv_sec * 1000000000LL + rq->tv_nsec);
}
extern "C" int clock_nanosleep(clockid_t id, int flags, const struct timespec* rq, struct timespec* rm)
{
    if (!on_ || !me) return REAL(clock_nanosleep)(id, flags, rq, rm);
    int64_t t = rq->tv_sec * 1000000000LL + rq->tv_nsec;
    if (flags & TIMER_ABSTIME) t -= mono_ + (id == CLOCK_REALTIME ? wall_off_ : 0);
    return sim_sleep(t > 0 ? t : 0);
}
extern "C" int usleep(useconds_t us)
{
    if (!on_ || !me) return REAL(usleep)(us);
    return sim_sleep(us * 1000LL);
}
// ------------------------------------------------------------------ randomness
namespace std
{
    // device entropy is simulated: a fixed stream
    random_device::result_type random_device::_M_getval()
    {
        probe("random_device");
        cfg.entropy = cfg.entropy * 1664525u + 1013904223u;
        return cfg.entropy;
    }
}
// ------------------------------------------------------------------ threads
extern "C" int pthread_create(pthread_t* pt, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
    if (!on_ || !me) return REAL(pthread_create)(pt, at, fn, arg);
    {
        Guard g;
        Th*   t = new Th;
        t->id   = static_cast<int>(ths.size());
        sem_init(&t->sem, 0, 0);
        t->fn  = fn;
        t->arg = arg;
        ths.push_back(t);
        int r = REAL(pthread_create)(&t->pt, at, trampoline, t);
        if (r != 0) return r;
        *pt = t->pt;
        probe("thread.create");
    }
    preempt_point();
    return 0;
}
extern "C" int pthread_join(pthread_t pt, void** ret)
{
    if (!on_ || !me) return REAL(pthread_join)(pt, ret);
    Guard g;
    for (auto* t : ths)
        if (t->pt == pt && t != me)
        {
            while (t->st != Th::DONE)
            {
                me->st       = Th::B_JOIN;
                me->obj      = t;
                me->deadline = -1;
                block_forced();
            }
        }
    return REAL(pthread_join)(pt, ret);
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!on_ || !me || busy) return REAL(pthread_mutex_lock)(m);
    preempt_point();
    Guard g;
    for (;;)
    {
        int r = REAL(pthread_mutex_trylock)(m);
        if (r != EBUSY) return r;
        probe("mutex.contended");
        me->st       = Th::B_MUTEX;
        me->obj      = m;
        me->deadline = -1;
        block_forced();
    }
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!on_ || !me || busy) return REAL(pthread_mutex_unlock)(m);
    int r;
    {
        Guard g;
        r = REAL(pthread_mutex_unlock)(m);
        wake(Th::B_MUTEX, m);
    }
    preempt_point();
    return r;
}
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!on_ || !me) return REAL(pthread_cond_wait)(c, m);
    {
        Guard g;
        REAL(pthread_mutex_unlock)(m);
        wake(Th::B_MUTEX, m);
        me->st       = Th::B_COND;
        me->obj      = c;
        me->deadline = -1;
        block_forced();
    }
    return pthread_mutex_lock(m);
}
extern "C" int pthread_cond_signal(pthread_cond_t* c)
{
    if (!on_ || !me) return REAL(pthread_cond_signal)(c);
    {
        Guard g;
        for (auto* t : ths)
            if (t->st == Th::B_COND && t->obj == c)
            {
                t->st = Th::RUN;
                break;
            }
    }
    preempt_point();
    return 0;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!on_ || !me) return REAL(pthread_cond_broadcast)(c);
    {
        Guard g;
        wake(Th::B_COND, c);
    }
    preempt_point();
    return 0;
}
extern "C" int sched_yield(void) noexcept
{
    if (!on_ || !me) return static_cast<int>(syscall(SYS_sched_yield));
    preempt_point();
    mono_ += 1000;
    return 0;
}
// compiler inserted preemption points (files built with -fsanitize-coverage=trace-pc)
extern "C" __attribute__((no_sanitize_address)) void __sanitizer_cov_trace_pc(void)
{
    if (!on_ || busy || !me) return;
    preempt_point();
}
// ------------------------------------------------------------------ network
extern "C" int socket(int d, int t, int p) noexcept
{
    if (!on_ || !me || d != AF_INET) return REAL(socket)(d, t, p);
    Guard g;
    if (int e = sysfault("socket"))
    {
        errno = e;
        return -1;
    }
    int fd = open("/dev/null", O_RDWR | O_CLOEXEC);
    socks[fd] = Sock();
    probe("net.socket");
    return fd;
}
extern "C" int bind(int fd, const struct sockaddr* a, socklen_t l) noexcept
{
    if (!on_ || !me || !socks.count(fd)) return REAL(bind)(fd, a, l);
    Guard g;
    if (int e = sysfault("bind"))
    {
        errno = e;
        return -1;
    }
    int port = ntohs(reinterpret_cast<const struct sockaddr_in*>(a)->sin_port);
    socks[fd].port = port;
    return 0;
}
extern "C" int setsockopt(int fd, int level, int name, const void* v, socklen_t l) noexcept
{
    if (!on_ || !me || !socks.count(fd)) return REAL(setsockopt)(fd, level, name, v, l);
    if (level == SOL_SOCKET && name == SO_RCVTIMEO)
    {
        const struct timeval* tv = static_cast<const struct timeval*>(v);
        socks[fd].timeout        = tv->tv_sec * 1000000000LL + tv->tv_usec * 1000LL;
    }
    return 0;
}
extern "C" int ioctl(int fd, unsigned long rq, ...) noexcept
{
    va_list ap;
    va_start(ap, rq);
    void* arg = va_arg(ap, void*);
    va_end(ap);
    if (on_ && me && socks.count(fd))
    {
        if (rq == FIONBIO) socks[fd].nonblock = *static_cast<int*>(arg) != 0;
        return 0;
    }
    return REAL(ioctl)(fd, rq, arg);
}
extern "C" ssize_t recvfrom(int fd, void* buf, size_t n, int flags, struct sockaddr* a, socklen_t* al)
{
    if (!on_ || !me || !socks.count(fd)) return REAL(recvfrom)(fd, buf, n, flags, a, al);
    preempt_point();
    Guard g;
    probe("net.recv_call");
    if (int e = sysfault("recv"))
    {
        if (net_trace) trace("V %d -1", socks[fd].port);
        errno = e;
        return -1;
    }
    Sock&   s     = socks[fd];
    int64_t until = s.timeout > 0 ? mono_ + s.timeout : -1;
    for (;;)
    {
        fire_due();
        if (!s.q.empty())
        {
            std::string d  = s.q.front().first;
            int         nr = s.q.front().second;
            s.q.pop_front();
            if (net_trace) trace("V %d %d", s.port, nr);
            size_t k = std::min(n, d.size());
            memcpy(buf, d.data(), k);
            probe("net.received");
            if (k < n) probe("net.short_datagram");
            if (d.size() > n) probe("net.oversize_datagram");
            return static_cast<ssize_t>(k);
        }
        if (s.nonblock || (flags & MSG_DONTWAIT))
        {
            errno = EAGAIN;
            return -1;
        }
        if (until >= 0 && mono_ >= until)
        {
            probe("net.recv_timeout");
            errno = EAGAIN;
            return -1;
        }
        me->st       = Th::B_RECV;
        me->obj      = &s;
        me->deadline = until;
        block_forced();
    }
}
extern "C" ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t l)
{
    if (!on_ || !me || !socks.count(fd)) return REAL(sendto)(fd, b, n, fl, a, l);
    probe("net.sent");
    return static_cast<ssize_t>(n);
}
extern "C" int close(int fd)
{
    if (on_ && me)
    {
        Guard g;
        socks.erase(fd);
        wfds.erase(fd);
        rfds.erase(fd);
    }
    return static_cast<int>(syscall(SYS_close, fd));
}
// ------------------------------------------------------------------ files
static bool is_write_mode(const char* m) { return strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+'); }

static std::string real_slurp(const char* path, int64_t maxlen)
{
    std::string s;
    int         fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, path, O_RDONLY, 0));
    if (fd < 0) return s;
    char buf[65536];
    ssize_t n;
    while ((n = syscall(SYS_read, fd, buf, sizeof(buf))) > 0) s.append(buf, static_cast<size_t>(n));
    syscall(SYS_close, fd);
    if (maxlen >= 0 && static_cast<int64_t>(s.size()) > maxlen) s.resize(static_cast<size_t>(maxlen));
    return s;
}

static ssize_t ck_write(void* c, const char* b, size_t n)
{
    Cookie* k = static_cast<Cookie*>(c);
    Guard   g;
    Tracked& t = wfds[k->fd];
    t.path     = k->path;
    ssize_t r  = wfault(t, n, k->fd, [&](size_t len) { return static_cast<ssize_t>(syscall(SYS_write, k->fd, b, len)); });
    return r < 0 ? 0 : r;
}
static ssize_t ck_read(void* c, char* b, size_t n)
{
    Cookie*   k = static_cast<Cookie*>(c);
    FileRule* r = rule(k->path, 'r');
    if (r && r->kind == "r:eio" && k->roff + static_cast<int64_t>(n) > r->at)
    {
        if (k->roff >= r->at)
        {
            r->hits++;
            probe("fault.read_eio");
            errno = EIO;
            return -1;
        }
        n = static_cast<size_t>(r->at - k->roff);
    }
    ssize_t m = syscall(SYS_read, k->fd, b, n);
    if (m > 0) k->roff += m;
    return m;
}
static int ck_seek(void* c, off64_t* o, int wh)
{
    Cookie* k = static_cast<Cookie*>(c);
    off_t   p = lseek(k->fd, *o, wh);
    if (p < 0) return -1;
    *o      = p;
    k->roff = p;
    return 0;
}
static int ck_close(void* c)
{
    Cookie* k = static_cast<Cookie*>(c);
    close(k->fd);
    delete k;
    return 0;
}

// Applies open-time rules. Returns 0 = pass through, -1 = fail with errno, 1 = use substitute path in `sub`
static int open_rule(const char* path, const char* mode, std::string& sub)
{
    bool      w = is_write_mode(mode);
    FileRule* r = rule(path, w ? 'w' : 'r');
    if (!w) probe("file.open_read");
    if (!r) return 0;
    if (r->kind == "w:openfail" || r->kind == "r:missing")
    {
        r->hits++;
        if (r->n > 0 && r->hits != r->n) return 0;
        probe(w ? "fault.open_write" : "fault.open_read");
        errno = w ? EACCES : ENOENT;
        return -1;
    }
    if (r->kind == "r:trunc")
    {
        r->hits++;
        probe("fault.read_truncated");
        std::string data = real_slurp(path, r->at);
        if (r->at < 0) data.resize(static_cast<size_t>(static_cast<double>(data.size()) * static_cast<double>(r->n) / 1e6));  // share of the file
        char        tmp[] = "/tmp/simtrXXXXXX";
        int         fd    = mkstemp(tmp);
        if (fd >= 0)
        {
            syscall(SYS_write, fd, data.data(), data.size());
            syscall(SYS_close, fd);
            sub = tmp;
            return 1;
        }
    }
    return 0;
}

extern "C" FILE* fopen(const char* path, const char* mode)
{
    static auto rf = sim::real<FILE* (*)(const char*, const char*)>("fopen");
    if (!on_ || !me) return rf(path, mode);
    Guard       g;
    std::string sub;
    int         k = open_rule(path, mode, sub);
    if (k < 0) return nullptr;
    if (k == 1)
    {
        FILE* f = rf(sub.c_str(), mode);
        unlink(sub.c_str());
        return f;
    }
    bool      w = is_write_mode(mode);
    FileRule* r = rule(path, w ? 'w' : 'r');
    if (!r) return rf(path, mode);
    Dl_info who;
    if (dladdr(__builtin_return_address(0), &who) && who.dli_fname && strstr(who.dli_fname, "libstdc++"))
    {
        // C++ streams read and write the descriptor themselves: the read and write calls are intercepted
        FILE* f = rf(path, mode);
        if (f) (w ? wfds : rfds)[fileno(f)].path = path;
        return f;
    }
    int fl = w ? (O_WRONLY | O_CREAT | (strchr(mode, 'a') ? O_APPEND : O_TRUNC)) : O_RDONLY;
    int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, path, fl | O_CLOEXEC, 0644));
    if (fd < 0) return nullptr;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    return fopencookie(new Cookie{fd, path, w, 0}, mode, io);
}
extern "C" FILE* fopen64(const char* path, const char* mode)
{
    static auto rf = sim::real<FILE* (*)(const char*, const char*)>("fopen64");
    if (!on_ || !me) return rf(path, mode);
    Guard       g;
    std::string sub;
    int         k = open_rule(path, mode, sub);
    if (k < 0) return nullptr;
    FILE* f = rf(k == 1 ? sub.c_str() : path, mode);
    if (k == 1) unlink(sub.c_str());
    if (f)
    {
        if (is_write_mode(mode))
            wfds[fileno(f)].path = path;
        else if (rule(path, 'r'))
            rfds[fileno(f)].path = path;
    }
    return f;
}
extern "C" int fclose(FILE* f)
{
    static auto rf = sim::real<int (*)(FILE*)>("fclose");
    if (on_ && me && f)
    {
        Guard g;
        int   fd = fileno(f);
        if (fd >= 0)
        {
            wfds.erase(fd);
            rfds.erase(fd);
        }
    }
    return rf(f);
}
extern "C" ssize_t write(int fd, const void* b, size_t n)
{
    if (!on_ || !me || busy) return syscall(SYS_write, fd, b, n);
    Guard g;
    auto  it = wfds.find(fd);
    if (it == wfds.end()) return syscall(SYS_write, fd, b, n);
    return wfault(it->second, n, fd, [&](size_t len) { return static_cast<ssize_t>(syscall(SYS_write, fd, b, len)); });
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c)
{
    if (!on_ || !me || busy) return syscall(SYS_writev, fd, v, c);
    Guard g;
    auto  it = wfds.find(fd);
    if (it == wfds.end()) return syscall(SYS_writev, fd, v, c);
    std::string all;
    for (int i = 0; i < c; i++) all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
    return wfault(it->second, all.size(), fd, [&](size_t len) { return static_cast<ssize_t>(syscall(SYS_write, fd, all.data(), len)); });
}
extern "C" ssize_t read(int fd, void* b, size_t n)
{
    if (on_ && me && !busy)
    {
        auto it = rfds.find(fd);
        if (it != rfds.end())
        {
            FileRule* r = rule(it->second.path, 'r');
            if (r && r->kind == "r:eio" && it->second.off + static_cast<int64_t>(n) > r->at)
            {
                if (it->second.off >= r->at)
                {
                    probe("fault.read_eio");
                    errno = EIO;
                    return -1;
                }
                n = static_cast<size_t>(r->at - it->second.off);
            }
            ssize_t m = syscall(SYS_read, fd, b, n);
            if (m > 0) it->second.off += m;
            return m;
        }
    }
    return syscall(SYS_read, fd, b, n);
}
