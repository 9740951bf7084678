// Runs threads one at a time, as a schedule says: the synchronisation calls of
// the code under test are replaced by ones that give the turn to the next thread.
#ifndef SCHED_CTL_HPP
#define SCHED_CTL_HPP
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <termios.h>
#include <unistd.h>
#include <time.h>
#include <cerrno>
#include <functional>
#include <map>
#include <random>
#include <vector>

namespace ctl {

struct Thread
{
    enum S { Ready, Lock, Sleep, Poll, Cond, Over } st = Ready;
    void* obj = nullptr;      // mutex wanted
    void* cond = nullptr;     // condition slept on
    bool timed = false, timedOut = false;
    std::function<bool()> until;
    long seen = 0;            // the work done when it last looked in vain
    sem_t go;
};

inline thread_local int me = -1;

class Control
{
public:
    static Control& I() { static Control c; return c; }
    std::vector<Thread*> th;
    std::map<void*, int> owner;
    std::vector<int> schedule;
    std::size_t at = 0;
    std::mt19937 rnd;
    int preempt = 100;        // chance in 100 of changing threads where the schedule does not say
    int spurious = 0;         // chance in 100 of a spurious wakeup
    int signals = 0;          // chance in 100 that a call that waits is interrupted by a signal
    std::map<unsigned long, int> made;
    termios tty{};            // of a standard input that is not a terminal
    long steps = 0, limit = 100000;
    long work = 0;            // changes when something may have happened
    int timeouts = 0;
    std::function<void(const char*)> finished; // does not return

    Thread& Me() { return *th[static_cast<std::size_t>(me)]; }
    bool Enabled(std::size_t i)
    {
        auto& t = *th[i];
        switch (t.st)
        {
            case Thread::Ready: return true;
            case Thread::Lock: return owner.find(t.obj) == owner.end();
            case Thread::Poll: return t.seen != work;
            case Thread::Cond: return t.until();
            default: return false;
        }
    }
    int Choose(int self)
    {
        if (++steps > limit) finished("livelock");
        if (spurious && static_cast<int>(rnd() % 100) < spurious)
            for (auto* t : th) if (t->st == Thread::Sleep && rnd() % 2) { t->st = Thread::Lock; break; }
        std::vector<int> en;
        for (std::size_t i = 0; i < th.size(); ++i) if (Enabled(i)) en.push_back(static_cast<int>(i));
        for (std::size_t i = 0; en.empty() && i < th.size() && timeouts < 60; ++i) // time passes
            if (th[i]->st == Thread::Sleep && th[i]->timed) { th[i]->st = Thread::Lock; th[i]->timedOut = true; ++timeouts; if (Enabled(i)) en.push_back(static_cast<int>(i)); }
        if (en.empty())
        {
            bool over = true;
            for (auto* t : th) over = over && t->st == Thread::Over;
            finished(over ? "over" : "stuck");
        }
        int k = -1;
        while (at < schedule.size() && k < 0)
        {
            const int w = schedule[at++];
            for (int e : en) if (e == w) k = e;
        }
        if (k < 0)
        {
            bool mine = false;
            for (int e : en) mine = mine || e == self;
            k = mine && static_cast<int>(rnd() % 100) >= preempt ? self : en[rnd() % en.size()];
        }
        auto& t = *th[static_cast<std::size_t>(k)];
        if (t.st == Thread::Lock) owner[t.obj] = k;
        t.st = Thread::Ready;
        return k;
    }
    // the calling thread has said what it waits for: returns when it has the turn
    void Turn(bool inVain = false)
    {
        if (inVain) { Me().st = Thread::Poll; Me().seen = work; } // again when another thread has done something
        else ++work;
        const int self = me;
        const int k = Choose(self);
        if (k == self) return;
        sem_post(&th[static_cast<std::size_t>(k)]->go);
        if (th[static_cast<std::size_t>(self)]->st != Thread::Over) while (sem_wait(&th[static_cast<std::size_t>(self)]->go) != 0) {}
    }
    void Wake(void* c, bool all)
    {
        std::vector<Thread*> s;
        for (auto* t : th) if (t->st == Thread::Sleep && t->cond == c) s.push_back(t);
        if (s.empty()) return;
        if (!all) s = {s[rnd() % s.size()]};
        for (auto* t : s) t->st = Thread::Lock;
    }
    int Wait(void* c, void* m, bool timed)
    {
        Turn();
        auto& t = Me();
        owner.erase(m);
        t.cond = c; t.obj = m; t.timed = timed; t.timedOut = false;
        t.st = Thread::Sleep;
        Turn();
        return t.timedOut ? ETIMEDOUT : 0;
    }
};

} // namespace ctl

#ifdef CONTROLLED
#define REAL(name) static auto real = reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (ctl::me < 0) { REAL(pthread_mutex_lock); return real(m); }
    auto& c = ctl::Control::I();
    c.Me().st = ctl::Thread::Lock; c.Me().obj = m;
    c.Turn();
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (ctl::me < 0) { REAL(pthread_mutex_trylock); return real(m); }
    auto& c = ctl::Control::I();
    c.Turn();
    if (c.owner.count(m)) return EBUSY;
    c.owner[m] = ctl::me;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (ctl::me < 0) { REAL(pthread_mutex_unlock); return real(m); }
    auto& c = ctl::Control::I();
    c.owner.erase(m);
    c.Turn();
    return 0;
}
int pthread_cond_wait(pthread_cond_t* k, pthread_mutex_t* m)
{
    if (ctl::me < 0) { REAL(pthread_cond_wait); return real(k, m); }
    return ctl::Control::I().Wait(k, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* k, pthread_mutex_t* m, const timespec* ts)
{
    if (ctl::me < 0) { REAL(pthread_cond_timedwait); return real(k, m, ts); }
    return ctl::Control::I().Wait(k, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* k, pthread_mutex_t* m, clockid_t id, const timespec* ts)
{
    if (ctl::me < 0) { REAL(pthread_cond_clockwait); return real(k, m, id, ts); }
    return ctl::Control::I().Wait(k, m, true);
}
int pthread_cond_signal(pthread_cond_t* k)
{
    if (ctl::me < 0) { REAL(pthread_cond_signal); return real(k); }
    ctl::Control::I().Turn();
    ctl::Control::I().Wake(k, false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* k)
{
    if (ctl::me < 0) { REAL(pthread_cond_broadcast); return real(k); }
    ctl::Control::I().Turn();
    ctl::Control::I().Wake(k, true);
    return 0;
}
int sched_yield()
{
    if (ctl::me < 0) { REAL(sched_yield); return real(); }
    auto& c = ctl::Control::I();
    c.Turn(true);
    return 0;
}
int nanosleep(const timespec* a, timespec* b)
{
    if (ctl::me < 0) { REAL(nanosleep); return real(a, b); }
    return sched_yield();
}
int clock_nanosleep(clockid_t id, int fl, const timespec* a, timespec* b)
{
    if (ctl::me < 0) { REAL(clock_nanosleep); return real(id, fl, a, b); }
    return sched_yield();
}
struct CtlStart { void* (*f)(void*); void* arg; int id; };
static void* CtlRun(void* p)
{
    CtlStart s = *static_cast<CtlStart*>(p);
    delete static_cast<CtlStart*>(p);
    auto& c = ctl::Control::I();
    while (sem_wait(&c.th[static_cast<std::size_t>(s.id)]->go) != 0) {}
    ctl::me = s.id;
    void* r = s.f(s.arg);
    c.Me().st = ctl::Thread::Over;
    c.Turn();
    ctl::me = -1;
    return r;
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg)
{
    REAL(pthread_create);
    if (ctl::me < 0) return real(t, a, f, arg);
    auto& c = ctl::Control::I();
    const int id = static_cast<int>(c.th.size());
    c.th.push_back(new ctl::Thread);
    sem_init(&c.th.back()->go, 0, 0);
    const int r = real(t, a, CtlRun, new CtlStart{f, arg, id});
    if (r != 0) { c.th.back()->st = ctl::Thread::Over; return r; }
    c.made[static_cast<unsigned long>(*t)] = id;
    c.Turn();
    return 0;
}
int pthread_join(pthread_t t, void** v)
{
    REAL(pthread_join);
    if (ctl::me < 0) return real(t, v);
    auto& c = ctl::Control::I();
    auto it = c.made.find(static_cast<unsigned long>(t));
    if (it != c.made.end())
    {
        auto* x = c.th[static_cast<std::size_t>(it->second)];
        c.Me().st = ctl::Thread::Cond;
        c.Me().until = [x] { return x->st == ctl::Thread::Over; };
        c.Turn();
    }
    return real(t, v);
}
// waits until ready says so; false if interrupted
static bool CtlWait(const std::function<bool()>& ready, bool forever)
{
    auto& c = ctl::Control::I();
    c.Turn();
    for (;;)
    {
        if (ready() || !forever) return true;
        if (c.signals && static_cast<int>(c.rnd() % 100) < c.signals) { errno = EINTR; return false; }
        c.Turn(true);
    }
}
// a terminal that does not tell what was typed until there is enough of it
static bool CtlHeld(int fd)
{
    if (fd != STDIN_FILENO || isatty(fd)) return false;
    const auto& t = ctl::Control::I().tty;
    if ((t.c_lflag & ICANON) || t.c_cc[VTIME] || t.c_cc[VMIN] <= 1) return false;
    int here = 0;
    if (ioctl(fd, FIONREAD, &here) != 0 || here >= t.c_cc[VMIN]) return false;
    auto* rp = reinterpret_cast<decltype(&poll)>(dlsym(RTLD_NEXT, "poll"));
    pollfd p{fd, POLLIN, 0};
    return rp(&p, 1, 0) != 1 || !(p.revents & POLLHUP);
}
int select(int n, fd_set* r, fd_set* w, fd_set* e, timeval* t)
{
    REAL(select);
    if (ctl::me < 0) return real(n, r, w, e, t);
    const fd_set z{};
    const fd_set r0 = r ? *r : z, w0 = w ? *w : z, e0 = e ? *e : z;
    int k = 0;
    if (!CtlWait([&] { if (r) { *r = r0; if (FD_ISSET(STDIN_FILENO, r) && CtlHeld(STDIN_FILENO)) FD_CLR(STDIN_FILENO, r); } if (w) *w = w0; if (e) *e = e0; timeval none{0, 0}; k = real(n, r, w, e, &none); return k != 0; },
                 t == nullptr)) return -1;
    return k;
}
int poll(pollfd* f, nfds_t n, int timeout)
{
    REAL(poll);
    if (ctl::me < 0) return real(f, n, timeout);
    int k = 0;
    if (!CtlWait([&]
        {
            k = real(f, n, 0);
            for (nfds_t i = 0; i < n; ++i) if ((f[i].revents & POLLIN) && CtlHeld(f[i].fd)) { f[i].revents &= static_cast<short>(~POLLIN); if (!f[i].revents) --k; }
            return k != 0;
        }, timeout < 0)) return -1;
    return k;
}
ssize_t read(int fd, void* b, size_t n)
{
    REAL(read);
    if (ctl::me < 0 || (fcntl(fd, F_GETFL) & O_NONBLOCK)) return real(fd, b, n);
    auto* rp = reinterpret_cast<decltype(&poll)>(dlsym(RTLD_NEXT, "poll"));
    if (!CtlWait([&] { pollfd p{fd, POLLIN, 0}; return rp(&p, 1, 0) != 0 && !CtlHeld(fd); }, true)) return -1;
    return real(fd, b, n);
}
int tcgetattr(int fd, termios* t)
{
    REAL(tcgetattr);
    if (fd != STDIN_FILENO || isatty(fd)) return real(fd, t);
    *t = ctl::Control::I().tty;
    return 0;
}
int tcsetattr(int fd, int how, const termios* t)
{
    REAL(tcsetattr);
    if (fd != STDIN_FILENO || isatty(fd)) return real(fd, how, t);
    ctl::Control::I().tty = *t;
    return 0;
}
int epoll_wait(int fd, epoll_event* ev, int n, int timeout)
{
    REAL(epoll_wait);
    if (ctl::me < 0) return real(fd, ev, n, timeout);
    auto& c = ctl::Control::I();
    c.Turn();
    for (;;)
    {
        const int r = real(fd, ev, n, 0);
        if (r != 0 || timeout == 0) return r;
        c.Turn(true);
    }
}
}
#endif
#endif
