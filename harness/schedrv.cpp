// Threads that post to, run and stop a scheduler, for TraceSched.tla.
// usage: schedrv STIMULI OUT FIRST SCRATCHDIR
// With CONTROLLED the threads run one at a time, as the schedule of the
// stimulus says; otherwise they run freely.
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <memory>
#include <thread>
#include <sys/wait.h>
#include <unistd.h>
#include <cli/loopscheduler.h>
#if defined(BOOST)
#include <cli/boostasioscheduler.h>
using AsioSched = cli::BoostAsioScheduler;
#else
#include <cli/standaloneasioscheduler.h>
using AsioSched = cli::StandaloneAsioScheduler;
#endif
#include "mj.hpp"
#include "sched_ctl.hpp"

struct Thrown { int x; };

struct Event { long n; std::string s; };

class Bench
{
public:
    explicit Bench(const J& h) : h(h), logs(h["threads"].size() + 1), tnum(h["threads"].size()) {}

    void Log(int t, const std::string& s)
    {
        logs[static_cast<std::size_t>(t)].push_back({seq.fetch_add(1, std::memory_order_relaxed), "{\"t\":" + std::to_string(t) + ",\"e\":" + s + "}"});
    }
    std::string Obs()
    {
        std::vector<Event> all;
        for (auto& l : logs) all.insert(all.end(), l.begin(), l.end());
        std::sort(all.begin(), all.end(), [](const Event& a, const Event& b) { return a.n < b.n; });
        std::string r = "[";
        for (std::size_t i = 0; i < all.size(); ++i) r += (i ? "," : "") + all[i].s;
        return r + "]";
    }

    template <typename S> void Ops(S& s, const J& ops, int t)
    {
        for (auto& o : ops.a)
        {
            const auto& k = o["o"].s;
            if (k == "await") { Await(static_cast<int>(o["n"].i), t); Log(t, "\"await\""); continue; }
            if (k == "throw") throw Thrown{static_cast<int>(o["x"].i)};
            Log(t, "\"call\",\"o\":\"" + k + "\"");
            int r = 1, x = 0;
            try
            {
                if (k == "post") { const int f = static_cast<int>(o["f"].i); s.Post([this, &s, f] { Fn(s, f); }); }
                else if (k == "run") s.Run();
                else if (k == "exec") r = Val([&] { return s.ExecOne(); });
                else if (k == "poll") r = Val([&] { return s.PollOne(); });
                else if (k == "stop") s.Stop();
                else if (k == "stopped") r = s.Stopped() ? 1 : 0;
            }
            catch (const Thrown& e) { r = -1; x = e.x; }
            catch (...) { r = -1; x = -2; }
            Log(t, "\"ret\",\"o\":\"" + k + "\",\"r\":" + std::to_string(r) + ",\"x\":" + std::to_string(x));
        }
    }
    template <typename F> auto Val(F f) -> std::enable_if_t<std::is_same<decltype(f()), bool>::value, int> { return f() ? 1 : 0; }
    template <typename F> auto Val(F f) -> std::enable_if_t<std::is_same<decltype(f()), void>::value, int> { f(); return 1; }

    template <typename S> void Fn(S& s, int f)
    {
        const int t = self;
        Log(t, "\"start\",\"f\":" + std::to_string(f));
        Yield();
        try { Ops(s, h["fns"][static_cast<std::size_t>(f - 1)], t); }
        catch (...) { Log(t, "\"thrown\",\"f\":" + std::to_string(f)); ended.fetch_add(1, std::memory_order_relaxed); throw; }
        Log(t, "\"end\",\"f\":" + std::to_string(f));
        ended.fetch_add(1, std::memory_order_relaxed);
        Yield();
    }

#ifdef CONTROLLED
    void Yield() { if (ctl::me >= 0) ctl::Control::I().Turn(); }
    void Await(int n, int)
    {
        auto& c = ctl::Control::I();
        c.Me().st = ctl::Thread::Cond;
        c.Me().until = [this, n] { return ended.load() >= n; };
        c.Turn();
    }
#else
    void Yield() { if (h.num("jitter")) { if ((seq.load(std::memory_order_relaxed) * 7919) % 5 == 0) std::this_thread::yield(); } }
    void Await(int n, int t)
    {
        const auto until = std::chrono::steady_clock::now() + std::chrono::seconds(8);
        while (ended.load(std::memory_order_relaxed) < n)
        {
            std::this_thread::sleep_for(std::chrono::microseconds(50));
            if (std::chrono::steady_clock::now() > until) { Log(t, "\"stuck\""); Emit(); }
        }
    }
#endif

    // the observations are written by the child itself
    void Emit()
    {
        static std::atomic<bool> once{false};
        if (once.exchange(true)) for (;;) pause();
        const std::string r = Obs() + "\n";
        std::size_t done = 0;
        while (done < r.size()) { const auto n = write(fd, r.data() + done, r.size() - done); if (n <= 0) break; done += static_cast<std::size_t>(n); }
        _exit(0);
    }

    template <typename S> void Run(S& s)
    {
        std::vector<std::thread> th;
#ifdef CONTROLLED
        auto& c = ctl::Control::I();
        for (auto& x : h["sched"].a) c.schedule.push_back(static_cast<int>(x.i) - 1);
        c.rnd.seed(static_cast<unsigned>(h.num("seed", 1)));
        c.preempt = static_cast<int>(h.num("preempt", 100));
        c.spurious = static_cast<int>(h.num("spurious", 0));
        c.finished = [this](const char* w)
        {
            if (std::string(w) == "stuck") Log(0, "\"stuck\"");
            if (std::string(w) == "livelock") Log(0, "\"livelock\"");
            ctl::me = -1;
            Emit();
        };
        for (std::size_t i = 0; i < tnum; ++i) { c.th.push_back(new ctl::Thread); sem_init(&c.th.back()->go, 0, 0); }
#endif
        std::atomic<int> ready{0};
        for (std::size_t i = 0; i < tnum; ++i)
            th.emplace_back([this, &s, i, &ready]
            {
                self = static_cast<int>(i) + 1;
#ifdef CONTROLLED
                ++ready;
                auto& c = ctl::Control::I();
                while (sem_wait(&c.th[i]->go) != 0) {}
                ctl::me = static_cast<int>(i);
                Ops(s, h["threads"][i], self);
                c.Me().st = ctl::Thread::Over;
                c.Turn();
                ctl::me = -1;
#else
                ++ready;
                while (ready.load() < static_cast<int>(tnum)) {}
                Ops(s, h["threads"][i], self);
#endif
            });
#ifdef CONTROLLED
        while (ready.load() < static_cast<int>(tnum)) usleep(20);
        sem_post(&c.th[static_cast<std::size_t>(c.Choose(-1))]->go);
        for (;;) pause();
#else
        for (auto& t : th) t.join();
        Emit();
#endif
    }
    int fd = -1;
private:
    const J& h;
    std::vector<std::vector<Event>> logs;
    std::size_t tnum;
    std::atomic<long> seq{0};
    std::atomic<int> ended{0};
    static thread_local int self;
};
thread_local int Bench::self = 0;

static void Child(const J& h, int fd)
{
    alarm(20);
    Bench b(h);
    b.fd = fd;
    const auto& k = h["kind"].s;
    if (k == "loop") { cli::LoopScheduler s; b.Run(s); }
    else if (k == "asioext")
    {
        AsioSched own;
        AsioSched s(own.AsioContext());
        b.Run(s);
    }
    else { AsioSched s; b.Run(s); }
    _exit(0);
}

int main(int argc, char** argv)
{
    if (argc < 5) return 2;
    std::ifstream in(argv[1]);
    const long first = std::atol(argv[3]);
    std::string line;
    int hangs = 0;
    for (long i = 0; std::getline(in, line); ++i)
    {
        if (i < first) continue;
        if (hangs >= 4) // no time for more of the same
        {
            std::ofstream o(argv[2], std::ios::app);
            o << line.substr(0, line.size() - 1) << ",\"skipped\":1}\n" << std::flush;
            continue;
        }
        JParser p(line);
        J h = p.Parse();
        int fds[2];
        if (pipe(fds) != 0) return 2;
        const pid_t pid = fork();
        if (pid == 0) { close(fds[0]); Child(h, fds[1]); }
        close(fds[1]);
        std::string obs;
        char buf[65536];
        for (;;) { const auto n = read(fds[0], buf, sizeof buf); if (n > 0) obs.append(buf, static_cast<std::size_t>(n)); else break; }
        close(fds[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        if ((WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) || obs.find("\"stuck\"") != std::string::npos && h.num("real")) ++hangs;
        std::string out = line.substr(0, line.size() - 1) + ",\"steps\":[],\"obs\":";
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !obs.empty()) { obs.pop_back(); out += obs + "}"; }
        else out += "[],\"crash\":\"" + (WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? std::string("hang") : "signal " + std::to_string(WTERMSIG(st))) : "exit " + std::to_string(WEXITSTATUS(st))) + "\"}";
        std::ofstream o(argv[2], std::ios::app);
        o << out << '\n' << std::flush;
    }
    return 0;
}
