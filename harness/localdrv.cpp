// A local terminal session on a terminal that somebody types on, for
// TraceLocal.tla.
// usage: localdrv STIMULI OUT FIRST SCRATCHDIR
// With CONTROLLED the threads (1: the one of the scheduler, 2: the typist, 3, 4,
// ...: those the library makes) run one at a time, as the schedule says, and the
// standard input is a pipe; otherwise they run freely on a pseudo terminal.
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstring>
#include <mutex>
#include <thread>
#include <dirent.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <cli/clilocalsession.h>
#include <cli/loopscheduler.h>
#include <cli/standaloneasioscheduler.h>
#include "driver.hpp"
#include "sched_ctl.hpp"

static int ptyMaster = -1;
static int Raw()
{
    termios t{};
    if (tcgetattr(STDIN_FILENO, &t) != 0) return -1;
    const bool c = t.c_lflag & ICANON, e = t.c_lflag & ECHO;
    return !c && !e ? 1 : 0;
}

static termios before{}; // of the terminal before the session
static std::string Mode()
{
    termios t{};
    tcgetattr(STDIN_FILENO, &t);
    const bool same = t.c_lflag == before.c_lflag && t.c_iflag == before.c_iflag && t.c_oflag == before.c_oflag && t.c_cflag == before.c_cflag && std::memcmp(t.c_cc, before.c_cc, sizeof t.c_cc) == 0;
    return "\"raw\":" + std::to_string(Raw()) + ",\"same\":" + std::to_string(same ? 1 : 0);
}

// a scheduler that tells when it runs a function
template <typename S> struct Telling : S
{
    void Post(const std::function<void()>& f) override
    {
        S::Post([this, f] { TheLog().Ev("{\"e\":\"key\"}"); f(); ++done; TheLog().Ev("{\"e\":\"done\"," + Mode() + "}"); });
    }
    std::atomic<int> done{0};
};

class LocalDriver : public Driver
{
public:
    using Driver::Driver;

    void Play(const J& h, int fd)
    {
        header = &h;
        out = fd;
        if (h.num("color")) cli::SetColor(); else cli::SetNoColor();
        Start();
        TheLog().Take();
        if (h.str("kind") == "loop") { auto s = std::make_unique<Telling<cli::LoopScheduler>>(); Run(*s); }
        else { auto s = std::make_unique<Telling<cli::StandaloneAsioScheduler>>(); Run(*s); }
    }

private:
    static void E(const std::string& s) { TheLog().Ev("{\"e\":" + s + "}"); }

    void Effect(std::ostream&, const J& e) override
    {
        const auto& t = e["t"].s;
        if (t == "feed") local->Feed(e.bytes("b"));
        else if (t == "exit") local->Exit();
        else if (t == "tty") // "start", "end"
        {
            E("\"tty\",\"k\":\"" + e.str("k") + "\"," + Mode());
            if (e.str("k") == "start") ++starts;
            Yield();
        }
        else if (t == "got") // a line from the terminal
        {
            std::string l;
            E("\"wants\"");
            ++wants;
            for (;;)
            {
                char c = 0;
                const auto n = read(STDIN_FILENO, &c, 1);
                if (n < 0 && errno == EINTR) continue;
                if (n != 1) break;
                l += c;
                if (c == '\n') break;
            }
            E("\"got\",\"b\":" + JBytes(l));
        }
    }
    template <typename S> void Main(S& s)
    {
        for (auto& o : (*header)["main"].a)
        {
            const auto& k = o["o"].s;
            if (k == "create")
            {
                ++sid;
                exited = false;
                tcgetattr(STDIN_FILENO, &before);
                E("\"create\",\"c\":" + std::to_string(sid));
                local = std::make_unique<cli::CliLocalTerminalSession>(*c, s, Stream(sid), static_cast<std::size_t>(header->num("hmax", 100)));
                E("\"created\"," + Mode());
                local->ExitAction([this](std::ostream& o) { exited = true; Action("exit", "SX", o); });
            }
            else if (k == "exec") { E("\"exec\""); s.ExecOne(); E("\"ret\""); }
            else if (k == "poll") { E("\"poll\""); s.PollOne(); E("\"ret\""); }
            else if (k == "runexit") while (!exited) { E("\"exec\""); s.ExecOne(); E("\"ret\""); }
            else if (k == "mode")
            {   // the program changes the mode of the terminal
                const auto n = o["n"].i;
                termios t{};
                tcgetattr(STDIN_FILENO, &t);
                auto flag = [](tcflag_t& f, tcflag_t b, bool on) { f = on ? f | b : f & ~b; };
                flag(t.c_lflag, ECHO, n & 1);
                flag(t.c_lflag, ECHOK, n & 2);
                t.c_cc[VTIME] = n & 4 ? 3 : 0;
                t.c_cc[VMIN] = n & 8 ? 3 : 1;
                tcsetattr(STDIN_FILENO, TCSANOW, &t);
                E("\"mode\"");
            }
            else if (k == "bcast")
            {
                E("\"bcast\",\"b\":" + JBytes(o.bytes("b")));
                cli::Cli::cout() << o.bytes("b") << std::flush;
                E("\"bcasted\"");
            }
            else if (k == "idle") Wait([&]() -> bool { return typed; }, "typist");
            else if (k == "destroy")
            {
                E("\"destroy\"");
                local.reset();
                E("\"destroyed\"," + Mode());
            }
        }
        over = true;
    }
    template <typename S> void Typist(S& s)
    {
        for (auto& o : (*header)["typist"].a)
        {
            const auto& k = o["o"].s;
            if (k == "type")
            {
                const auto b = o.bytes("b");
                E("\"typed\",\"b\":" + JBytes(b));
                auto unused = write(in, b.data(), b.size());
                static_cast<void>(unused);
                Yield();
            }
            else if (k == "keep") for (typed = true; !over;) // so that nobody waits forever
            {
                E("\"typed\",\"b\":[10]");
                auto unused = write(in, "\n", 1);
                static_cast<void>(unused);
                std::this_thread::sleep_for(std::chrono::milliseconds(15));
            }
            else if (k == "eof") { E(ptyMaster >= 0 ? "\"hup\"" : "\"eof\""); close(in); in = -1; Yield(); }
            else if (k == "starts") Wait([&, n = o["n"].i] { return starts >= n || over; }, "starts");
            else if (k == "wants") Wait([&, n = o["n"].i] { return wants >= n || over; }, "wants");
            else if (k == "done") Wait([&, n = o["n"].i] { return s.done >= n || over; }, "done");
            else if (k == "sleep") { if (ptyMaster >= 0) std::this_thread::sleep_for(std::chrono::microseconds(o["n"].i)); else Yield(); }
            else if (k == "signal" && ptyMaster >= 0)
            {   // to every thread
                DIR* d = opendir("/proc/self/task");
                while (auto* e = readdir(d)) { const int t = std::atoi(e->d_name); if (t > 0 && t != syscall(SYS_gettid)) syscall(SYS_tgkill, getpid(), t, SIGUSR1); }
                closedir(d);
            }
        }
        typed = true;
    }
#ifdef CONTROLLED
    void Yield() { if (ctl::me >= 0) ctl::Control::I().Turn(); }
    void Wait(std::function<bool()> f, const char*)
    {
        auto& k = ctl::Control::I();
        k.Me().st = ctl::Thread::Cond;
        k.Me().until = std::move(f);
        k.Turn();
    }
#else
    void Yield() {}
    void Wait(const std::function<bool()>& f, const char*)
    {
        const auto until = std::chrono::steady_clock::now() + std::chrono::seconds(8);
        while (!f())
        {
            std::this_thread::sleep_for(std::chrono::microseconds(30));
            if (std::chrono::steady_clock::now() > until) { E("\"stuck\""); Emit(); }
        }
    }
#endif
    void Emit()
    {
        static std::atomic<bool> once{false};
        if (once.exchange(true)) for (;;) pause();
        const std::string r = TheLog().Take() + "\n";
        std::size_t n = 0;
        while (n < r.size()) { const auto k = write(out, r.data() + n, r.size() - n); if (k <= 0) break; n += static_cast<std::size_t>(k); }
        _exit(0);
    }
    template <typename S> void Run(S& s)
    {
        const auto& h = *header;
#ifdef CONTROLLED
        auto& k = ctl::Control::I();
        for (auto& x : h["sched"].a) k.schedule.push_back(static_cast<int>(x.i) - 1);
        k.rnd.seed(static_cast<unsigned>(h.num("seed", 1)));
        k.preempt = static_cast<int>(h.num("preempt", 100));
        k.signals = static_cast<int>(h.num("signals", 0));
        k.spurious = static_cast<int>(h.num("spurious", 0));
        k.tty.c_lflag = ICANON | ISIG | (h.num("noecho") ? 0 : ECHO);
        k.finished = [this](const char* w)
        {
            if (std::string(w) != "over") E(std::string("\"") + w + "\"");
            ctl::me = -1;
            Emit();
        };
        int p[2];
        if (pipe(p) != 0) _exit(3);
        dup2(p[0], STDIN_FILENO);
        close(p[0]);
        in = p[1];
        for (int i = 0; i < 2; ++i) { k.th.push_back(new ctl::Thread); sem_init(&k.th.back()->go, 0, 0); }
        auto body = [&](int id, std::function<void()> f)
        {
            while (sem_wait(&k.th[static_cast<std::size_t>(id)]->go) != 0) {}
            ctl::me = id;
            f();
            k.Me().st = ctl::Thread::Over;
            k.Turn();
            ctl::me = -1;
            for (;;) pause();
        };
        std::thread a([&] { body(0, [&] { Main(s); }); }), b([&] { body(1, [&] { Typist(s); }); });
        sem_post(&k.th[static_cast<std::size_t>(k.Choose(-1))]->go);
        for (;;) pause();
#else
        in = ptyMaster = posix_openpt(O_RDWR | O_NOCTTY);
        grantpt(in);
        unlockpt(in);
        const int sl = open(ptsname(in), O_RDWR | O_NOCTTY);
        if (sl < 0) _exit(3);
        termios t{};
        tcgetattr(sl, &t);
        if (h.num("noecho")) t.c_lflag &= ~static_cast<tcflag_t>(ECHO);
        tcsetattr(sl, TCSANOW, &t);
        dup2(sl, STDIN_FILENO);
        close(sl);
        struct sigaction sa{};
        sa.sa_handler = [](int) {};
        sigaction(SIGUSR1, &sa, nullptr);
        signal(SIGHUP, SIG_IGN);
        std::thread b([&] { Typist(s); });
        Main(s);
        b.join();
        Emit();
#endif
    }
    std::unique_ptr<cli::CliLocalTerminalSession> local;
    int sid = 0, in = -1, out = -1;
    std::atomic<int> starts{0}, wants{0};
    std::atomic<bool> typed{false}, exited{false}, over{false};
};

int main(int argc, char** argv)
{
    if (argc < 5) return 2;
    std::ifstream in(argv[1]);
    const long first = std::atol(argv[3]);
    std::string line;
    int hangs = 0;
    for (long i = 0; std::getline(in, line); ++i)
    {
        if (i < first) continue;
        std::string res = line.substr(0, line.size() - 1);
        if (hangs >= 4) res += ",\"skipped\":1}";
        else
        {
            JParser p(line);
            J h = p.Parse();
            int fds[2];
            if (pipe(fds) != 0) return 2;
            const pid_t pid = fork();
            if (pid == 0)
            {
                close(fds[0]);
                alarm(20);
                auto* d = new LocalDriver(argv[4]);
                d->Play(h, fds[1]);
                _exit(0);
            }
            close(fds[1]);
            std::string obs;
            char buf[65536];
            for (;;) { const auto n = read(fds[0], buf, sizeof buf); if (n > 0) obs.append(buf, static_cast<std::size_t>(n)); else break; }
            close(fds[0]);
            int st = 0;
            waitpid(pid, &st, 0);
            if ((WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) || (obs.find("\"stuck\"") != std::string::npos && h.num("real"))) ++hangs;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !obs.empty()) { obs.pop_back(); res += ",\"steps\":[],\"obs\":" + obs + "}"; }
            else res += ",\"steps\":[],\"obs\":[],\"crash\":\"" + (WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? std::string("hang") : "signal " + std::to_string(WTERMSIG(st))) : "exit " + std::to_string(WEXITSTATUS(st))) + "\"}";
        }
        std::ofstream o(argv[2], std::ios::app);
        o << res << '\n' << std::flush;
    }
    return 0;
}
