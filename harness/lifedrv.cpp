// An application that makes and destroys the objects of the library with work
// pending, for TraceLife.tla.
// usage: lifedrv STIMULI OUT FIRST SCRATCHDIR
// The threads are controlled: the application is thread 1, keyboards 2, 3, ...
#include <algorithm>
#include <map>
#include <set>
#include <sys/syscall.h>
#include <sys/wait.h>
#ifdef BOOST
#include <cli/boostasioscheduler.h>
#include <cli/boostasioremotecli.h>
#include <cli/boostasiocliasyncsession.h>
using AsioScheduler = cli::BoostAsioScheduler;
using ServerType = cli::BoostAsioCliTelnetServer;
using AsyncType = cli::BoostAsioCliAsyncSession;
#else
#include <cli/standaloneasioscheduler.h>
#include <cli/standaloneasioremotecli.h>
#include <cli/standaloneasiocliasyncsession.h>
using AsioScheduler = cli::StandaloneAsioScheduler;
using ServerType = cli::StandaloneAsioCliTelnetServer;
using AsyncType = cli::StandaloneAsioCliAsyncSession;
#endif
#include <arpa/inet.h>
#include <linux/sockios.h>
#include <netinet/tcp.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <cli/clilocalsession.h>
#include <cli/loopscheduler.h>
#include "world.hpp"
#include "sched_ctl.hpp"

static void Nap(long us) { timespec t{0, us * 1000}; syscall(SYS_nanosleep, &t, nullptr); }
static void E(const std::string& s) { TheLog().Ev("{\"e\":" + s + "}"); }
static int RealPoll(pollfd* p) { static auto f = reinterpret_cast<decltype(&poll)>(dlsym(RTLD_NEXT, "poll")); return f(p, 1, 0); }

struct Guard { explicit Guard(int& n) : n(n) { ++n; } ~Guard() { --n; } int& n; };
static int cmds = 0, fns = 0;

// finds the broadcasts in what is written
struct Tap : std::streambuf
{
    explicit Tap(int c) : c(c) {}
    void Scan(const std::string& s)
    {
        for (char ch : s)
        {
            if (ch == '<') { in = true; tag.clear(); }
            else if (ch == '>') { if (in && tag.size() > 1 && tag[0] == 'B') E("\"got\",\"c\":" + std::to_string(c) + ",\"k\":" + tag.substr(1)); in = false; }
            else if (in) tag += ch;
        }
    }
    std::streamsize xsputn(const char* p, std::streamsize n) override { Scan(std::string(p, static_cast<std::size_t>(n))); return n; }
    int overflow(int x) override { if (x != EOF) Scan(std::string(1, static_cast<char>(x))); return x == EOF ? 0 : x; }
    int c;
    bool in = false;
    std::string tag;
};

struct App
{
    const J& h;
    std::string kind;
    explicit App(const J& h) : h(h), kind(h.str("kind")) {}

    struct Server : ServerType
    {
        template <typename ... A> explicit Server(App& a, A&& ... x) : ServerType(std::forward<A>(x)...), a(a) {}
        std::shared_ptr<cli::detail::Session> CreateSession(cli::detail::asiolib::ip::tcp::socket s) override
        {
            auto r = ServerType::CreateSession(std::move(s));
            a.sessions.push_back(r);
            return r;
        }
        App& a;
    };
    struct Client { int fd = -1; bool shut = false; std::unique_ptr<Tap> tap; };

    std::unique_ptr<cli::Cli> c;
    std::unique_ptr<AsioScheduler::ContextType> ctx;
    std::unique_ptr<AsioScheduler> asio;
    std::unique_ptr<cli::LoopScheduler> loop;
    std::unique_ptr<Server> v;
    std::unique_ptr<cli::CliLocalTerminalSession> L;
    std::unique_ptr<AsyncType> A;
    cli::CmdHandler handle;
    std::vector<std::weak_ptr<cli::detail::Session>> sessions;
    std::map<int, Client> clients;
    int in = -1, port = 0;
    Tap tapL{8}, tapA{9};
    std::ostream outL{&tapL};

    int Live() { return static_cast<int>(std::count_if(sessions.begin(), sessions.end(), [](auto& s) { return !s.expired(); })); }
    cli::Scheduler* Sch() { return asio ? static_cast<cli::Scheduler*>(asio.get()) : loop.get(); }
    bool Ctx() { return asio || loop || ctx; }

    void Flush() { char b[256]; const int f = fcntl(0, F_GETFL); fcntl(0, F_SETFL, f | O_NONBLOCK); while (read(0, b, sizeof b) > 0) {} fcntl(0, F_SETFL, f & ~O_NONBLOCK); }
    void DropL() { if (L) { L.reset(); Flush(); } }
    void DropA() { if (A) { A.reset(); Flush(); std::cout.rdbuf(old); } }
    std::streambuf* old = nullptr;

    void Do(const std::string& m, int k)
    {
        if (m == "v") v.reset();
        else if (m == "l") DropL();
        else if (m == "a") DropA();
        else if (m == "t") Post("p", k);
        else if (m == "r") handle.Remove();
    }
    void Post(const std::string& m, int k)
    {
        auto g = std::make_shared<Guard>(fns);
        Sch()->Post([this, m, k, g] { E("\"fn\",\"m\":\"" + m + "\",\"k\":" + std::to_string(k)); Do(m, k); });
    }
    void MakeCli()
    {
        auto m = std::make_unique<cli::Menu>("m");
        for (std::string n : {"p", "q", "v", "l", "a", "t"})
        {
            auto g = std::make_shared<Guard>(cmds);
            auto h = m->Insert(n, [this, n, g](std::ostream&, int o, int k)
            {
                E("\"run\",\"c\":" + std::to_string(o < 8 ? o : L ? 8 : 9) + ",\"m\":\"" + n + "\",\"k\":" + std::to_string(k));
                Do(n, k);
            });
            if (n == "q") handle = h;
        }
        auto sub = std::make_unique<cli::Menu>("sub");
        auto g = std::make_shared<Guard>(cmds);
        sub->Insert("x", [g](std::ostream&) {});
        m->Insert(std::move(sub));
        c = std::make_unique<cli::Cli>(std::move(m));
        c->EnterAction([](std::ostream&) { E("\"enter\""); });
        c->WrongCommandHandler([](std::ostream&, const std::string&) { E("\"wrong\""); });
    }
    bool Legal(const J& o)
    {
        const auto& k = o["o"].s;
        const bool front = L || A;
        const bool known = o.has("c") && clients.count(static_cast<int>(o.num("c"))) > 0;
        const bool shut = known && clients[static_cast<int>(o.num("c"))].shut;
        if (k == "mkV") return asio && c && !v;
        if (k == "rmV") return !!v;
        if (k == "mkL") return Sch() && c && !front;
        if (k == "mkA") return asio && c && !front;
        if (k == "rmL") return !!L;
        if (k == "rmA") return !!A;
        if (k == "rmS") return Sch() && !v && !front;
        if (k == "rmX") return !Sch() && ctx;
        if (k == "rmC") return c && !v && !front && Live() == 0;
        if (k == "conn") return v && !known;
        if (k == "send" || k == "close") return known && !shut;
        if (k == "type" || k == "post") return Sch() != nullptr;
        if (k == "poll" || k == "settle") return Ctx() && (Sch() || Live() == 0);
        return true;
    }
    std::size_t Poll()
    {
        try
        {
            if (loop) return loop->PollOne() ? 1 : 0;
            auto& x = asio ? asio->AsioContext() : *ctx;
            if (ctx && x.stopped()) x.restart(); // it had nothing to do
            return x.poll_one();
        }
        catch (const std::exception& e) { E(std::string("\"escaped\",\"c\":") + JBytes(e.what())); }
        return 1;
    }
    void Others() // the other threads go on until they wait
    {
        auto& k = ctl::Control::I();
        k.Me().st = ctl::Thread::Cond;
        k.Me().until = [&k] { for (std::size_t i = 1; i < k.th.size(); ++i) if (k.Enabled(i)) return false; return true; };
        k.Turn();
    }
    bool Drain()
    {
        bool any = false;
        for (auto& x : clients)
        {
            char b[4096];
            while (x.second.fd >= 0)
            {
                const auto n = recv(x.second.fd, b, sizeof b, MSG_DONTWAIT);
                if (n > 0) { x.second.tap->Scan(std::string(b, static_cast<std::size_t>(n))); any = true; continue; }
                if (n < 0 && (errno == EAGAIN || errno == EINTR)) break;
                close(x.second.fd);
                x.second.fd = -1;
                if (!x.second.shut) E("\"closed\",\"c\":" + std::to_string(x.first));
                any = true;
            }
        }
        return any;
    }
    bool OnTheWay() { for (auto& x : clients) { int n = 0, one = 1; if (x.second.fd >= 0 && (setsockopt(x.second.fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one), ioctl(x.second.fd, SIOCOUTQ, &n) == 0) && n > 0) return true; } return false; }
    void Settle()
    {
        for (int idle = 0, i = 0; idle < 4 && i < 4000; ++i)
        {
            const bool any = Poll() > 0;
            Others();
            if (Drain() || any) { idle = 0; continue; }
            ++idle;
            if (OnTheWay() && i < 200) idle = 0;
            if (idle) Nap(idle == 3 ? 400 : 60);
        }
    }
    void Type(int fd, int owner, const std::string& m, int k)
    {
        const std::string s = (m == "exit" ? m : m + " " + std::to_string(owner) + " " + std::to_string(k)) + (owner < 8 ? "\r\n" : "\n");
        if (owner < 8) send(fd, s.data(), s.size(), MSG_NOSIGNAL); else { auto u = write(fd, s.data(), s.size()); static_cast<void>(u); }
    }
    void Op(const J& o, int k)
    {
        const auto& n = o["o"].s;
        const int id = static_cast<int>(o.num("c"));
        if (n == "mkV")
        {
            // the port is found through the descriptors the server opens
            std::set<int> b = Fds();
            v = std::make_unique<Server>(*this, *c, *asio, static_cast<unsigned short>(0));
            v->ExitAction([](std::ostream&) { E("\"exit\""); });
            for (int f : Fds())
            {
                sockaddr_in a{};
                socklen_t l = sizeof a;
                int yes = 0;
                socklen_t yl = sizeof yes;
                if (!b.count(f) && getsockopt(f, SOL_SOCKET, SO_ACCEPTCONN, &yes, &yl) == 0 && yes && getsockname(f, reinterpret_cast<sockaddr*>(&a), &l) == 0) port = a.sin_port;
            }
        }
        else if (n == "rmV") v.reset();
        else if (n == "mkL") L = std::make_unique<cli::CliLocalTerminalSession>(*c, *Sch(), outL);
        else if (n == "mkA") { old = std::cout.rdbuf(&tapA); A = std::make_unique<AsyncType>(*asio, *c); }
        else if (n == "rmL") DropL();
        else if (n == "rmA") DropA();
        else if (n == "rmS") { asio.reset(); loop.reset(); }
        else if (n == "rmX") ctx.reset();
        else if (n == "rmC") c.reset();
        else if (n == "conn")
        {
            auto& x = clients[id];
            x.tap = std::make_unique<Tap>(id);
            x.fd = socket(AF_INET, SOCK_STREAM, 0);
            int one = 1;
            setsockopt(x.fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
            sockaddr_in a{};
            a.sin_family = AF_INET;
            a.sin_port = static_cast<in_port_t>(port);
            a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            if (connect(x.fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) E("\"refused\"");
        }
        else if (n == "send") Type(clients[id].fd, id, o.str("m"), k);
        else if (n == "close")
        {
            auto& x = clients[id];
            x.shut = true;
            if (x.fd >= 0)
            {
                if (o.num("how") == 1) { linger l{1, 0}; setsockopt(x.fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
                close(x.fd);
                x.fd = -1;
            }
        }
        else if (n == "type") Type(in, 8, o.str("m"), k);
        else if (n == "post") Post(o.str("m"), k);
        else if (n == "handle") { const auto& m = o.str("m"); if (m == "en") handle.Enable(); else if (m == "dis") handle.Disable(); else handle.Remove(); }
        else if (n == "bcast") cli::Cli::cout() << "<B" + std::to_string(k) + ">" << std::flush;
        else if (n == "poll") { if (h.num("seed") % 2) Others(); Poll(); }
        else if (n == "settle") Settle();
        if (n != "settle") Drain();
    }
    static std::set<int> Fds()
    {
        std::set<int> r;
        for (int i = 0; i < 200; ++i) if (fcntl(i, F_GETFD) >= 0) r.insert(i);
        return r;
    }
    void Play()
    {
        MakeCli();
        if (kind == "loop") loop = std::make_unique<cli::LoopScheduler>();
        else if (kind == "own") asio = std::make_unique<AsioScheduler>();
        else { ctx = std::make_unique<AsioScheduler::ContextType>(); asio = std::make_unique<AsioScheduler>(*ctx); }
        int k = 0;
        for (auto& o : h["main"].a)
        {
            ++k;
            if (!Legal(o)) { E("\"skip\""); continue; }
            std::string e = "\"op\",\"k\":" + std::to_string(k);
            for (auto f : {"o", "m"}) if (o.has(f)) e += std::string(",\"") + f + "\":\"" + o[f].s + "\"";
            for (auto f : {"c", "how"}) if (o.has(f)) e += std::string(",\"") + f + "\":" + std::to_string(o.num(f));
            E(e);
            Op(o, k);
            E("\"ret\",\"ses\":" + std::to_string(Live()) + ",\"fns\":" + std::to_string(fns) + ",\"cmds\":" + std::to_string(cmds));
        }
    }
};

static void Emit(int out)
{
    const std::string r = TheLog().Take() + "\n";
    std::size_t n = 0;
    while (n < r.size()) { const auto k = write(out, r.data() + n, r.size() - n); if (k <= 0) break; n += static_cast<std::size_t>(k); }
    _exit(0);
}

static void Play(const J& h, int fd)
{
    auto& k = ctl::Control::I();
    for (auto& x : h["sched"].a) k.schedule.push_back(static_cast<int>(x.i) - 1);
    k.rnd.seed(static_cast<unsigned>(h.num("seed", 1)));
    k.preempt = static_cast<int>(h.num("preempt", 100));
    k.tty.c_lflag = ICANON | ISIG | ECHO;
    k.finished = [fd](const char* w) { if (std::string(w) != "over") E(std::string("\"") + w + "\""); ctl::me = -1; Emit(fd); };
    int p[2];
    if (pipe(p) != 0) _exit(3);
    dup2(p[0], STDIN_FILENO);
    close(p[0]);
    k.th.push_back(new ctl::Thread);
    sem_init(&k.th.back()->go, 0, 0);
    ctl::me = 0;
    auto* a = new App(h); // what the stimulus leaves alive is not destroyed
    a->in = p[1];
    a->Play();
    ctl::me = -1;
    Emit(fd);
}

int main(int argc, char** argv)
{
    if (argc < 5) return 2;
    std::ifstream in(argv[1]);
    const long first = std::atol(argv[3]);
    std::string line;
    int hangs = 0;
    for (long i = 0; std::getline(in, line); ++i)
    {
        if (i < first) continue;
        std::string res = line.substr(0, line.size() - 1);
        if (hangs >= 4) res += ",\"skipped\":1}";
        else
        {
            JParser p(line);
            J h = p.Parse();
            int fds[2], err[2];
            if (pipe(fds) != 0 || pipe(err) != 0) return 2;
            const pid_t pid = fork();
            if (pid == 0)
            {
                close(fds[0]);
                dup2(err[1], 2);
                alarm(20);
                Play(h, fds[1]);
            }
            close(fds[1]);
            close(err[1]);
            std::string obs, msg;
            char buf[65536];
            for (;;) { const auto n = read(fds[0], buf, sizeof buf); if (n > 0) obs.append(buf, static_cast<std::size_t>(n)); else break; }
            for (;;) { const auto n = read(err[0], buf, sizeof buf); if (n > 0) msg.append(buf, static_cast<std::size_t>(n)); else break; }
            close(fds[0]);
            close(err[0]);
            int st = 0;
            waitpid(pid, &st, 0);
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) ++hangs;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !obs.empty()) { obs.pop_back(); res += ",\"obs\":" + obs + "}"; }
            else
            {
                const auto at = msg.find("ERROR: AddressSanitizer");
                std::string m = at == std::string::npos ? std::string() : msg.substr(at, msg.find('\n', at) - at);
                res += ",\"obs\":[],\"crash\":\"" + (WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? std::string("hang") : "signal " + std::to_string(WTERMSIG(st))) : "exit " + std::to_string(WEXITSTATUS(st)) + " " + m) + "\"}";
            }
        }
        std::ofstream o(argv[2], std::ios::app);
        o << res << '\n' << std::flush;
    }
    return 0;
}
