// A telnet server driven by real connections over the loopback, and
// asynchronous sessions over a pipe, for TraceRemote.tla.
// usage: netdrv STIMULI OUT FIRST SCRATCHDIR
#include <atomic>
#include <mutex>
#include <thread>
#ifdef BOOST
#include <cli/boostasioscheduler.h>
#include <cli/boostasioremotecli.h>
#include <cli/boostasiocliasyncsession.h>
using SchedulerType = cli::BoostAsioScheduler;
using ServerType = cli::BoostAsioCliTelnetServer;
using AsyncType = cli::BoostAsioCliAsyncSession;
#else
#include <cli/standaloneasioscheduler.h>
#include <cli/standaloneasioremotecli.h>
#include <cli/standaloneasiocliasyncsession.h>
using SchedulerType = cli::StandaloneAsioScheduler;
using ServerType = cli::StandaloneAsioCliTelnetServer;
using AsyncType = cli::StandaloneAsioCliAsyncSession;
#endif
#include <arpa/inet.h>
#include <dirent.h>
#include <fcntl.h>
#include <linux/sockios.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include "driver.hpp"

namespace {

std::vector<int> OpenFds()
{
    std::vector<int> r;
    DIR* d = opendir("/proc/self/fd");
    while (auto* e = readdir(d)) { int f = std::atoi(e->d_name); if (f != dirfd(d) && e->d_name[0] != '.') r.push_back(f); }
    closedir(d);
    return r;
}
int PortOf(int fd, bool peer)
{
    sockaddr_in a{};
    socklen_t n = sizeof a;
    if ((peer ? getpeername(fd, reinterpret_cast<sockaddr*>(&a), &n) : getsockname(fd, reinterpret_cast<sockaddr*>(&a), &n)) != 0) return -1;
    return a.sin_family == AF_INET ? ntohs(a.sin_port) : -1;
}
bool Ready(int fd)
{
    pollfd p{fd, POLLIN | POLLRDHUP, 0};
    return ::poll(&p, 1, 0) > 0 && p.revents != 0;
}
// what fd sent and its peer has not got yet
void AckNow(int fd) { int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one); }
int OutQ(int fd) { int n = 0; return ioctl(fd, SIOCOUTQ, &n) == 0 ? n : 0; }

struct Client
{
    int fd = -1;
    int port = -1;    // of the client
    int sfd = -1;     // the server's end
    std::weak_ptr<cli::detail::Session> session;
    std::string rx;
    bool eof = false;
    bool gone = false; // closed by the client
};

} // namespace

class NetDriver : public Driver
{
public:
    using Driver::Driver;

    class Server : public ServerType
    {
    public:
        template <typename ... A> explicit Server(NetDriver& d, A&& ... a) : ServerType(std::forward<A>(a)...), d(d) {}
        std::shared_ptr<cli::detail::Session> CreateSession(cli::detail::asiolib::ip::tcp::socket s) override
        {
            auto r = ServerType::CreateSession(std::move(s));
            if (d.connecting > 0)
            {
                d.clients[d.connecting].session = r;
                d.w->streamIds[r.get()] = d.connecting;
            }
            return r;
        }
    private:
        NetDriver& d;
    };

private:
    void Start() override
    {
        Driver::Start();
        const auto& h = *header;
        if (h.num("color")) cli::SetColor(); else cli::SetNoColor();
        sched = std::make_unique<SchedulerType>();
        const auto hmax = static_cast<std::size_t>(h.num("hmax", 100));
        const auto before = OpenFds();
        if (h.num("addr")) server = std::make_unique<Server>(*this, *c, *sched, std::string("127.0.0.1"), static_cast<unsigned short>(0), hmax);
        else if (hmax == 100) server = std::make_unique<Server>(*this, *c, *sched, static_cast<unsigned short>(0));
        else server = std::make_unique<Server>(*this, *c, *sched, static_cast<unsigned short>(0), hmax);
        lfd = -1;
        for (int f : OpenFds())
        {
            int yes = 0;
            socklen_t n = sizeof yes;
            if (getsockopt(f, SOL_SOCKET, SO_ACCEPTCONN, &yes, &n) == 0 && yes) lfd = f;
        }
        lport = PortOf(lfd, false);
        if (h.num("senter")) server->EnterAction([this](std::ostream& o) { Action("enter", "SE", o); });
        if (h.num("sexit")) server->ExitAction([this](std::ostream& o) { Action("exit", "SX", o); });
        if (h.num("big")) { stopReader = false; reader = std::thread([this] { while (!stopReader) { Drain(); usleep(200); } }); }
    }
    void Finish() override
    {
        if (reader.joinable()) { stopReader = true; reader.join(); }
        for (auto& x : clients) if (x.second.fd >= 0) close(x.second.fd);
        for (auto& x : clients) { x.second.fd = -1; x.second.gone = true; }
        Pump();
        server.reset();
        Pump();
        sess.clear();
        sched.reset();
        clients.clear();
        for (auto& a : asyncs) { for (int f : {a.second.in, a.second.out}) if (f >= 0) close(f); if (a.second.old) std::cout.rdbuf(a.second.old); }
        asyncs.clear();
        connecting = 0;
        Driver::Finish();
    }

    // ---- what clients receive
    void Drain()
    {
        std::lock_guard<std::mutex> lock(mtx);
        for (auto& x : clients)
        {
            auto& k = x.second;
            while (k.fd >= 0 && !k.eof)
            {
                char buf[65536];
                const auto n = recv(k.fd, buf, sizeof buf, MSG_DONTWAIT);
                if (n > 0) k.rx.append(buf, static_cast<std::size_t>(n));
                else if (n == 0) k.eof = true;
                else if (errno == EAGAIN || errno == EINTR) break;
                else k.eof = true;
            }
        }
    }
    bool Pending()
    {
        if (server && Ready(lfd)) return true;
        for (auto& x : clients)
        {
            auto& k = x.second;
            const bool alive = !k.session.expired();
            if (k.gone) { if (alive) return true; continue; }
            if (k.fd < 0) continue;
            if (k.eof) { if (alive) return true; continue; }
            if (!alive) { return true; } // waiting for the end of the connection
            const bool there = k.sfd >= 0 && PortOf(k.sfd, true) == k.port;
            AckNow(k.fd);
            if (there) AckNow(k.sfd);
            if (OutQ(k.fd) > 0) return true;
            if (there && (Ready(k.sfd) || OutQ(k.sfd) > 0)) return true;
        }
        for (auto& a : asyncs) if (a.second.in >= 0 && a.second.live && Ready(a.second.in)) return true;
        return false;
    }
    std::size_t Poll()
    {
        try { return sched->AsioContext().poll(); }
        catch (const std::exception& e) { TheLog().Ev("{\"e\":\"escaped\",\"c\":" + JBytes(e.what()) + "}"); }
        catch (...) { TheLog().Ev("{\"e\":\"escaped\",\"c\":[]}"); }
        return 1;
    }
    void Pump()
    {
        int waits = 0, idle = 0;
        for (long i = 0; i < 1000000; ++i)
        {
            const auto n = Poll();
            Drain();
            if (n > 0) { idle = 0; continue; }
            if (!Pending()) { if (++idle == 2) return; continue; }
            idle = 0;
            if (++waits > 400 + (stuck ? 0 : 3000)) { stuck = true; return; } // something does not happen: the observation tells
            usleep(waits < 20 ? 20 : 500);
        }
    }

    // ---- clients
    void Connect(int id, long long starved)
    {
        connecting = id;
        auto& k = clients[id];
        k = Client();
        k.fd = socket(AF_INET, SOCK_STREAM, 0);
        if (header->num("rcvbuf")) { int n = static_cast<int>(header->num("rcvbuf")); setsockopt(k.fd, SOL_SOCKET, SO_RCVBUF, &n, sizeof n); }
        int one = 1;
        setsockopt(k.fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_port = htons(static_cast<uint16_t>(lport));
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (connect(k.fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) { close(k.fd); k.fd = -1; connecting = 0; return; }
        k.port = PortOf(k.fd, false);
        if (starved > 0)
        {   // for a while the server cannot open any file
            rlimit old{};
            getrlimit(RLIMIT_NOFILE, &old);
            rlimit low = old;
            const int next = dup(k.fd);
            close(next);
            low.rlim_cur = static_cast<rlim_t>(next);
            setrlimit(RLIMIT_NOFILE, &low);
            for (long long i = 0; i < starved; ++i)
                try { sched->AsioContext().poll_one(); } catch (...) { TheLog().Ev("{\"e\":\"escaped\",\"c\":[]}"); }
            setrlimit(RLIMIT_NOFILE, &old);
        }
        for (int i = 0; i < 2000 && k.session.expired(); ++i) { if (Poll() == 0) usleep(100); Drain(); if (k.eof) break; }
        for (int f : OpenFds()) if (f != k.fd && PortOf(f, true) == k.port) k.sfd = f;
        if (k.sfd >= 0 && header->num("sndbuf")) { int n = static_cast<int>(header->num("sndbuf")); setsockopt(k.sfd, SOL_SOCKET, SO_SNDBUF, &n, sizeof n); }
        Pump();
        connecting = 0;
    }
    void Send(int id, const std::string& b, bool pump)
    {
        auto& k = clients[id];
        std::size_t done = 0;
        while (k.fd >= 0 && done < b.size())
        {
            const auto n = send(k.fd, b.data() + done, b.size() - done, MSG_DONTWAIT | MSG_NOSIGNAL);
            if (n > 0) done += static_cast<std::size_t>(n);
            else if (n < 0 && errno == EAGAIN) Pump();
            else if (n < 0 && errno == EINTR) continue;
            else break;
        }
        if (pump) Pump();
    }
    void CloseClient(int id, long long how)
    {
        auto& k = clients[id];
        if (k.fd < 0) return;
        if (how == 2)
        {
            shutdown(k.fd, SHUT_WR);
            k.gone = true;
            Pump();
        }
        if (how == 1) { linger l{1, 0}; setsockopt(k.fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
        {
            std::lock_guard<std::mutex> lock(mtx);
            close(k.fd);
            k.fd = -1;
            k.gone = true;
        }
        Pump();
    }

    cli::CliSession* SessionFor(std::ostream& out)
    {
        if (running >= 0) return sess.at(running).s.get();
        const int id = w->StreamOf(out);
        auto it = clients.find(id);
        if (it != clients.end()) if (auto p = it->second.session.lock()) return dynamic_cast<cli::CliSession*>(p.get());
        auto a = sess.find(id);
        return a == sess.end() ? nullptr : a->second.s.get();
    }
    void Effect(std::ostream& out, const J& e) override
    {
        const auto& t = e["t"].s;
        if (t == "feed") { if (auto* s = SessionFor(out)) s->Feed(e.bytes("b")); }
        else if (t == "exit") { if (auto* s = SessionFor(out)) s->Exit(); }
    }

    void Step(const J& st) override
    {
        const auto& op = st["op"].s;
        const int id = static_cast<int>(st.num("c"));
        running = -1;
        if (op == "connect") Connect(id, st.num("starved"));
        else if (op == "send") for (auto& p : st["parts"].a) Send(id, p.bytes(), true);
        else if (op == "rclose") CloseClient(id, st.num("how"));
        else if (op == "abort")
        {
            std::string all;
            for (auto& p : st["parts"].a) all += p.bytes();
            Send(id, all, false);
            for (long long i = 0; i < st.num("polls"); ++i) try { sched->AsioContext().poll_one(); } catch (...) { TheLog().Ev("{\"e\":\"escaped\",\"c\":[]}"); }
            CloseClient(id, st.num("how"));
        }
        else if (op == "flash")
        {   // clients that go before the server has accepted them
            std::vector<int> fds;
            for (long long i = 0; i < st.num("n"); ++i)
            {
                const int fd = socket(AF_INET, SOCK_STREAM, 0);
                sockaddr_in a{};
                a.sin_family = AF_INET;
                a.sin_port = htons(static_cast<uint16_t>(lport));
                a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
                if (connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0)
                {
                    const auto b = st.bytes("b");
                    if (!b.empty()) (void)send(fd, b.data(), b.size(), MSG_NOSIGNAL);
                    if (st.num("how") == 1) { linger l{1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
                }
                if (st.num("how") == 2) fds.push_back(fd); else close(fd);
            }
            for (long long i = 0; i < st.num("polls"); ++i) try { sched->AsioContext().poll_one(); } catch (...) { TheLog().Ev("{\"e\":\"escaped\",\"c\":[]}"); }
            for (int fd : fds) close(fd);
            Pump();
        }
        else if (op == "aopen")
        {
            const int s = static_cast<int>(st["s"].i), stream = static_cast<int>(st["stream"].i);
            int p[2];
            if (pipe(p) != 0) throw std::runtime_error("pipe");
            auto& a = asyncs[s];
            a.in = p[0];
            a.out = p[1];
            const int old = dup(0);
            dup2(p[0], 0);
            (void)Stream(stream);
            a.old = std::cout.rdbuf(bufs[stream].get());
            Sess x;
            x.stream = stream;
            running = s;
            x.s = std::make_unique<AsyncType>(*sched, *c);
            dup2(old, 0);
            close(old);
            sess[s] = std::move(x);
            a.live = true;
            Pump();
        }
        else if (op == "asend")
        {
            auto& a = asyncs.at(running = static_cast<int>(st["s"].i));
            for (auto& p : st["parts"].a)
            {
                const auto b = p.bytes();
                std::size_t done = 0;
                fcntl(a.out, F_SETFL, O_NONBLOCK);
                while (done < b.size())
                {
                    const auto n = write(a.out, b.data() + done, b.size() - done);
                    if (n > 0) done += static_cast<std::size_t>(n); else Pump();
                }
                Pump();
            }
        }
        else if (op == "aexit") { running = static_cast<int>(st["s"].i); sess.at(running).s->ExitAction([this](std::ostream& o) { Action("exit", "SX", o); }); }
        else if (op == "aeof") { auto& a = asyncs.at(running = static_cast<int>(st["s"].i)); close(a.out); a.out = -1; a.live = false; for (int i = 0; i < 20; ++i) { Pump(); } }
        else
        {
            if (op == "close" && asyncs.count(static_cast<int>(st["s"].i))) asyncs[static_cast<int>(st["s"].i)].live = false;
            Driver::Step(st);
            running = -1;
            Pump();
        }
    }
    void AfterStep(const J&) override
    {
        std::lock_guard<std::mutex> lock(mtx);
        int live = 0;
        for (auto& x : clients)
        {
            auto& k = x.second;
            if (!k.session.expired()) ++live;
            if (!k.rx.empty()) TheLog().Ev("{\"e\":\"rx\",\"c\":" + std::to_string(x.first) + ",\"b\":" + JBytes(k.rx) + "}");
            k.rx.clear();
            if (k.eof && k.fd >= 0 && !k.gone)
            {
                TheLog().Ev("{\"e\":\"closed\",\"c\":" + std::to_string(x.first) + "}");
                close(k.fd);
                k.fd = -1;
            }
        }
        if (!clients.empty()) TheLog().Ev("{\"e\":\"live\",\"n\":" + std::to_string(live) + "}");
    }

    struct Async { int in = -1, out = -1; bool live = false; std::streambuf* old = nullptr; };
    std::unique_ptr<SchedulerType> sched;
    std::unique_ptr<Server> server;
    std::map<int, Client> clients;
    std::map<int, Async> asyncs;
    std::mutex mtx;
    std::thread reader;
    std::atomic<bool> stopReader{false};
    bool stuck = false;
    int connecting = 0, lfd = -1, lport = 0;
};

int main(int argc, char** argv)
{
    // what the library prints about strange input is not an observation
    return DriverMain(argc, argv, [](const std::string& scratch) { return std::make_unique<NetDriver>(scratch); });
}
