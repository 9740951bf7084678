// Replays stimuli on the real library and records what it does.
#ifndef DRIVER_HPP
#define DRIVER_HPP
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <unistd.h>
#include <cli/clifilesession.h>
#include <cli/detail/split.h>
#include <cli/detail/commonprefix.h>
#include "world.hpp"

struct Sess
{
    std::unique_ptr<cli::Cli> other; // if it is of another cli
    std::unique_ptr<std::stringstream> in;
    std::unique_ptr<cli::CliSession> s;
    cli::CliFileSession* file = nullptr;
    int stream = 0;
};

inline std::ios::iostate Bits(long long x)
{
    return (x & 1 ? std::ios::eofbit : std::ios::goodbit) | (x & 2 ? std::ios::failbit : std::ios::goodbit) | (x & 4 ? std::ios::badbit : std::ios::goodbit);
}

// error flags that a stream has for a while
struct Sick
{
    Sick(std::ios& s, long long bits) : s(s), on(bits != 0) { if (on) s.setstate(Bits(bits)); }
    ~Sick() { if (on) s.clear(); }
    std::ios& s;
    bool on;
};

class Driver
{
public:
    explicit Driver(std::string scratch) : scratch(std::move(scratch)) {}
    virtual ~Driver() = default;

    std::string RunTrace(const J& h, const std::string& src)
    {
        header = &h;
        Start();
        std::string out = src.substr(h.from, h["steps"].from - h.from) + "[";
        bool first = true;
        for (auto& st : h["steps"].a)
        {
            TheLog().Take();
            try { Step(st); }
            catch (const std::exception& e) { TheLog().Ev("{\"e\":\"escaped\",\"c\":" + JBytes(e.what()) + "}"); }
            catch (...) { TheLog().Ev("{\"e\":\"escaped\",\"c\":[]}"); }
            AfterStep(st);
            if (!first) out += ',';
            first = false;
            out += src.substr(st.from, st.to - st.from - 1) + ",\"obs\":" + TheLog().Take() + "}";
        }
        out += "]" + src.substr(h["steps"].to, h.to - h["steps"].to);
        Finish();
        return out;
    }

protected:
    virtual void Start()
    {
        const auto& h = *header;
        if (h.str("storage") == "file") std::remove(File().c_str());
        if (h.str("storage") == "file" && h["store"].size() > 0)
        {
            std::ofstream f(File());
            for (auto& l : h["store"].a) f << l.bytes() << '\n';
        }
        elsewhere.reset();
        if (h.str("storage") == "file") elsewhere = std::make_unique<cli::FileHistoryStorage>(File(), static_cast<std::size_t>(h.num("smax")));
        Build(h["store"]);
    }
    std::string File() const { return scratch + "/history"; }
    void Build(const J& preload)
    {
        const auto& h = *header;
        w = std::make_unique<World>();
        w->Header(h);
        w->effect = [this](std::ostream& out, const J& e) { Effect(out, e); };
        auto root = w->MakeMenu(1, h["kids"]);
        std::unique_ptr<cli::HistoryStorage> st;
        const auto smax = static_cast<std::size_t>(h.num("smax"));
        if (h.str("storage") == "file")
            st = (smax == 1000) ? std::make_unique<cli::FileHistoryStorage>(File()) : std::make_unique<cli::FileHistoryStorage>(File(), smax);
        else
            st = (smax == 1000) ? std::make_unique<cli::VolatileHistoryStorage>() : std::make_unique<cli::VolatileHistoryStorage>(smax);
        storage = st.get();
        if (h.str("storage") != "file" && preload.size() > 0)
        {
            std::vector<std::string> v;
            for (auto& l : preload.a) v.push_back(l.bytes());
            st->Store(v);
        }
        c = (h.str("storage") == "none") ? std::make_unique<cli::Cli>(std::move(root))
                                         : std::make_unique<cli::Cli>(std::move(root), std::move(st));
        if (h.str("storage") == "none") storage = nullptr;
        const auto& cfg = h["cfg"];
        if (cfg.num("wrong")) c->WrongCommandHandler([this](std::ostream& out, const std::string& cmd)
            { TheLog().Ev("{\"e\":\"wrong\",\"s\":" + std::to_string(w->StreamOf(out)) + ",\"c\":" + JBytes(cmd) + "}"); });
        if (cfg.num("exc")) c->StdExceptionHandler([this](std::ostream& out, const std::string& cmd, const std::exception& e)
            { TheLog().Ev("{\"e\":\"exc\",\"s\":" + std::to_string(w->StreamOf(out)) + ",\"c\":" + JBytes(cmd) + ",\"w\":" + JBytes(e.what()) + "}"); });
        if (cfg.num("genter")) c->EnterAction([this](std::ostream& out) { Action("genter", "GE", out); });
        if (cfg.num("gexit")) c->ExitAction([this](std::ostream& out) { Action("gexit", "GX", out); });
    }
    void Action(const char* k, const char* t, std::ostream& out)
    {
        const int st = w->StreamOf(out);
        const int s = running >= 0 ? running : st; // the session running the action
        TheLog().Ev(std::string("{\"e\":\"act\",\"k\":\"") + k + "\",\"s\":" + std::to_string(s) + "}");
        out << '<' << t << s << '>';
    }
    virtual void Finish()
    {
        sess.clear();
        c.reset();
        w.reset();
        streams.clear();
        bufs.clear();
        TheLog().Take();
        std::remove(File().c_str());
    }
    std::ostream& Stream(int id)
    {
        if (!streams[id])
        {
            bufs[id] = std::make_unique<LogBuf>(id);
            streams[id] = std::make_unique<std::ostream>(bufs[id].get());
        }
        w->streamIds[bufs[id].get()] = id;
        return *streams[id];
    }
    Sess& S(const J& st) { return sess.at(static_cast<int>(st["s"].i)); }

    virtual void Effect(std::ostream&, const J& e)
    {
        auto& x = sess.at(running);
        const auto& t = e["t"].s;
        if (t == "feed") x.s->Feed(e.bytes("b"));
        else if (t == "exit") x.s->Exit();
        else if (t == "eat") { std::string l; if (x.in) std::getline(*x.in, l); }
        else if (t == "break") { if (x.in) x.in->setstate(std::ios::badbit); }
    }

    virtual void AfterStep(const J&) {}
    virtual void Step(const J& st)
    {
        const auto& op = st["op"].s;
        running = st.has("s") ? static_cast<int>(st["s"].i) : -1;
        auto n = static_cast<std::size_t>(st.num("n"));
        if (op == "open")
        {
            Sess x;
            const int id = static_cast<int>(st["s"].i);
            x.stream = static_cast<int>(st["stream"].i);
            auto& out = Stream(x.stream);
            Sick sick(out, st.num("sick")); // only while the session is made
            if (st.str("kind") == "file")
            {
                x.in = std::make_unique<std::stringstream>();
                auto f = std::make_unique<cli::CliFileSession>(*c, *x.in, out);
                x.file = f.get();
                x.s = std::move(f);
            }
            else if (st.str("kind") == "other")
            {
                x.other = std::make_unique<cli::Cli>(std::make_unique<cli::Menu>("other"));
                x.s = std::make_unique<cli::CliSession>(*x.other, out, static_cast<std::size_t>(st["hmax"].i));
            }
            else if (st["hmax"].i == 100) x.s = std::make_unique<cli::CliSession>(*c, out);
            else x.s = std::make_unique<cli::CliSession>(*c, out, static_cast<std::size_t>(st["hmax"].i));
            if (st.num("aenter")) x.s->EnterAction([this](std::ostream& o) { Action("enter", "SE", o); });
            if (st.num("aexit")) x.s->ExitAction([this](std::ostream& o) { Action("exit", "SX", o); });
            sess[id] = std::move(x);
        }
        else if (op == "close")
        {
            const auto x = sess.find(static_cast<int>(st["s"].i));
            if (x != sess.end())
            {
                Sick sick(Stream(x->second.stream), st.num("sick"));
                sess.erase(x);
            }
        }
        else if (op == "enter") S(st).s->Enter();
        else if (op == "exit") S(st).s->Exit();
        else if (op == "feed") S(st).s->Feed(st.bytes("b"));
        else if (op == "prompt") S(st).s->Prompt();
        else if (op == "help") S(st).s->Help();
        else if (op == "show") S(st).s->ShowHistory();
        else if (op == "comp") TheLog().Ev("{\"e\":\"comp\",\"l\":" + JList(S(st).s->GetCompletions(st.bytes("b"))) + "}");
        else if (op == "prev") TheLog().Ev("{\"e\":\"ret\",\"b\":" + JBytes(S(st).s->PreviousCmd(st.bytes("b"))) + "}");
        else if (op == "next") TheLog().Ev("{\"e\":\"ret\",\"b\":" + JBytes(S(st).s->NextCmd()) + "}");
        else if (op == "en") w->handles[n].Enable();
        else if (op == "dis") w->handles[n].Disable();
        else if (op == "rm") w->handles[n].Remove();
        else if (op == "ins") w->InsertNode(*w->menus[static_cast<std::size_t>(st["m"].i)], n, World::J1(w->nodes.size()));
        else if (op == "cur") S(st).s->Current(w->menus[n]);
        else if (op == "bcast" && st.num("sick"))
        {   // broadcasts do not depend on the state of the streams of the sessions
            for (auto& x : streams) if (x.second)
            {
                if (st.num("sick") == 3) x.second->width(5);
                else x.second->setstate(st.num("sick") == 1 ? std::ios::failbit : std::ios::badbit);
            }
            World::Print(cli::Cli::cout(), st.bytes("b"), st.num("how"));
            for (auto& x : streams) if (x.second) { x.second->clear(); x.second->width(0); }
        }
        else if (op == "bcast") World::Print(cli::Cli::cout(), st.bytes("b"), st.num("how"));
        else if (op == "file") { auto& x = S(st); x.in->str(st.bytes("b")); x.file->Start(); }
        else if (op == "badopen")
        {
            std::stringstream in, out;
            in.setstate(Bits(st.num("in")));
            out.setstate(Bits(st.num("out")));
            try { cli::CliFileSession f(*c, in, out); TheLog().Ev("{\"e\":\"accepted\"}"); }
            catch (const std::invalid_argument&) { TheLog().Ev("{\"e\":\"refused\"}"); }
        }
        else if (op == "dump") TheLog().Ev("{\"e\":\"store\",\"l\":" + JList(storage->Commands()) + "}");
        else if (op == "clear") storage->Clear();
        else if (op == "xstore")
        {   // through another storage object on the same file, as another process would do
            std::vector<std::string> v;
            for (auto& x : st["l"].a) v.push_back(x.bytes());
            if (st.num("seen")) TheLog().Ev("{\"e\":\"store\",\"l\":" + JList((elsewhere ? elsewhere.get() : storage)->Commands()) + "}");
            (elsewhere ? elsewhere.get() : storage)->Store(v);
        }
        else if (op == "restart")
        {
            J keep; keep.t = J::Arr;
            sess.clear();
            c.reset();
            if (st.num("keep") == 0) std::remove(File().c_str());
            Build(keep);
        }
        else if (op == "split") { std::vector<std::string> v; cli::detail::split(v, st.bytes("b")); TheLog().Ev("{\"e\":\"toks\",\"l\":" + JList(v) + "}"); }
        else if (op == "lcp") { std::vector<std::string> v; for (auto& x : st["l"].a) v.push_back(x.bytes()); TheLog().Ev("{\"e\":\"ret\",\"b\":" + JBytes(cli::detail::CommonPrefix(v)) + "}"); }
        else throw std::runtime_error("unknown op " + op);
    }

    std::string scratch;
    const J* header = nullptr;
    std::unique_ptr<World> w;
    std::unique_ptr<cli::Cli> c;
    cli::HistoryStorage* storage = nullptr;
    std::unique_ptr<cli::HistoryStorage> elsewhere; // another object on the same file
    std::map<int, std::unique_ptr<LogBuf>> bufs;
    std::map<int, std::unique_ptr<std::ostream>> streams;
    std::map<int, Sess> sess;
    int running = -1;
};

inline int DriverMain(int argc, char** argv, const std::function<std::unique_ptr<Driver>(const std::string&)>& make)
{
    if (argc < 5) return 2;
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2], std::ios::app);
    const long first = std::atol(argv[3]);
    auto d = make(argv[4]);
    std::string line;
    for (long i = 0; std::getline(in, line); ++i)
    {
        if (i < first) continue;
        alarm(20);
        JParser p(line);
        J h = p.Parse();
        out << d->RunTrace(h, line) << '\n' << std::flush;
    }
    return 0;
}
#endif
