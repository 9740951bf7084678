// A world of the specification CliCore built on the real library: menus and
// handlers described by a trace header, and a log of observable events.
#ifndef WORLD_HPP
#define WORLD_HPP
#include <atomic>
#include <fstream>
#include <iomanip>
#include <istream>
#include <memory>
#include <sstream>
#include <cli/cli.h>
#include <cli/filehistorystorage.h>
#include <cli/volatilehistorystorage.h>
#include "mj.hpp"

struct UserType { unsigned n = 0; };
inline std::istream& operator>>(std::istream& in, UserType& u)
{
    char c = 0;
    unsigned n = 0;
    in >> std::ws;
    if (in.peek() < '0' || in.peek() > '9') { in.setstate(std::ios::failbit); return in; }
    if (in >> n >> std::noskipws >> c && c == 'u') u.n = n; else in.setstate(std::ios::failbit);
    in >> std::skipws;
    return in;
}

struct Log
{
    std::vector<std::string> ev; // events as json, texts separately merged
    int stream = 0;
    std::string text;
    void FlushText()
    {
        if (!text.empty()) ev.push_back("{\"e\":\"out\",\"s\":" + std::to_string(stream) + ",\"b\":" + JBytes(text) + "}");
        text.clear();
    }
    // a lock that no scheduling controller sees
    std::atomic_flag busy = ATOMIC_FLAG_INIT;
    struct Guard { std::atomic_flag& f; explicit Guard(std::atomic_flag& f) : f(f) { while (f.test_and_set(std::memory_order_acquire)) {} } ~Guard() { f.clear(std::memory_order_release); } };
    void Text(int s, const std::string& t)
    {
        Guard g(busy);
        if (s != stream) { FlushText(); stream = s; }
        text += t;
    }
    void Ev(const std::string& j) { Guard g(busy); FlushText(); ev.push_back(j); }
    std::string Take()
    {
        Guard g(busy);
        FlushText();
        std::string r = "[";
        for (std::size_t i = 0; i < ev.size(); ++i) { if (i) r += ','; r += ev[i]; }
        ev.clear();
        return r + "]";
    }
};
inline Log& TheLog() { static Log l; return l; }

// an output stream recording into the log
class LogBuf : public std::streambuf
{
public:
    explicit LogBuf(int s) : s(s) {}
    int id() const { return s; }
private:
    std::streamsize xsputn(const char* p, std::streamsize n) override { TheLog().Text(s, std::string(p, static_cast<std::size_t>(n))); return n; }
    int overflow(int c) override { if (c != EOF) TheLog().Text(s, std::string(1, static_cast<char>(c))); return c == EOF ? 0 : c; }
    int s;
};

// finds out which stream a handler got
class World;
struct CustomInt { int v; };
struct CustomErr : std::runtime_error { using std::runtime_error::runtime_error; };

struct Capture
{
    explicit Capture(std::size_t n) : n(n) {}
    ~Capture() { n = static_cast<std::size_t>(-1); }
    void Check(std::size_t x) const { if (n != x) TheLog().Ev("{\"e\":\"deadcapture\"}"); }
    volatile std::size_t n;
};

class World
{
public:
    std::vector<J> nodes;              // 1 based: nodes[0] unused
    std::vector<cli::Menu*> menus;     // raw, valid while the menu lives
    std::vector<cli::CmdHandler> handles;
    std::vector<char> inserted;
    std::vector<std::unique_ptr<cli::Menu>> freeMenus; // menus not inserted yet
    std::map<const std::streambuf*, int> streamIds;
    std::function<void(std::ostream&, const J&)> effect; // feed, exit, eat, break: need a session

    std::vector<std::function<void()>> onClear;
    ~World() { for (auto& f : onClear) f(); }

    void Header(const J& h)
    {
        for (auto& f : onClear) f();
        onClear.clear();
        nodes.assign(1, J());
        for (auto& n : h["nodes"].a) nodes.push_back(n);
        menus.assign(nodes.size(), nullptr);
        handles.assign(nodes.size(), cli::CmdHandler());
        inserted.assign(nodes.size(), 0);
        freeMenus.clear();
        freeMenus.resize(nodes.size());
    }
    int StreamOf(std::ostream& out)
    {
        auto it = streamIds.find(out.rdbuf());
        return it == streamIds.end() ? -1 : it->second;
    }

    // creates the menu (not inserted anywhere) with the given kids
    std::unique_ptr<cli::Menu> MakeMenu(std::size_t n, const J& kids)
    {
        auto& d = nodes[n];
        const auto name = d.bytes("name"), prompt = d.bytes("prompt"), desc = d.bytes("desc");
        std::unique_ptr<cli::Menu> m = (prompt == name) ? std::make_unique<cli::Menu>(name, desc)
                                                        : std::make_unique<cli::Menu>(name, desc, prompt);
        menus[n] = m.get();
        for (auto& k : kids[n - 1].a)
        {
            const auto kn = static_cast<std::size_t>(k.i);
            if (nodes[kn].str("kind") == "menu" && nodes[kn].num("late") == 1)
            {   // inserted in the parent before being filled
                auto sub = MakeMenu(kn, J1(nodes.size()));
                handles[kn] = m->Insert(std::move(sub));
                inserted[kn] = 1;
                for (auto& kk : kids[kn - 1].a) InsertNode(*menus[kn], static_cast<std::size_t>(kk.i), kids);
            }
            else InsertNode(*m, kn, kids);
        }
        return m;
    }
    static J J1(std::size_t n) { J j; j.t = J::Arr; j.a.resize(n); for (auto& x : j.a) x.t = J::Arr; return j; }

    void InsertNode(cli::Menu& m, std::size_t n, const J& kids)
    {
        auto& d = nodes[n];
        if (inserted[n]) return; // a node is inserted once
        inserted[n] = 1;
        if (d.str("kind") == "menu") { handles[n] = m.Insert(MakeMenu(n, kids)); return; }
        if (d.str("kind") == "free") { InsertFree(m, n); return; }
        std::string sig;
        for (auto& p : d["params"].a) sig += (sig.empty() ? "" : ",") + p.s;
        auto& f = Factories();
        auto it = f.find(sig);
        if (it == f.end()) throw std::runtime_error("no signature " + sig);
        it->second(*this, m, n);
    }

    void Run(std::size_t n, std::ostream& out, const std::vector<std::string>& args)
    {
        TheLog().Ev("{\"e\":\"run\",\"n\":" + std::to_string(n) + ",\"s\":" + std::to_string(StreamOf(out)) + ",\"a\":" + JList(args) + "}");
        // the effects are copied: the handler may remove its own node
        const std::vector<J> eff = nodes[n].has("eff") ? nodes[n]["eff"].a : std::vector<J>();
        for (auto& e : eff)
        {
            const auto& t = e["t"].s;
            if (t == "print")
            {
                std::string b = e.bytes("b");
                if (e.has("rep")) { const std::string unit = b; b.clear(); for (long long i = 0; i < e.num("rep"); ++i) b += unit; }
                Print(out, b, e.num("how"));
            }
            else if (t == "en") handles[static_cast<std::size_t>(e["n"].i)].Enable();
            else if (t == "dis") handles[static_cast<std::size_t>(e["n"].i)].Disable();
            else if (t == "rm") handles[static_cast<std::size_t>(e["n"].i)].Remove();
            else if (t == "ins") InsertNode(*menus[static_cast<std::size_t>(e["m"].i)], static_cast<std::size_t>(e["n"].i), J1(nodes.size()));
            else if (t == "bcast") Print(cli::Cli::cout(), e.bytes("b"), e.num("how"));
            else if (t == "throw") Throw(e);
            else effect(out, e);
        }
    }
    static void Print(std::ostream& out, const std::string& b, long long how)
    {
        if (how == 1) for (char c : b) out << c;
        else if (how == 2) for (char c : b) out.put(c);
        else if (how == 3) { out.write(b.data(), static_cast<std::streamsize>(b.size())); out << std::flush; }
        else if (how == 5) for (std::size_t i = 0; i < b.size(); i += 1000) out << b.substr(i, 1000);
        else if (how == 6) out << std::unitbuf << b << std::nounitbuf;
        else if (how == 7) { std::size_t i = 0; for (std::size_t k = 1; i < b.size(); ++k) { out << b.substr(i, k); i += k; } out << std::endl << std::flush; }
        else if (how == 8 && !b.empty())   // formatted
        {
            if (b.size() < 10 && b[0] != '0' && b.find_first_not_of("0123456789") == std::string::npos) out << std::stol(b);
            else out << std::setw(static_cast<int>(b.size())) << b;
        }
        else if (how == 9 && !b.empty()) { std::istringstream in(b); out << in.rdbuf(); }
        else if (how == 4) { const auto h = b.size() / 2; out << b.substr(0, h) << b.substr(h); }
        else out << b;
    }
    static void Throw(const J& e)
    {
        const auto what = e.bytes("b");
        switch (e.num("kind"))
        {
            case 0: throw std::runtime_error(what);
            case 1: throw std::logic_error(what);
            case 2: throw std::out_of_range(what);
            case 3: throw CustomErr(what);
            case 4: throw std::bad_cast();
            case 5: throw cli::detail::bad_conversion();
            case 6: throw std::bad_alloc();
            case 7: throw std::bad_function_call();
            case 10: throw 42;
            case 11: throw CustomInt{7};
            case 12: throw std::string("x");
            case 13: throw "chars";
            default: throw std::exception();
        }
    }

    using Factory = std::function<void(World&, cli::Menu&, std::size_t)>;
    static std::map<std::string, Factory>& Factories();
    template <typename ... A> static Factory Make();
private:
    void InsertFree(cli::Menu& m, std::size_t n)
    {
        auto& d = nodes[n];
        const auto name = d.bytes("name"), desc = d.bytes("desc");
        std::vector<std::string> pd;
        for (auto& p : d["pdesc"].a) pd.push_back(p.bytes());
        // what a handler captures must live until it returns
        auto keep = std::make_shared<Capture>(n);
        auto f = [this, n, keep](std::ostream& out, const std::vector<std::string>& a) { Run(n, out, a); keep->Check(n); };
        auto g = [this, n, keep](std::ostream& out, std::vector<std::string> a) { Run(n, out, a); keep->Check(n); };
        switch (d.num("ins"))
        {
            case 1: handles[n] = m.Insert(name, pd, f, desc); break;
            case 2: handles[n] = m.Insert(name, g, desc, pd); break;
            case 3: handles[n] = m.Insert(std::unique_ptr<cli::Command>(new cli::FreeformCommand<decltype(f)>(name, f, desc, pd))); break;
            case 4: handles[n] = m.Insert(name, pd, g, desc); break;
            case 5: handles[n] = m.Insert(name, pd, std::function<int(std::ostream&, const std::vector<std::string>&)>([f](std::ostream& o, const std::vector<std::string>& a) { f(o, a); return 1; }), desc); break;
            default: handles[n] = m.Insert(name, f, desc, pd);
        }
    }
};

template <typename T> inline std::string Repr(const T& x) { return std::to_string(x); }
template <> inline std::string Repr(const std::string& x) { return x; }
template <> inline std::string Repr(const char& x) { return std::string(1, x); }
template <> inline std::string Repr(const bool& x) { return x ? "1" : "0"; }
template <> inline std::string Repr(const UserType& x) { return std::to_string(x.n); }
template <typename T> inline std::string ReprF(const T& x, int p) { std::ostringstream o; o << std::setprecision(p) << x; return o.str(); }
template <> inline std::string Repr(const float& x) { return ReprF(x, 6); }
template <> inline std::string Repr(const double& x) { return ReprF(x, 15); }
template <> inline std::string Repr(const long double& x) { return ReprF(x, 18); }

// handlers that are plain functions: a pool of them for each signature
template <typename ... A>
struct Plain
{
    struct Slot { World* w = nullptr; std::size_t n = 0; std::shared_ptr<Capture> keep; };
    static constexpr int N = 6;
    static Slot* Slots() { static Slot s[N]; return s; }
    template <int K> static int Fn(std::ostream& out, A... a)
    {
        const Slot s = Slots()[K];
        s.w->Run(s.n, out, std::vector<std::string>{Repr<A>(a)...});
        s.keep->Check(s.n);
        return K;
    }
    using F = int (*)(std::ostream&, A...);
    static F Get(World* w, std::size_t n, std::shared_ptr<Capture> keep)
    {
        static const F fs[N] = { &Fn<0>, &Fn<1>, &Fn<2>, &Fn<3>, &Fn<4>, &Fn<5> };
        for (int k = 0; k < N; ++k)
            if (Slots()[k].w == nullptr || (Slots()[k].w == w && Slots()[k].n == n))
            {
                Slots()[k] = Slot{ w, n, keep };
                w->onClear.push_back([k] { Slots()[k] = Slot(); });
                return fs[k];
            }
        return nullptr;
    }
};

template <typename ... A>
inline World::Factory World::Make()
{
    return [](World& w, cli::Menu& m, std::size_t n)
    {
        auto& d = w.nodes[n];
        const auto name = d.bytes("name"), desc = d.bytes("desc");
        std::vector<std::string> pd;
        for (auto& p : d["pdesc"].a) pd.push_back(p.bytes());
        World* self = &w;
        auto keep = std::make_shared<Capture>(n);
        auto f = [self, n, keep](std::ostream& out, A... a) { self->Run(n, out, std::vector<std::string>{Repr<A>(a)...}); keep->Check(n); };
        switch (d.num("ins"))
        {
            case 1: w.handles[n] = m.Insert(name, pd, f, desc); return;
            case 2: // the arguments by reference, and a result
                w.handles[n] = m.Insert(name, [self, n, keep](std::ostream& out, const A& ... a) -> bool { self->Run(n, out, std::vector<std::string>{Repr<A>(a)...}); keep->Check(n); return false; }, desc, pd);
                return;
            case 4: // a function
                if (auto p = Plain<A...>::Get(self, n, keep)) { w.handles[n] = m.Insert(name, p, desc, pd); return; }
                break;
            case 5: w.handles[n] = m.Insert(name, pd, std::function<void(std::ostream&, A...)>(f), desc); return;
            case 3: w.handles[n] = m.Insert(std::unique_ptr<cli::Command>(new cli::VariadicFunctionCommand<decltype(f), A...>(name, f, desc, pd))); return;
            default: break;
        }
        w.handles[n] = m.Insert(name, f, desc, pd);
    };
}

inline std::map<std::string, World::Factory>& World::Factories()
{
    static std::map<std::string, Factory> f = [] {
        std::map<std::string, Factory> r;
        r[""] = Make<>();
#ifdef WORLD_ALL_TYPES
#define T3(N, T) r[N] = Make<T>(); r[N ",string"] = Make<T, std::string>(); r["string," N] = Make<std::string, T>(); r["int," N ",char"] = Make<int, T, char>();
#else
#define T3(N, T) r[N] = Make<T>();
#endif
        using uchar = unsigned char; using schar = signed char; using ushort_ = unsigned short; using ulong_ = unsigned long;
        using llong = long long; using ullong = unsigned long long; using ldouble = long double; using str = std::string;
        T3("int", int) T3("string", str) T3("bool", bool) T3("char", char) T3("uint", unsigned)
#ifdef WORLD_ALL_TYPES
        T3("schar", schar) T3("uchar", uchar) T3("short", short) T3("ushort", ushort_) T3("long", long) T3("ulong", ulong_)
        T3("llong", llong) T3("ullong", ullong) T3("float", float) T3("double", double) T3("ldouble", ldouble) T3("user", UserType)
#endif
        r["string,string"] = Make<str, str>();
        r["int,int"] = Make<int, int>();
        r["int,string"] = Make<int, str>();
        r["string,int"] = Make<str, int>();
        r["bool,char"] = Make<bool, char>();
        r["int,string,int"] = Make<int, str, int>();
        r["string,string,string"] = Make<str, str, str>();
        return r;
    }();
    return f;
}
#endif
