// Minimal JSON reader for the stimuli: objects, arrays, integers, ASCII strings.
#ifndef MJ_HPP
#define MJ_HPP
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

struct J
{
    enum T { Null, Int, Str, Arr, Obj } t = Null;
    long long i = 0;
    std::string s;
    std::vector<J> a;
    std::map<std::string, J> o;
    std::size_t from = 0, to = 0; // position in the source text

    bool has(const std::string& k) const { return o.count(k) != 0; }
    const J& operator[](const std::string& k) const
    {
        auto it = o.find(k);
        if (it == o.end()) throw std::runtime_error("missing field " + k);
        return it->second;
    }
    const J& operator[](std::size_t k) const { return a.at(k); }
    std::size_t size() const { return a.size(); }
    long long num(const std::string& k, long long d = 0) const { return has(k) ? (*this)[k].i : d; }
    std::string bytes() const // array of byte values
    {
        std::string r;
        for (auto& x : a) r += static_cast<char>(x.i);
        return r;
    }
    std::string bytes(const std::string& k) const { return has(k) ? (*this)[k].bytes() : std::string(); }
    std::string str(const std::string& k) const { return has(k) ? (*this)[k].s : std::string(); }
};

class JParser
{
public:
    explicit JParser(const std::string& x) : x(x) {}
    J Parse() { J r = Value(); return r; }
private:
    void Ws() { while (p < x.size() && (x[p] == ' ' || x[p] == '\n' || x[p] == '\r' || x[p] == '\t')) ++p; }
    char C() { if (p >= x.size()) throw std::runtime_error("json: end"); return x[p]; }
    void Expect(char c) { Ws(); if (C() != c) throw std::runtime_error(std::string("json: expected ") + c + " at " + std::to_string(p)); ++p; }
    J Value()
    {
        Ws();
        J v; v.from = p;
        char c = C();
        if (c == '{')
        {
            v.t = J::Obj; ++p; Ws();
            if (C() == '}') ++p;
            else for (;;)
            {
                Ws(); J k = Value(); Expect(':'); v.o[k.s] = Value(); Ws();
                if (C() == ',') { ++p; continue; }
                Expect('}'); break;
            }
        }
        else if (c == '[')
        {
            v.t = J::Arr; ++p; Ws();
            if (C() == ']') ++p;
            else for (;;)
            {
                v.a.push_back(Value()); Ws();
                if (C() == ',') { ++p; continue; }
                Expect(']'); break;
            }
        }
        else if (c == '"')
        {
            v.t = J::Str; ++p;
            while (C() != '"') { if (x[p] == '\\') ++p; v.s += C(); ++p; }
            ++p;
        }
        else if (c == '-' || (c >= '0' && c <= '9'))
        {
            v.t = J::Int; std::size_t n = 0; v.i = std::stoll(x.substr(p, 24), &n); p += n;
        }
        else throw std::runtime_error(std::string("json: unexpected ") + c);
        v.to = p;
        return v;
    }
    const std::string& x;
    std::size_t p = 0;
};

inline std::string JBytes(const std::string& s)
{
    std::string r = "[";
    for (std::size_t i = 0; i < s.size(); ++i)
    {
        if (i) r += ',';
        r += std::to_string(static_cast<int>(static_cast<unsigned char>(s[i])));
    }
    return r + "]";
}
inline std::string JList(const std::vector<std::string>& v)
{
    std::string r = "[";
    for (std::size_t i = 0; i < v.size(); ++i) { if (i) r += ','; r += JBytes(v[i]); }
    return r + "]";
}
#endif
