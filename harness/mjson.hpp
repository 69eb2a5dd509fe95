// Minimal JSON value, parser and writer used by the harness (independent of the
// JSON code of the library under test).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace mj
{

struct Value
{
    enum Kind { Null, Bool, Int, Real, Str, Arr, Obj } kind = Null;
    bool b = false;
    long long i = 0;
    double d = 0;
    std::string s;                                  // Str, or literal text of Int/Real
    std::vector<Value> a;
    std::vector<std::pair<std::string, Value>> o;

    Value() {}
    static Value of(bool v) { Value x; x.kind = Bool; x.b = v; return x; }
    static Value of(long long v) { Value x; x.kind = Int; x.i = v; return x; }
    static Value of(int v) { return of((long long)v); }
    static Value of(unsigned v) { return of((long long)v); }
    static Value of(std::string const & v) { Value x; x.kind = Str; x.s = v; return x; }
    static Value of(char const * v) { return of(std::string(v)); }
    static Value arr() { Value x; x.kind = Arr; return x; }
    static Value obj() { Value x; x.kind = Obj; return x; }
    template<typename C>
    static Value ints(C const & c) { Value x = arr(); for (auto v : c) x.a.push_back(of((long long)v)); return x; }

    Value & put(std::string const & k, Value v)
    {
        for (auto & p : o) if (p.first == k) { p.second = std::move(v); return *this; }
        o.emplace_back(k, std::move(v));
        return *this;
    }
    template<typename T> Value & put(std::string const & k, T const & v) { return put(k, of(v)); }
    Value & put(std::string const & k, char const * v) { return put(k, of(std::string(v))); }

    bool has(std::string const & k) const { for (auto & p : o) if (p.first == k) return true; return false; }
    Value const & at(std::string const & k) const
    {
        for (auto & p : o) if (p.first == k) return p.second;
        throw std::runtime_error("missing key " + k);
    }
    long long num() const { return kind == Real ? (long long)d : kind == Bool ? b : i; }
    double real() const { return kind == Real ? d : (double)i; }
    long long geti(std::string const & k, long long dflt) const { return has(k) ? at(k).num() : dflt; }
    std::string gets(std::string const & k, std::string const & dflt) const { return has(k) ? at(k).s : dflt; }
    std::vector<long long> vl() const { std::vector<long long> r; for (auto & v : a) r.push_back(v.num()); return r; }
    std::vector<int> vi() const { std::vector<int> r; r.reserve(a.size()); for (auto & v : a) r.push_back((int)v.num()); return r; }

    void dump(std::string & out) const
    {
        switch (kind)
        {
            case Null: out += "null"; break;
            case Bool: out += b ? "true" : "false"; break;
            case Int: out += s.empty() ? std::to_string(i) : s; break;
            case Real:
                if (!s.empty()) { out += s; }
                else { char buf[40]; std::snprintf(buf, sizeof buf, "%.9g", d); out += buf; }
                break;
            case Str: dumps(out, s); break;
            case Arr:
                out += '[';
                for (std::size_t n = 0; n < a.size(); ++n) { if (n) out += ','; a[n].dump(out); }
                out += ']';
                break;
            case Obj:
                out += '{';
                for (std::size_t n = 0; n < o.size(); ++n)
                {
                    if (n) out += ',';
                    dumps(out, o[n].first); out += ':'; o[n].second.dump(out);
                }
                out += '}';
                break;
        }
    }
    std::string str() const { std::string r; dump(r); return r; }

    static void dumps(std::string & out, std::string const & s)
    {
        out += '"';
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\') { out += '\\'; out += c; }
            else if (c < 0x20) { char buf[8]; std::snprintf(buf, sizeof buf, "\\u%04x", c); out += buf; }
            else out += c;
        }
        out += '"';
    }
};

struct Parser
{
    char const * p; char const * e;
    void ws() { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) ++p; }
    [[noreturn]] void bad() { throw std::runtime_error("bad json in scenario"); }
    Value parse()
    {
        ws();
        if (p >= e) bad();
        Value v;
        if (*p == '{')
        {
            v.kind = Value::Obj; ++p; ws();
            if (*p == '}') { ++p; return v; }
            for (;;)
            {
                ws(); Value k = parse(); ws();
                if (*p != ':') bad();
                ++p;
                v.o.emplace_back(k.s, parse());
                ws();
                if (*p == ',') { ++p; continue; }
                if (*p == '}') { ++p; return v; }
                bad();
            }
        }
        if (*p == '[')
        {
            v.kind = Value::Arr; ++p; ws();
            if (*p == ']') { ++p; return v; }
            for (;;)
            {
                v.a.push_back(parse());
                ws();
                if (*p == ',') { ++p; continue; }
                if (*p == ']') { ++p; return v; }
                bad();
            }
        }
        if (*p == '"')
        {
            v.kind = Value::Str; ++p;
            while (p < e && *p != '"')
            {
                if (*p == '\\')
                {
                    ++p;
                    if (*p == 'n') v.s += '\n';
                    else if (*p == 't') v.s += '\t';
                    else if (*p == 'r') v.s += '\r';
                    else if (*p == 'b') v.s += '\b';
                    else if (*p == 'f') v.s += '\f';
                    else if (*p == 'u')
                    {
                        unsigned c = std::strtoul(std::string(p + 1, p + 5).c_str(), nullptr, 16);
                        if (c < 0x80) v.s += (char)c;
                        else if (c < 0x800) { v.s += (char)(0xC0 | (c >> 6)); v.s += (char)(0x80 | (c & 63)); }
                        else { v.s += (char)(0xE0 | (c >> 12)); v.s += (char)(0x80 | ((c >> 6) & 63)); v.s += (char)(0x80 | (c & 63)); }
                        p += 4;
                    }
                    else v.s += *p;
                    ++p;
                }
                else v.s += *p++;
            }
            ++p;
            return v;
        }
        if (*p == 't') { p += 4; v.kind = Value::Bool; v.b = true; return v; }
        if (*p == 'f') { p += 5; v.kind = Value::Bool; return v; }
        if (*p == 'n') { p += 4; return v; }
        char const * q = p;
        bool real = false;
        while (p < e && (*p == '-' || *p == '+' || *p == '.' || *p == 'e' || *p == 'E' || (*p >= '0' && *p <= '9')))
        {
            real = real || *p == '.' || *p == 'e' || *p == 'E';
            ++p;
        }
        if (p == q) bad();
        std::string t(q, p);
        if (real) { v.kind = Value::Real; v.d = std::strtod(t.c_str(), nullptr); v.s = t; }
        else { v.kind = Value::Int; v.i = t[0] == '-' ? std::strtoll(t.c_str(), nullptr, 10) : (long long)std::strtoull(t.c_str(), nullptr, 10); v.s = t; }
        return v;
    }
};

inline Value parse(std::string const & s) { Parser p{s.data(), s.data() + s.size()}; return p.parse(); }

} // namespace mj
