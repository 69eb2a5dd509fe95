// Uniform, type-erased access to the four estimators of the library.
#pragma once
#include "mjson.hpp"

#include "tsetlini.hpp"
#include "tsetlini_state_json.hpp"
#include "basic_bit_vector_companion.hpp"
#ifndef HARNESS_JSON_VIEW
#include "estimator_state.hpp"
#endif

#include <cstring>
#include <memory>
#include <type_traits>

namespace T = Tsetlini;
using mj::Value;

struct Bad : std::runtime_error { using std::runtime_error::runtime_error; };

inline std::string st_name(T::StatusCode c)
{
    switch (c)
    {
        case T::S_OK: return "OK";
        case T::S_BAD_JSON: return "BAD_JSON";
        case T::S_VALUE_ERROR: return "VALUE_ERROR";
        case T::S_NOT_FITTED_ERROR: return "NOT_FITTED";
    }
    return "UNKNOWN";
}

struct Fnv
{
    std::uint64_t h = 1469598103934665603ull;
    void raw(void const * p, std::size_t n)
    {
        auto q = static_cast<unsigned char const *>(p);
        for (std::size_t i = 0; i < n; ++i) { h ^= q[i]; h *= 1099511628211ull; }
    }
    void u(std::uint64_t v) { raw(&v, sizeof v); }
    void s(std::string const & t) { u(t.size()); raw(t.data(), t.size()); }
    std::string hex() const { char b[20]; std::snprintf(b, sizeof b, "%016llx", (unsigned long long)h); return b; }
};

// Plain view of the learned state.
struct View
{
    std::vector<std::vector<int>> rows;    // 2 rows per clause output: positive, negative literals
    std::vector<std::vector<int>> pol;     // include flags of the bit-packed estimators
    std::vector<long long> w;              // effective weight minus one; empty when unweighted
    int width = 0;                         // bytes per automaton
    std::string gen;                       // digest of the generators
    bool has_pol = false;
    std::string learned() const
    {
        Fnv f;
        f.u(rows.size());
        for (auto & r : rows) { f.u(r.size()); for (int v : r) f.u((std::uint64_t)(std::int64_t)v); }
        f.u(w.size());
        for (auto v : w) f.u((std::uint64_t)v);
        f.u(pol.size());
        for (auto & r : pol) { f.u(r.size()); for (int v : r) f.u((std::uint64_t)v); }
        return f.hex();
    }
};

struct Sample                              // a row as given by a scenario
{
    std::vector<int> v;
    bool pad = false;                      // bit vectors: stray bits behind the last feature
    int cap = 0;                           // bit vectors: additional capacity blocks
    bool cappad = false;                   // ... holding stray bits
};

template<typename S> S make_sample(Sample const & s);

template<>
inline T::aligned_vector_char make_sample<T::aligned_vector_char>(Sample const & s)
{
    return T::aligned_vector_char(s.v.begin(), s.v.end());
}

template<>
inline T::bit_vector_uint64 make_sample<T::bit_vector_uint64>(Sample const & s)
{
    T::bit_vector_uint64::aligned_vector blocks((s.v.size() + 63) / 64 + s.cap);
    for (std::size_t i = 0; i < s.v.size(); ++i)
        if (s.v[i]) blocks[i / 64] |= std::uint64_t{1} << (i % 64);
    if (s.pad)
        for (std::size_t i = s.v.size(); i % 64 != 0; ++i) blocks[i / 64] |= std::uint64_t{1} << (i % 64);
    if (s.cappad)
        for (std::size_t b = (s.v.size() + 63) / 64; b < blocks.size(); ++b) blocks[b] = 5;
    return T::bit_vector_uint64(s.v.size(), std::move(blocks));
}

inline Value param_value(T::param_value_t const & p)
{
    return std::visit([](auto const & v) -> Value
    {
        using X = std::decay_t<decltype(v)>;
        Value r = Value::arr();
        if constexpr (std::is_same_v<X, int>) { r.a = {Value::of("int"), Value::of(std::to_string(v))}; }
        else if constexpr (std::is_same_v<X, T::seed_type>) { r.a = {Value::of("uint"), Value::of(std::to_string(v))}; }
        else if constexpr (std::is_same_v<X, T::real_type>) { char b[40]; std::snprintf(b, sizeof b, "%.9g", v); r.a = {Value::of("real"), Value::of(b)}; }
        else if constexpr (std::is_same_v<X, bool>) { r.a = {Value::of("bool"), Value::of(v ? "true" : "false")}; }
        else if constexpr (std::is_same_v<X, std::string>) { r.a = {Value::of("str"), Value::of(v)}; }
        else { r.a = {Value::of("none"), Value::of("")}; }
        return r;
    }, p);
}

inline Value params_value(T::params_t const & ps)
{
    std::map<std::string, Value> m;
    for (auto & [k, v] : ps) m[k] = param_value(v);
    Value r = Value::obj();
    for (auto & [k, v] : m) r.put(k, v);
    return r;
}

struct Model
{
    virtual ~Model() {}
    virtual bool is_clf() const = 0;
    virtual bool is_bitwise() const = 0;
    virtual std::string fit(bool partial, std::vector<Sample> const & X, std::vector<int> const & y, long long ml, long long ep) = 0;
    // queries put their status and result into the event
    virtual void predict1(Sample const & x, Value & ev) const = 0;
    virtual void predictN(std::vector<Sample> const & X, Value & ev) const = 0;
    virtual void dec1(Sample const & x, Value & ev) const = 0;
    virtual void decN(std::vector<Sample> const & X, Value & ev) const = 0;
    virtual void eval(std::vector<Sample> const & X, std::vector<int> const & y, Value & ev) const = 0;
    virtual T::params_t params() const = 0;
    virtual View view() const = 0;
    virtual std::string save() const = 0;
    virtual std::unique_ptr<Model> restore(std::string const &) const = 0;
    virtual std::unique_ptr<Model> clone() const = 0;
    virtual std::unique_ptr<Model> clone2() const = 0;     // of a copy of a copied state
    virtual std::unique_ptr<Model> move_ctor() = 0;
    virtual void move_assign(Model & from) = 0;
    virtual bool same(Model const & other) const = 0;     // library's own equality of states
    virtual std::unique_ptr<Model> with(std::vector<std::vector<int>> const & rows, std::vector<long long> const * w) const = 0;
    // learned state of `base` with the generators of this model
    virtual std::unique_ptr<Model> regen(Model const & base) const = 0;
    // how the library compares this model with others that differ in one place:
    // [what, times called equal (both ways round), saved text equal]
    virtual Value variants() const = 0;
};

template<typename E> struct Traits;
template<> struct Traits<T::ClassifierClassic> { static constexpr bool clf = true, bw = false; using state = T::ClassifierStateClassic; using sample = T::aligned_vector_char; };
template<> struct Traits<T::ClassifierBitwise> { static constexpr bool clf = true, bw = true; using state = T::ClassifierStateBitwise; using sample = T::bit_vector_uint64; };
template<> struct Traits<T::RegressorClassic> { static constexpr bool clf = false, bw = false; using state = T::RegressorStateClassic; using sample = T::aligned_vector_char; };
template<> struct Traits<T::RegressorBitwise> { static constexpr bool clf = false, bw = true; using state = T::RegressorStateBitwise; using sample = T::bit_vector_uint64; };

template<typename E>
struct ModelOf : Model
{
    using Tr = Traits<E>;
    using State = typename Tr::state;
    using S = typename Tr::sample;
    E e;

    explicit ModelOf(E && x) : e(std::move(x)) {}
    explicit ModelOf(State const & s) : e(s) {}

    bool is_clf() const override { return Tr::clf; }
    bool is_bitwise() const override { return Tr::bw; }

    static std::vector<S> mk(std::vector<Sample> const & X)
    {
        std::vector<S> r;
        for (auto & x : X) r.push_back(make_sample<S>(x));
        return r;
    }
    static bool unchanged(std::vector<S> const & a, std::vector<Sample> const & X)
    {
        auto b = mk(X);
        if (a.size() != b.size()) return false;
        for (std::size_t i = 0; i < a.size(); ++i)
        {
            if constexpr (Tr::bw) { if (a[i].m_vector != b[i].m_vector || a[i].size() != b[i].size()) return false; }
            else { if (a[i] != b[i]) return false; }
        }
        return true;
    }

    std::string fit(bool partial, std::vector<Sample> const & X, std::vector<int> const & y, long long ml, long long ep) override
    {
        auto const d = mk(X);
        auto const yy = y;
        T::status_message_t r{T::S_OK, ""};
        auto const epochs = T::number_of_epochs_t{(unsigned)ep};
        if constexpr (Tr::clf)
        {
            // all four combinations of the optional arguments, in both orders
            auto const m = T::max_number_of_labels_t{(int)ml};
            if (ep < 0 && ml < 0) r = partial ? e.partial_fit(d, yy, T::max_number_of_labels_t{0}) : e.fit(d, yy, T::max_number_of_labels_t{0});
            else if (ep < 0) r = partial ? e.partial_fit(d, yy, m) : e.fit(d, yy, m);
            else if (ep % 2) r = partial ? e.partial_fit(d, yy, m, epochs) : e.fit(d, yy, m, epochs);
            else r = partial ? e.partial_fit(d, yy, epochs, m) : e.fit(d, yy, epochs, m);
        }
        else
        {
            if (ep < 0) r = partial ? e.partial_fit(d, yy) : e.fit(d, yy);
            else r = partial ? e.partial_fit(d, yy, epochs) : e.fit(d, yy, epochs);
        }
        if (!unchanged(d, X)) return "DATA_MODIFIED";
        return st_name(r.first);
    }

    template<typename R, typename F>
    static void fin(R && r, Value & ev, F f)
    {
        std::string st = "OK";
        Value v = Value::arr();
        // a call that is refused must say so through the left side
        r.join(
            [&](T::status_message_t const & sm) { st = sm.first == T::S_OK ? "LEFT_OK" : st_name(sm.first); return 0; },
            [&](auto const & x) { v = f(x); return 0; });
        ev.put("st", st);
        ev.put("r", v);
    }

    void predict1(Sample const & x, Value & ev) const override { fin(e.predict(make_sample<S>(x)), ev, [](auto const & v) { return Value::of((int)v); }); }
    void predictN(std::vector<Sample> const & X, Value & ev) const override { fin(e.predict(mk(X)), ev, [](auto const & v) { return Value::ints(v); }); }
    void dec1(Sample const & x, Value & ev) const override
    {
        if constexpr (Tr::clf) fin(e.decision_function(make_sample<S>(x)), ev, [](auto const & v) { return Value::ints(v); });
        else predict1(x, ev);
    }
    void decN(std::vector<Sample> const & X, Value & ev) const override
    {
        if constexpr (Tr::clf)
            fin(e.decision_function(mk(X)), ev, [](auto const & v) { Value r = Value::arr(); for (auto & q : v) r.a.push_back(Value::ints(q)); return r; });
        else predictN(X, ev);
    }
    void eval(std::vector<Sample> const & X, std::vector<int> const & y, Value & ev) const override
    {
        if constexpr (Tr::clf)
            fin(e.evaluate(mk(X), y), ev, [&](float v) { return Value::of((long long)std::llround((double)v * (double)X.size() * 1000.)); });
        else predictN(X, ev);
    }
    T::params_t params() const override { return e.read_params(); }

    static std::unique_ptr<Model> up(State const & s) { return std::unique_ptr<Model>(new ModelOf<E>(s)); }

    std::string save() const override { return T::to_json_string(*e.clone_state()); }
    std::unique_ptr<Model> restore(std::string const & text) const override
    {
        // restore over an unrelated state, as an application would
        auto st = e.clone_state();
        T::from_json_string(*st, text);
        return up(*st);
    }
    std::unique_ptr<Model> clone() const override { return up(*e.clone_state()); }
    std::unique_ptr<Model> clone2() const override
    {
        E tmp(*e.clone_state());
        return up(*tmp.clone_state());
    }
    std::unique_ptr<Model> move_ctor() override { return std::unique_ptr<Model>(new ModelOf<E>(E(std::move(e)))); }
    void move_assign(Model & from) override { e = std::move(dynamic_cast<ModelOf<E> &>(from).e); }
    bool same(Model const & other) const override { return equal(*e.clone_state(), *dynamic_cast<ModelOf<E> const &>(other).e.clone_state()); }

#ifndef HARNESS_JSON_VIEW
    View view() const override
    {
        auto const sp = e.clone_state();
        State const & s = *sp;
        View v;
        std::visit([&](auto const & m)
        {
            v.width = sizeof (typename std::decay_t<decltype(m)>::value_type);
            auto const [nr, nc] = m.shape();
            v.rows.resize(nr);
            for (std::size_t r = 0; r < nr; ++r) v.rows[r].assign(m.row_data(r), m.row_data(r) + nc);
            if constexpr (Tr::bw)
            {
                v.has_pol = true;
                v.pol.resize(nr);
                for (std::size_t r = 0; r < nr; ++r) { v.pol[r].resize(nc); for (std::size_t c = 0; c < nc; ++c) v.pol[r][c] = s.ta_state.polarity.test(r, c); }
            }
        }, s.ta_state.matrix);
        v.w.assign(s.ta_state.weights.begin(), s.ta_state.weights.end());
        Fnv f;
        auto gen = [&](auto const & g)
        {
            f.u(g.index);
            auto const n = std::decay_t<decltype(g)>::MTSZ * std::decay_t<decltype(g)>::NS;
            f.raw(g.RESp(), n * sizeof (*g.RESp()));
            f.raw(g.MTp(), n * sizeof (*g.MTp()));
        };
        gen(s.igen);
        gen(s.fgen);
        v.gen = f.hex();
        return v;
    }
    std::unique_ptr<Model> with(std::vector<std::vector<int>> const & rows, std::vector<long long> const * w) const override
    {
        auto sp = e.clone_state();
        State & s = *sp;
        std::visit([&](auto & m)
        {
            auto const [nr, nc] = m.shape();
            if (nr != rows.size() || nc != rows.at(0).size()) throw Bad("inject: shape " + std::to_string(nr) + "x" + std::to_string(nc));
            for (std::size_t r = 0; r < nr; ++r)
                for (std::size_t c = 0; c < nc; ++c)
                {
                    m.row_data(r)[c] = rows[r][c];
                    if (m.row_data(r)[c] != rows[r][c]) throw Bad("inject: counter too narrow");
                    if constexpr (Tr::bw) { if (rows[r][c] >= 0) s.ta_state.polarity.set(r, c); else s.ta_state.polarity.clear(r, c); }
                }
        }, s.ta_state.matrix);
        if (w)
        {
            if (s.ta_state.weights.size() != w->size()) throw Bad("inject: weights");
            std::copy(w->begin(), w->end(), s.ta_state.weights.begin());
        }
        return up(s);
    }
    Value variants() const override
    {
        Value r = Value::arr();
        auto const base = e.clone_state();
        auto const text = T::to_json_string(*base);
        auto put = [&](std::string const & what, State const & s)
        {
            Value v = Value::arr();
            v.a = {Value::of(what), Value::of((long long)(equal(s, *base) ? 1 : 0) + (equal(*base, s) ? 1 : 0)), Value::of((long long)(T::to_json_string(s) == text ? 1 : 0))};
            r.a.push_back(v);
        };
        { auto s = e.clone_state(); put("copy", *s); }
        auto some = [](std::size_t n)
        {
            std::vector<std::size_t> k;
            for (std::size_t i = 0; i < n; i += std::max<std::size_t>(1, n / 7)) k.push_back(i);
            if (n && k.back() != n - 1) k.push_back(n - 1);
            return k;
        };
        std::size_t nr = 0, nc = 0;
        std::visit([&](auto const & m) { nr = m.shape().first; nc = m.shape().second; }, base->ta_state.matrix);
        for (auto i : some(nr * nc))
        {
            auto s = e.clone_state();
            std::visit([&](auto & m)
            {
                auto & v = m.row_data(i / nc)[i % nc];
                v += v < 0 ? 1 : -1;
                if constexpr (Tr::bw) { if (v >= 0) s->ta_state.polarity.set(i / nc, i % nc); else s->ta_state.polarity.clear(i / nc, i % nc); }
            }, s->ta_state.matrix);
            put("automaton", *s);
        }
        for (auto i : some(base->ta_state.weights.size()))
        {
            auto s = e.clone_state();
            s->ta_state.weights[i] += s->ta_state.weights[i] > 0 ? -1 : 1;
            put("weight", *s);
        }
        { auto s = e.clone_state(); s->igen.next(); put("igen", *s); }
        { auto s = e.clone_state(); s->fgen.next(); put("fgen", *s); }
        for (auto const & [k, p] : base->m_params)
        {
            auto s = e.clone_state();
            std::visit([](auto & v)
            {
                using X = std::decay_t<decltype(v)>;
                if constexpr (std::is_same_v<X, bool>) v = !v;
                else if constexpr (std::is_same_v<X, int>) v += v > 0 ? -1 : 1;
                else if constexpr (std::is_same_v<X, T::seed_type>) v ^= 1;
                else if constexpr (std::is_same_v<X, T::real_type>) v += T::real_type(.5);
                else if constexpr (std::is_same_v<X, std::string>) v += "x";
            }, s->m_params[k]);
            if (!std::holds_alternative<T::none_type>(p)) put("parameter " + k, *s);
        }
        return r;
    }
    std::unique_ptr<Model> regen(Model const & base) const override
    {
        auto sp = dynamic_cast<ModelOf<E> const &>(base).e.clone_state();
        auto mine = e.clone_state();
        sp->igen = mine->igen;
        sp->fgen = mine->fgen;
        return up(*sp);
    }
#else
    // Fallback used when the private state headers have changed shape: the same
    // view and injection through the saved form of the model.
    View view() const override
    {
        View v;
        auto j = mj::parse(save());
        auto const & m = j.at("ta_state").at("matrix");
        v.width = (int)m.at("width").num();
        for (auto & r : m.at("data").a) v.rows.push_back(r.vi());
        for (auto & x : j.at("ta_state").at("weights").a) v.w.push_back(x.num());
        if (Tr::bw)
        {
            v.has_pol = true;
            auto const nc = v.rows.empty() ? 0 : v.rows[0].size();
            auto const & d = j.at("ta_state").at("polarity").at("data").a;
            auto const per = v.rows.empty() ? 0 : d.size() / v.rows.size();
            for (std::size_t r = 0; r < v.rows.size(); ++r)
            {
                v.pol.emplace_back(nc);
                for (std::size_t c = 0; c < nc; ++c) v.pol[r][c] = ((std::uint64_t)d[r * per + c / 64].num() >> (c % 64)) & 1;
            }
        }
        Fnv f;
        f.s(j.at("igen").str());
        f.s(j.at("fgen").str());
        v.gen = f.hex();
        return v;
    }
    std::unique_ptr<Model> with(std::vector<std::vector<int>> const & rows, std::vector<long long> const * w) const override
    {
        auto j = mj::parse(save());
        auto ta = j.at("ta_state");
        auto m = ta.at("matrix");
        Value d = Value::arr();
        for (auto & r : rows) d.a.push_back(Value::ints(r));
        m.put("data", d);
        ta.put("matrix", m);
        if (w) ta.put("weights", Value::ints(*w));
        if (Tr::bw)
        {
            auto p = ta.at("polarity");
            auto q = p.at("data");
            auto const per = q.a.size() / rows.size();
            for (std::size_t r = 0; r < rows.size(); ++r)
                for (std::size_t b = 0; b < per; ++b)
                {
                    std::uint64_t x = 0;
                    for (std::size_t c = b * 64; c < rows[r].size() && c < b * 64 + 64; ++c) x |= std::uint64_t{rows[r][c] >= 0} << (c % 64);
                    q.a[r * per + b] = Value(); q.a[r * per + b].kind = Value::Real; q.a[r * per + b].s = std::to_string(x);
                }
            p.put("data", q);
            ta.put("polarity", p);
        }
        j.put("ta_state", ta);
        return restore(j.str());
    }
    Value variants() const override { return Value::arr(); }
    std::unique_ptr<Model> regen(Model const & base) const override
    {
        auto j = mj::parse(base.save());
        auto mine = mj::parse(save());
        j.put("igen", mine.at("igen"));
        j.put("fgen", mine.at("fgen"));
        return restore(j.str());
    }
#endif
};
