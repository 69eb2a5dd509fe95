// Drives the containers of the library: every operation is followed by reading
// all live containers in every way there is; only what changed is recorded.
#include "fork_main.hpp"

#include "basic_bit_matrix.hpp"
#include "basic_bit_vector.hpp"
#include "basic_bit_vector_companion.hpp"
#include "basic_numeric_matrix.hpp"

#include <functional>
#include <list>
#include <memory>
#include <type_traits>

using mj::Value;

namespace
{

struct Look
{
    std::vector<long long> cells;
    long long disagree = 0;      // positions for which two ways of reading differ
    long long stray = 0;         // non-zero storage outside the positions
    long long misaligned = 0;    // rows that do not start at the alignment
};

struct Cont
{
    virtual ~Cont() {}
    virtual Look look() = 0;
    virtual Value dims() = 0;
    virtual void write(std::string const & how, long long r, long long c, long long v) = 0;
    virtual std::unique_ptr<Cont> copy() = 0;
    virtual std::unique_ptr<Cont> move() = 0;
    virtual void assign(Cont & from) = 0;
    virtual void massign(Cont & from) = 0;
    virtual int same(Cont & other) = 0;
};

[[noreturn]] void bad(std::string const & s) { throw std::runtime_error("bad operation " + s); }

template<typename B, unsigned A>
struct BV : Cont
{
    using T = basic_bit_vector<B, A>;
    T o;
    explicit BV(T && t) : o(std::move(t)) {}
    explicit BV(T const & t) : o(t) {}

    Look look() override
    {
        Look k;
        auto const & co = o;
        std::size_t const n = co.size(), bb = sizeof(B) * 8;
        for (std::size_t i = 0; i < n; ++i)
        {
            long long const a = co[i];
            k.cells.push_back(a);
            long long const raw = (co.data()[i / bb] >> (i % bb)) & 1;
            k.disagree += a != raw;
        }
        for (std::size_t b = 0; b < co.capacity_blocks(); ++b)
            for (std::size_t i = 0; i < bb; ++i)
                if (b * bb + i >= n) k.stray += (co.data()[b] >> i) & 1;
        k.misaligned = n > 0 && (std::uintptr_t)co.data() % A != 0;
        return k;
    }
    Value dims() override
    {
        Value d = Value::obj();
        d.put("r", 1);
        d.put("c", (long long)o.size());
        d.put("blocks", (long long)o.content_blocks());
        d.put("tail", (long long)o.tail_bits());
        d.put("cap", (long long)o.capacity_blocks());
        return d;
    }
    void write(std::string const & how, long long, long long c, long long v) override
    {
        if (how == "set") o.set(c);
        else if (how == "clear") o.clear(c);
        else if (how == "flip") o.flip(c);
        else if (how == "assign") o.assign(c, v);
        else if (how == "exor") o.XOR(c, v);
        else bad(how);
    }
    std::unique_ptr<Cont> copy() override { return std::make_unique<BV>(static_cast<T const &>(o)); }
    std::unique_ptr<Cont> move() override { return std::make_unique<BV>(std::move(o)); }
    void assign(Cont & f) override { o = static_cast<T const &>(dynamic_cast<BV &>(f).o); }
    void massign(Cont & f) override { o = std::move(dynamic_cast<BV &>(f).o); }
    int same(Cont &) override { bad("=="); }
};

template<typename B, unsigned A>
struct BM : Cont
{
    using T = basic_bit_matrix<B, A>;
    T o;
    // a view of each row, taken when the matrix was made
    std::vector<typename T::bit_view> views;
    explicit BM(T && t) : o(std::move(t)) { take(); }
    explicit BM(T const & t) : o(t) { take(); }
    void take()
    {
        views.clear();
        for (std::size_t r = 0; r < o.rows(); ++r) views.push_back(o.row(r));
    }

    Look look() override
    {
        Look k;
        T const & co = o;
        std::size_t const nr = co.rows(), n = co.cols(), bb = sizeof(B) * 8;
        for (std::size_t r = 0; r < nr; ++r)
        {
            auto v1 = o.row(r);
            auto v2 = o[r];
            auto const & v3 = views.at(r);
            B const * raw = co.row_data(r);
            k.misaligned += n > 0 && (std::uintptr_t)raw % A != 0;
            k.disagree += v1.content_blocks() != (n + bb - 1) / bb || v1.tail_bits() != n % bb || (B const *)v1.data() != raw;
            for (std::size_t c = 0; c < n; ++c)
            {
                long long const a = co.test(r, c);
                k.cells.push_back(a);
                k.disagree += a != (long long)co[std::pair<std::size_t, std::size_t>(r, c)] || a != (long long)v1.test(c) || a != (long long)v2[c] ||
                    a != (long long)v3.test(c) || a != (long long)((raw[c / bb] >> (c % bb)) & 1);
            }
            for (std::size_t c = n; c < co.row_blocks() * bb; ++c) k.stray += (raw[c / bb] >> (c % bb)) & 1;
        }
        return k;
    }
    Value dims() override
    {
        Value d = Value::obj();
        auto const sh = o.shape();
        d.put("r", (long long)o.rows());
        d.put("c", (long long)o.cols());
        d.put("shape", (sh.first == o.rows() && sh.second == o.cols()) ? 1 : 0);
        d.put("rb", (long long)o.row_blocks());
        return d;
    }
    void write(std::string const & how, long long r, long long c, long long) override
    {
        if (how == "set") o.set(r, c);
        else if (how == "clear") o.clear(r, c);
        else if (how == "flip") o.flip(r, c);
        else if (how == "rset") o.row(r).set(c);
        else if (how == "rclear") o[r].clear(c);
        else if (how == "rflip") o[r].flip(c);
        else if (how == "vset") views.at(r).set(c);
        else if (how == "vclear") views.at(r).clear(c);
        else if (how == "vflip") views.at(r).flip(c);
        else bad(how);
    }
    std::unique_ptr<Cont> copy() override { return std::make_unique<BM>(static_cast<T const &>(o)); }
    std::unique_ptr<Cont> move() override { return std::make_unique<BM>(std::move(o)); }
    void assign(Cont & f) override { o = static_cast<T const &>(dynamic_cast<BM &>(f).o); take(); }
    void massign(Cont & f) override { o = std::move(dynamic_cast<BM &>(f).o); take(); }
    int same(Cont & f) override { return o == dynamic_cast<BM &>(f).o; }
};

template<typename B, unsigned A>
struct NM : Cont
{
    using T = basic_numeric_matrix<B, A>;
    T o;
    explicit NM(T && t) : o(std::move(t)) {}
    explicit NM(T const & t) : o(t) {}

    Look look() override
    {
        Look k;
        T const & co = o;
        std::size_t const nr = co.rows(), n = co.cols(), ri = co.row_items();
        for (std::size_t r = 0; r < nr; ++r)
        {
            B const * raw = co.row_data(r);
            B * raw2 = o.row_data(r);
            k.misaligned += n > 0 && (std::uintptr_t)raw % A != 0;
            k.disagree += raw != raw2 || o.data() + r * ri != raw;
            for (std::size_t c = 0; c < n; ++c)
            {
                long long const a = co[std::pair<std::size_t, std::size_t>(r, c)];
                k.cells.push_back(a);
                k.disagree += a != (long long)raw[c] || a != (long long)raw2[c] || a != (long long)co.data()[r * ri + c];
            }
            for (std::size_t c = n; c < ri; ++c) k.stray += raw[c] != 0;
        }
        return k;
    }
    Value dims() override
    {
        Value d = Value::obj();
        auto const sh = o.shape();
        d.put("r", (long long)o.rows());
        d.put("c", (long long)o.cols());
        d.put("shape", (sh.first == o.rows() && sh.second == o.cols()) ? 1 : 0);
        d.put("rb", (long long)o.row_items());
        return d;
    }
    void write(std::string const & how, long long r, long long c, long long v) override
    {
        if (how == "put") o.row_data(r)[c] = (B)v;
        else if (how == "dput") o.data()[o.row_offset(r) + c] = (B)v;
        else bad(how);
    }
    std::unique_ptr<Cont> copy() override { return std::make_unique<NM>(static_cast<T const &>(o)); }
    std::unique_ptr<Cont> move() override { return std::make_unique<NM>(std::move(o)); }
    void assign(Cont & f) override { o = static_cast<T const &>(dynamic_cast<NM &>(f).o); }
    void massign(Cont & f) override { o = std::move(dynamic_cast<NM &>(f).o); }
    int same(Cont & f) override { return static_cast<T const &>(o) == dynamic_cast<NM &>(f).o; }
};

template<typename B, unsigned A>
std::unique_ptr<Cont> make_bv(Value const & op)
{
    using T = basic_bit_vector<B, A>;
    std::string const via = op.gets("via", "size");
    long long const n = op.geti("c", 0);
    if (via == "none") return std::make_unique<BV<B, A>>(T());
    if (via == "size") return std::make_unique<BV<B, A>>(T((std::size_t)n));
    if (via == "blocks")
    {
        // clean blocks, more or fewer than needed, with the given positions set
        typename T::aligned_vector v((std::size_t)op.at("blocks").num());
        for (auto & p : op.at("ones").a) v.at(p.num() / (sizeof(B) * 8)) |= (B)((B)1 << (p.num() % (sizeof(B) * 8)));
        return std::make_unique<BV<B, A>>(T((std::size_t)n, std::move(v)));
    }
    auto const vals = op.at("vals").vi();
    if (via == "range") return std::make_unique<BV<B, A>>(basic_bit_vectors::from_range<B, std::vector<int>::const_iterator, A>(vals.begin(), vals.end()));
    if (via == "bools")
    {
        std::vector<bool> b(vals.begin(), vals.end());
        return std::make_unique<BV<B, A>>(basic_bit_vectors::from_range<B, std::vector<bool>::const_iterator, A>(b.begin(), b.end()));
    }
    if (via == "list")
    {
        std::list<signed char> b(vals.begin(), vals.end());
        return std::make_unique<BV<B, A>>(basic_bit_vectors::from_range<B, std::list<signed char>::const_iterator, A>(b.begin(), b.end()));
    }
    bad(via);
}

template<typename B, unsigned A>
std::unique_ptr<Cont> make_bm(Value const & op)
{
    using T = basic_bit_matrix<B, A>;
    if (op.gets("via", "size") == "none") return std::make_unique<BM<B, A>>(T());
    return std::make_unique<BM<B, A>>(T((unsigned)op.geti("r", 0), (unsigned)op.geti("c", 0)));
}

template<typename B, unsigned A>
std::unique_ptr<Cont> make_nm(Value const & op)
{
    using T = basic_numeric_matrix<B, A>;
    if (op.gets("via", "size") == "none") return std::make_unique<NM<B, A>>(T());
    return std::make_unique<NM<B, A>>(T((unsigned)op.geti("r", 0), (unsigned)op.geti("c", 0)));
}

using Maker = std::function<std::unique_ptr<Cont>(Value const &)>;

std::map<std::string, Maker> makers()
{
    std::map<std::string, Maker> m;
    m["bv8a64"] = make_bv<std::uint8_t, 64>;
    m["bv16a64"] = make_bv<std::uint16_t, 64>;
    m["bv32a64"] = make_bv<std::uint32_t, 64>;
    m["bv64a64"] = make_bv<std::uint64_t, 64>;
    m["bv8a8"] = make_bv<std::uint8_t, 8>;
    m["bv16a16"] = make_bv<std::uint16_t, 16>;
    m["bv32a32"] = make_bv<std::uint32_t, 32>;
    m["bv64a8"] = make_bv<std::uint64_t, 8>;
    m["bm8a64"] = make_bm<std::uint8_t, 64>;
    m["bm16a64"] = make_bm<std::uint16_t, 64>;
    m["bm32a64"] = make_bm<std::uint32_t, 64>;
    m["bm64a64"] = make_bm<std::uint64_t, 64>;
    m["bm8a8"] = make_bm<std::uint8_t, 8>;
    m["bm16a16"] = make_bm<std::uint16_t, 16>;
    m["bm32a32"] = make_bm<std::uint32_t, 32>;
    m["bm64a8"] = make_bm<std::uint64_t, 8>;
    m["nm8a64"] = make_nm<std::int8_t, 64>;
    m["nm16a64"] = make_nm<std::int16_t, 64>;
    m["nm32a64"] = make_nm<std::int32_t, 64>;
    m["nm8a8"] = make_nm<std::int8_t, 8>;
    m["nm16a16"] = make_nm<std::int16_t, 16>;
    m["nm32a32"] = make_nm<std::int32_t, 32>;
    return m;
}

struct Runner
{
    FILE * out;
    std::string sid;
    std::map<std::string, std::unique_ptr<Cont>> slot;
    std::map<std::string, std::vector<long long>> last;
    std::map<std::string, Maker> mk = makers();

    void emit(Value const & ev)
    {
        std::string s;
        ev.dump(s);
        s += '\n';
        std::fwrite(s.data(), 1, s.size(), out);
        std::fflush(out);
    }

    Cont & at(std::string const & k)
    {
        auto it = slot.find(k);
        if (it == slot.end()) bad("no container " + k);
        return *it->second;
    }

    static Value entry(std::string const & k, std::size_t p, long long v)
    {
        Value e = Value::arr();
        e.a = {Value::of(k), Value::of((long long)p + 1), Value::of(v)};
        return e;
    }

    // what changed anywhere; slot `fresh` is reported in full
    Value changes(long long & wrong, std::string const & fresh, Value * full)
    {
        Value chg = Value::arr();
        for (auto & [k, c] : slot)
        {
            Look const n = c->look();
            wrong += n.disagree + n.stray + n.misaligned;
            auto & o = last[k];
            if (k == fresh) { if (full) *full = Value::ints(n.cells); }
            else
            {
                for (std::size_t i = 0; i < std::max(n.cells.size(), o.size()); ++i)
                {
                    if (i >= n.cells.size() || i >= o.size()) { chg.a.push_back(entry(k, i, -999)); break; }
                    if (n.cells[i] != o[i]) chg.a.push_back(entry(k, i, n.cells[i]));
                }
            }
            o = n.cells;
        }
        return chg;
    }

    void run(Value const & op)
    {
        std::string const kind = op.at("op").s;
        Value ev = Value::obj();
        ev.put("sid", sid);
        ev.put("ev", kind);
        for (auto & [k, v] : op.o) if (k != "op") ev.put(k, v);
        std::string const a = op.gets("a", "a");
        long long wrong = 0;
        if (kind == "writes")
        {
            Value res = Value::arr();
            for (auto & w : op.at("w").a)
            {
                at(a).write(w.a[0].s, w.a[1].num(), w.a[2].num(), w.a[3].num());
                res.a.push_back(changes(wrong, "", nullptr));
            }
            ev.put("res", res);
        }
        else
        {
            std::string fresh;
            std::string const b = op.gets("b", "");
            if (kind == "make") { slot[a] = mk.at(op.at("t").s)(op); fresh = a; }
            else if (kind == "copy") { auto c = at(b).copy(); slot[a] = std::move(c); fresh = a; }
            else if (kind == "move") { auto c = at(b).move(); slot.erase(b); slot[a] = std::move(c); fresh = a; }
            else if (kind == "assign") { at(a).assign(at(b)); fresh = a; }
            else if (kind == "massign") { at(a).massign(at(b)); slot.erase(b); fresh = a; }
            // the source of a move may be assigned to
            else if (kind == "reuse")
            {
                auto c = at(b).move();
                at(b).assign(*c);
                slot[a] = std::move(c);
                fresh = a;
            }
            else if (kind == "drop") slot.erase(a);
            else if (kind == "eq") ev.put("eq", at(a).same(at(b)));
            else bad(kind);
            Value full = Value::arr();
            ev.put("chg", changes(wrong, fresh, &full));
            if (!fresh.empty()) { ev.put("cells", full); ev.put("dims", at(fresh).dims()); }
        }
        ev.put("wrong", wrong);
        emit(ev);
    }
};

} // namespace

int main(int argc, char ** argv)
{
    return fork_main(argc, argv, [](Value const & sc, FILE * out)
    {
        Runner r;
        r.out = out;
        r.sid = sc.at("sid").s;
        perturb((int)sc.geti("perturb", 0));
        Value b = Value::obj();
        b.put("sid", r.sid);
        b.put("ev", "begin");
        r.emit(b);
        for (auto & op : sc.at("ops").a) r.run(op);
    });
}
