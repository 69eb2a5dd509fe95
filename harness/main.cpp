// Executes scenarios (JSON lines) against the library and records what happened
// as events (JSON lines), for validation against the TLA+ specification.
//   harness SCENARIOS TRACE
#include "make.hpp"

#include "fork_main.hpp"

#include <atomic>
#include <iostream>
#include <thread>

namespace
{

struct Data { std::vector<Sample> X; std::vector<int> y; };

Sample to_sample(Value const & v)
{
    Sample s;
    if (v.kind == Value::Arr) { s.v = v.vi(); return s; }
    s.v = v.at("v").vi();
    s.pad = v.geti("pad", 0);
    s.cap = (int)v.geti("cap", 0);
    s.cappad = v.geti("cappad", 0);
    return s;
}

std::vector<Sample> to_samples(Value const & v)
{
    std::vector<Sample> r;
    for (auto & x : v.a) r.push_back(to_sample(x));
    return r;
}

long long wsat(long long w) { return w < 0 || w > 2147483647LL ? -1 : w; }

Value rows_value(std::vector<std::vector<int>> const & rows)
{
    Value r = Value::arr();
    for (auto & x : rows) r.a.push_back(Value::ints(x));
    return r;
}

Value weights_value(std::vector<long long> const & w)
{
    Value r = Value::arr();
    for (auto v : w) r.a.push_back(Value::of(wsat(v)));
    return r;
}

struct Runner
{
    FILE * out;
    std::string sid;
    bool dig = false;
    std::map<std::string, std::unique_ptr<Model>> slot;
    std::map<std::string, View> last;
    std::map<std::string, Data> data;

    void emit(Value const & ev)
    {
        std::string s;
        ev.dump(s);
        s += '\n';
        std::fwrite(s.data(), 1, s.size(), out);
        std::fflush(out);
    }

    Model & m(std::string const & k)
    {
        auto it = slot.find(k);
        if (it == slot.end() || !it->second) throw Bad("no model in slot " + k);
        return *it->second;
    }

    static Value digest(Model const & x)
    {
        View v = x.view();
        Value r = Value::obj();
        auto const ps = x.params();
        Fnv f;
        f.s(params_value(ps).str());
        r.put("l", v.learned());
        r.put("g", v.gen);
        r.put("p", f.hex());
        r.put("nr", (long long)v.rows.size());
        r.put("nc", (long long)(v.rows.empty() ? 0 : v.rows[0].size()));
        r.put("nw", (long long)v.w.size());
        r.put("np", (long long)v.pol.size());
        auto geti = [&](char const * k)
        {
            auto it = ps.find(k);
            return it != ps.end() && std::holds_alternative<int>(it->second) ? (long long)std::get<int>(it->second) : -1LL;
        };
        r.put("pl", geti("number_of_labels"));
        r.put("pf", geti("number_of_features"));
        return r;
    }

    void put_state(Value & ev, Model const & x, std::string const & key, bool pol)
    {
        View v = x.view();
        ev.put("rows", rows_value(v.rows));
        ev.put("w", weights_value(v.w));
        ev.put("width", v.width);
        if (pol) ev.put("pol", rows_value(v.pol));
        last[key] = std::move(v);
    }

    // changed rows only, as [row number from 1, new values]; all rows if many changed
    Value delta(Model const & x, std::string const & key, bool pol)
    {
        View v = x.view();
        View & o = last[key];
        Value d = Value::obj();
        Value chg = Value::arr(), pchg = Value::arr();
        auto diff = [](auto const & a, auto const & b, Value & to)
        {
            for (std::size_t r = 0; r < b.size(); ++r)
                if (r >= a.size() || a[r] != b[r])
                {
                    Value p = Value::arr();
                    p.a = {Value::of((long long)r + 1), Value::ints(b[r])};
                    to.a.push_back(p);
                }
        };
        diff(o.rows, v.rows, chg);
        if (pol) diff(o.pol, v.pol, pchg);
        auto put = [&](char const * few, char const * all, Value const & changed, auto const & rows)
        {
            if (changed.a.size() > 300) d.put(all, rows_value(rows));
            else d.put(few, changed);
        };
        d.put("nr", (long long)v.rows.size());
        put("chg", "rows", chg, v.rows);
        d.put("w", weights_value(v.w));
        if (pol) put("pchg", "pol", pchg, v.pol);
        o = std::move(v);
        return d;
    }

    // Lanes of calls, each lane in a thread of its own with models of its own,
    // repeatedly started together; the events of a lane stay in order.
    void par(Value const & op)
    {
        auto const & lanes = op.at("lanes").a;
        std::size_t const n = lanes.size();
        std::vector<Runner> rs(n);
        std::vector<char *> buf(n, nullptr);
        std::vector<std::size_t> len(n, 0);
        std::vector<std::string> failed(n);
        std::size_t longest = 0;
        for (std::size_t i = 0; i < n; ++i)
        {
            rs[i].out = open_memstream(&buf[i], &len[i]);
            rs[i].sid = sid;
            rs[i].dig = dig;
            rs[i].data = data;
            longest = std::max(longest, lanes[i].a.size());
            for (auto & o : lanes[i].a)
                if (slot.count(o.at("m").s)) rs[i].slot[o.at("m").s] = std::move(slot[o.at("m").s]);
        }
        std::atomic<int> at{0};
        auto lane = [&](std::size_t i)
        {
            try
            {
                for (std::size_t k = 0; k < longest; ++k)
                {
                    // all lanes have come as far as this one
                    at.fetch_add(1);
                    while (at.load() < (int)(n * (k + 1))) std::this_thread::yield();
                    if (k < lanes[i].a.size()) rs[i].run(lanes[i].a[k]);
                }
            }
            catch (std::exception const & ex) { failed[i] = ex.what(); at.fetch_add(1 << 20); }
        };
        std::vector<std::thread> th;
        for (std::size_t i = 0; i < n; ++i) th.emplace_back(lane, i);
        for (auto & t : th) t.join();
        for (std::size_t i = 0; i < n; ++i)
        {
            std::fclose(rs[i].out);
            std::fwrite(buf[i], 1, len[i], out);
            for (auto & [k, p] : rs[i].slot) slot[k] = std::move(p);
        }
        std::fflush(out);
        for (auto & f : failed) if (!f.empty()) throw Bad(f);
    }

    void run(Value const & op)
    {
        std::string const kind = op.at("op").s;
        if (kind == "par") { par(op); return; }
        if (kind == "data")
        {
            Data d;
            if (op.has("X")) d.X = to_samples(op.at("X"));
            if (op.has("y")) d.y = op.at("y").vi();
            data[op.at("id").s] = d;
            if (!op.has("emit")) return;
        }
        Value ev = Value::obj();
        ev.put("sid", sid);
        ev.put("ev", kind);
        // data too big to be shown: its dimensions are given
        bool const big = kind == "data" && op.has("F");
        for (auto & [k, v] : op.o)
            if (k != "op" && k != "seeds" && !(big && (k == "X" || k == "y")) && k != "rows" && k != "w" && !(k == "params" && (kind == "inject" || (kind == "make" && op.has("pk"))))) ev.put(k, v);
        try
        {
            exec(kind, op, ev);
        }
        catch (Bad const &) { throw; }
        catch (std::exception const & ex) { ev.put("st", std::string("EXC")); ev.put("what", std::string(ex.what())); }
        catch (...) { ev.put("st", std::string("EXC")); ev.put("what", "unknown"); }
        if (dig)
        {
            Value d = Value::obj();
            for (auto & [k, p] : slot) if (p) d.put(k, digest(*p));
            ev.put("dig", d);
        }
        emit(ev);
    }

    static void pick(Data & d, Value const & op)
    {
        if (!op.has("ix")) return;
        Data r;
        for (int i : op.at("ix").vi())
        {
            r.X.push_back(d.X.at(i));
            if (!d.y.empty()) r.y.push_back(d.y.at(i));
        }
        d = r;
    }

    void exec(std::string const & kind, Value const & op, Value & ev)
    {
        std::string const k = op.gets("m", "a");
        bool const pol = op.geti("pol", 0);
        if (kind == "data") { return; }
        if (kind == "make")
        {
            Made r;
            if (op.has("text")) r = make_json(op.at("est").s, op.at("text").s);
            else if (op.gets("via", "json") == "json") r = make_json(op.at("est").s, op.at("params").str());
            else r = make_args(op.at("est").s, op.at("params"), (int)op.geti("order", 0));
            ev.put("st", r.st);
            if (op.geti("report", 0))
            {
                ev.put("hw", std::to_string(std::max(1u, std::thread::hardware_concurrency())));
                if (r.m) ev.put("rep", params_value(r.m->params()));
            }
            slot[k] = std::move(r.m);
        }
        else if (kind == "inject")
        {
            // a model of the required shape, then the wanted learned state
            auto r = make_json(op.at("est").s, op.at("params").str());
            if (r.st != "OK") throw Bad("inject: cannot make " + r.st);
            int const F = (int)op.at("F").num(), L = (int)op.geti("L", 2);
            Sample z; z.v.assign(F, 0);
            std::vector<int> y(r.m->is_clf() ? L : 1, 0);
            for (std::size_t i = 0; i < y.size(); ++i) y[i] = (int)i;
            std::string const st = r.m->fit(false, std::vector<Sample>(y.size(), z), y, L, 0);
            ev.put("st", st);
            if (st == "OK")
            {
                if (op.has("rows"))
                {
                    std::vector<std::vector<int>> rows;
                    for (auto & x : op.at("rows").a) rows.push_back(x.vi());
                    std::vector<long long> w;
                    if (op.has("w")) for (auto & x : op.at("w").a) w.push_back(x.num());
                    slot[k] = r.m->with(rows, op.has("w") ? &w : nullptr);
                }
                else slot[k] = std::move(r.m);
                put_state(ev, m(k), k, pol);
            }
        }
        else if (kind == "state") { put_state(ev, m(k), k, pol); }
        else if (kind == "step")
        {
            Sample x; x.v = op.at("x").vi();
            ev.put("st", m(k).fit(op.geti("full", 0) == 0, {x}, {(int)op.at("y").num()}, 0, op.geti("ep", 1)));
            ev.put("d", delta(m(k), k, pol));
        }
        else if (kind == "twin")
        {
            Sample x; x.v = op.at("x").vi();
            std::string const b = op.at("b").s;
            int const y = (int)op.at("y").num();
            ev.put("st", m(k).fit(true, {x}, {y}, 0, 1));
            ev.put("stb", m(b).fit(true, {x}, {y}, 0, 1));
            ev.put("d", delta(m(k), k, pol));
            ev.put("db", delta(m(b), b, pol));
        }
        else if (kind == "call")
        {
            Data d;
            if (op.has("d")) { d = data.at(op.at("d").s); pick(d, op); }
            if (op.has("X")) d.X = to_samples(op.at("X"));
            if (op.has("x")) d.X = {to_sample(op.at("x"))};
            if (op.has("y")) d.y = op.at("y").vi();
            std::string const fn = op.at("fn").s;
            Model & x = m(k);
            if (op.geti("track", 0)) { ev.put("before", digest(x)); }
            if (fn == "fit" || fn == "pfit") ev.put("st", x.fit(fn == "pfit", d.X, d.y, op.geti("ml", 0), op.geti("ep", 1)));
            else if (fn == "predict") x.predict1(d.X.at(0), ev);
            else if (fn == "predictN") x.predictN(d.X, ev);
            else if (fn == "dec") x.dec1(d.X.at(0), ev);
            else if (fn == "decN") x.decN(d.X, ev);
            else if (fn == "eval") x.eval(d.X, d.y, ev);
            else if (fn == "params") { ev.put("st", "OK"); ev.put("rep", params_value(x.params())); }
            else if (fn == "save") { ev.put("st", "OK"); Fnv f; f.s(x.save()); ev.put("hash", f.hex()); }
            else if (fn == "copy") { ev.put("st", "OK"); auto c = x.clone(); (void)c; }
            else throw Bad("unknown fn " + fn);
            if (op.geti("track", 0)) { ev.put("after", digest(x)); }
            if (op.geti("log", 0)) put_state(ev, x, k, pol);
        }
        else if (kind == "sweep")
        {
            // every sample alone, in the given order, as predictions or scores
            auto const & d = data.at(op.at("d").s);
            Value r = Value::arr();
            std::string st = "OK";
            std::string const fn = op.at("fn").s;
            for (int i : op.at("ix").vi())
            {
                Value q = Value::obj();
                if (fn == "predict") m(k).predict1(d.X.at(i), q);
                else m(k).dec1(d.X.at(i), q);
                if (q.at("st").s != "OK") st = q.at("st").s;
                r.a.push_back(q.at("r"));
            }
            ev.put("st", st);
            ev.put("r", r);
        }
        else if (kind == "clone") { auto c = m(k).clone(); slot[op.at("to").s] = std::move(c); ev.put("st", "OK"); }
        else if (kind == "clone2") { auto c = m(k).clone2(); slot[op.at("to").s] = std::move(c); ev.put("st", "OK"); }
        else if (kind == "restore")
        {
            // save `m`, restore into a state of the model `over` (default itself) and build a model of it
            auto const text = m(k).save();
            auto c = m(op.gets("over", k)).restore(text);
            ev.put("eq", c->same(m(k)) ? 1 : 0);
            ev.put("txt", c->save() == text ? 1 : 0);
            Value rp = params_value(c->params());
            ev.put("parq", rp.str() == params_value(m(k).params()).str() ? 1 : 0);
            slot[op.at("to").s] = std::move(c);
            ev.put("st", "OK");
        }
        else if (kind == "move") { auto c = m(k).move_ctor(); slot.erase(k); slot[op.at("to").s] = std::move(c); ev.put("st", "OK"); }
        else if (kind == "massign")
        {
            std::string const to = op.at("to").s;
            m(to).move_assign(m(k));
            slot.erase(k);
            ev.put("st", "OK");
        }
        else if (kind == "destroy") { slot.erase(k); ev.put("st", "OK"); }
        else if (kind == "same") { ev.put("eq", m(k).same(m(op.at("b").s)) ? 1 : 0); ev.put("st", "OK"); }
        else if (kind == "variants") { ev.put("r", m(k).variants()); ev.put("st", "OK"); }
        else if (kind == "remake")
        {
            // an untrained model of the parameters reported by another
            Value p = Value::obj();
            for (auto const & [key, v] : m(k).params())
            {
                if (key == "number_of_labels" || key == "number_of_features") continue;
                Value const t = param_value(v);
                if (t.a.at(0).s == "str") { p.put(key, t.a.at(1)); continue; }
                Value q; q.kind = Value::Real; q.s = t.a.at(1).s;
                p.put(key, q);
            }
            auto r = make_json(op.at("est").s, p.str());
            ev.put("st", r.st);
            slot[op.at("to").s] = std::move(r.m);
        }
        else if (kind == "drawn")
        {
            // seeds of models created without one
            Value r = Value::arr();
            std::string st = "OK";
            for (long long i = 0; i < op.at("n").num(); ++i)
            {
                auto d = make_json(op.at("est").s, op.geti("null", 0) ? "{\"random_state\": null}" : "{}");
                if (d.st != "OK") { st = d.st; break; }
                r.a.push_back(param_value(d.m->params().at("random_state")));
            }
            ev.put("st", st);
            ev.put("r", r);
        }
        else if (kind == "starts")
        {
            // untrained states of many seeds: how often each automaton includes,
            // and how often it agrees with the next one and with the previous seed
            std::vector<long long> inc, nxt, lag;
            std::vector<char> last;
            std::string st = "OK";
            for (long long seed : op.at("seeds").vl())
            {
                Value p = op.at("params");
                p.put("random_state", seed);
                auto r = make_json(op.at("est").s, p.str());
                if (r.st != "OK") { st = r.st; break; }
                int const F = (int)op.at("F").num(), L = (int)op.at("L").num();
                Sample z; z.v.assign(F, 0);
                std::vector<int> y(r.m->is_clf() ? L : 1, 0);
                for (std::size_t i = 0; i < y.size(); ++i) y[i] = (int)i;
                st = r.m->fit(false, std::vector<Sample>(y.size(), z), y, 0, 0);
                if (st != "OK") break;
                View const v = r.m->view();
                std::vector<char> now;
                for (auto & row : v.rows) for (int a : row) now.push_back(a >= 0);
                inc.resize(now.size()); nxt.resize(now.size()); lag.resize(now.size());
                for (std::size_t i = 0; i < now.size(); ++i)
                {
                    inc[i] += now[i];
                    nxt[i] += now[i] == now[(i + 1) % now.size()];
                    lag[i] += !last.empty() && last[i] == now[i];
                }
                last = now;
            }
            ev.put("st", st);
            Value a = Value::arr(), b = Value::arr(), c = Value::arr();
            for (std::size_t i = 0; i < inc.size(); ++i)
            {
                a.a.push_back(Value::of(inc[i])); b.a.push_back(Value::of(nxt[i])); c.a.push_back(Value::of(lag[i]));
            }
            ev.put("inc", a); ev.put("nxt", b); ev.put("lag", c);
        }
        else if (kind == "stat") { stat(op, ev); }
        else if (kind == "run")
        {
            // one call: many copies of a sample, many epochs
            std::size_t const n = (std::size_t)op.at("n").num();
            Sample x; x.v = op.at("x").vi();
            ev.put("st", m(k).fit(true, std::vector<Sample>(n, x), std::vector<int>(n, (int)op.at("y").num()), 0, op.at("ep").num()));
            put_state(ev, m(k), k, false);
        }
        else throw Bad("unknown op " + kind);
    }

    // Repeats one training sample from the same learned state with evolving
    // generators and counts what changed.
    void stat(Value const & op, Value & ev)
    {
        std::string const k = op.gets("m", "a");
        Sample x; x.v = op.at("x").vi();
        int const y = (int)op.at("y").num();
        long long const reps = op.at("reps").num();
        Model & base = m(k);
        View const b = base.view();
        std::size_t const nr = b.rows.size(), no = nr / 2, nc = b.rows[0].size();
        std::vector<long long> wch(no), wsum(no), any(no);
        std::vector<std::vector<long long>> down(nr, std::vector<long long>(nc)), up = down;
        int const per = (int)op.geti("per", (long long)no);
        std::vector<long long> lab(no / per);
        // what changed together (independence): clauses, clauses in successive repetitions,
        // the same column of two rows, two columns of one row
        bool const few = no <= 64, cells = op.geti("cells", 0) != 0;
        int const blk = (int)op.geti("blk", 0), lblk = (int)op.geti("lblk", 0);
        std::vector<std::vector<long long>> joint(few ? no : 0, std::vector<long long>(no));
        std::vector<long long> lag(no);
        std::vector<char> before(no);
        std::vector<std::vector<long long>> hit(cells ? nr : 0, std::vector<long long>(nc)), rj(cells ? nr : 0, std::vector<long long>(cells ? nr * nc : 0)), cj(cells ? nr : 0, std::vector<long long>(cells ? nc * nc : 0)),
            clag(cells ? nr : 0, std::vector<long long>(nc));
        std::vector<std::vector<char>> now(cells ? nr : 0, std::vector<char>(nc)), last = now;
        std::unique_ptr<Model> cur = base.clone();
        for (long long i = 0; i < reps; ++i)
        {
            cur = cur->regen(base);
            std::string const st = cur->fit(true, {x}, {y}, 0, 1);
            if (st != "OK") { ev.put("st", st); return; }
            View const v = cur->view();
            std::vector<char> lc(lab.size()), ch(no);
            for (std::size_t o = 0; o < no; ++o)
            {
                bool c = false;
                if (!v.w.empty() && v.w[o] != b.w[o]) { ++wch[o]; wsum[o] += std::llabs(v.w[o] - b.w[o]); c = true; }
                for (std::size_t r = 2 * o; r < 2 * o + 2; ++r)
                    for (std::size_t j = 0; j < nc; ++j)
                    {
                        int const d = v.rows[r][j] - b.rows[r][j];
                        if (d < 0) { down[r][j] -= d; c = true; }
                        if (d > 0) { up[r][j] += d; c = true; }
                    }
                any[o] += c;
                ch[o] = c;
                if (c) lc[o / per] = 1;
            }
            for (std::size_t o = 0; o < no; ++o)
            {
                if (few && ch[o]) for (std::size_t p = o + 1; p < no; ++p) joint[o][p] += ch[p];
                lag[o] += ch[o] && before[o];
            }
            before = ch;
            if (cells)
            {
                for (std::size_t r = 0; r < nr; ++r)
                    for (std::size_t j = 0; j < nc; ++j) now[r][j] = v.rows[r][j] < b.rows[r][j];
                for (std::size_t r = 0; r < nr; ++r)
                    for (std::size_t j = 0; j < nc; ++j)
                    {
                        if (!now[r][j]) continue;
                        ++hit[r][j];
                        clag[r][j] += last[r][j];
                        for (std::size_t q = r + 1; q < nr; ++q) rj[r][q * nc + j] += now[q][j];
                        for (std::size_t k = j + 1; k < nc; ++k) cj[r][j * nc + k] += now[r][k];
                    }
                last = now;
            }
            for (std::size_t l = 0; l < lab.size(); ++l) lab[l] += lc[l];
        }
        ev.put("st", "OK");
        ev.put("wch", Value::ints(wch));
        ev.put("wsum", Value::ints(wsum));
        ev.put("any", Value::ints(any));
        ev.put("lab", Value::ints(sums(lab, lblk)));
        ev.put("lag", Value::ints(lag));
        auto put2 = [&ev](char const * name, std::vector<std::vector<long long>> const & vv, int k)
        {
            Value a = Value::arr();
            for (auto & r : vv) a.a.push_back(Value::ints(sums(r, k)));
            ev.put(name, a);
        };
        put2("joint", joint, 0);
        if (cells) { put2("hit", hit, 0); put2("clag", clag, 0); put2("rj", rj, 0); put2("cj", cj, 0); }
        put2("down", down, blk);
        put2("up", up, blk);
    }

    // sums over runs of k neighbours (0: as it is)
    static std::vector<long long> sums(std::vector<long long> const & v, int k)
    {
        if (k <= 1) return v;
        std::vector<long long> r((v.size() + k - 1) / k);
        for (std::size_t i = 0; i < v.size(); ++i) r[i / k] += v[i];
        return r;
    }
};

} // namespace

int main(int argc, char ** argv)
{
    return fork_main(argc, argv, [](Value const & sc, FILE * out)
    {
        Runner r;
        r.out = out;
        r.sid = sc.at("sid").s;
        r.dig = sc.geti("dig", 0);
        perturb((int)sc.geti("perturb", 0));
        Value b = Value::obj();
        b.put("sid", r.sid);
        b.put("ev", "begin");
        if (sc.has("info")) b.put("info", sc.at("info"));
        r.emit(b);
        for (auto & op : sc.at("ops").a) r.run(op);
    });
}
