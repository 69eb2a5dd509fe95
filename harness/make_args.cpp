#include "make.hpp"

namespace
{

template<typename E, typename... A>
Made call(A const & ... a)
{
    if constexpr (std::is_same_v<E, T::ClassifierClassic>) return made<E>(T::make_classifier_classic(a...));
    else if constexpr (std::is_same_v<E, T::ClassifierBitwise>) return made<E>(T::make_classifier_bitwise(a...));
    else if constexpr (std::is_same_v<E, T::RegressorClassic>) return made<E>(T::make_regressor_classic(a...));
    else return made<E>(T::make_regressor_bitwise(a...));
}

template<typename E>
Made build(Value const & p, int order)
{
    constexpr bool clf = Traits<E>::clf;
    using CL = std::conditional_t<clf, T::number_of_physical_classifier_clauses_per_label_t, T::number_of_physical_regressor_clauses_t>;
    char const * const cname = clf ? "number_of_clauses_per_label" : "number_of_regressor_clauses";

    auto I = [&](char const * k, long long d) { return (int)(p.has(k) ? p.at(k).num() : d); };
    auto B = [&](char const * k, bool d) { return p.has(k) ? p.at(k).num() != 0 : d; };
    auto R = [&](char const * k, double d) { return (T::real_type)(p.has(k) ? p.at(k).kind == Value::Str ? std::strtod(p.at(k).s.c_str(), nullptr) : p.at(k).real() : d); };
    auto S = [&](char const * k, char const * d) { return p.has(k) ? p.at(k).s : std::string(d); };

    CL const cl{I(cname, clf ? 12 : 20)};
    T::number_of_states_t const ns{I("number_of_states", 100)};
    T::specificity_t const s{R("s", 2.0)};
    T::threshold_t const t{I("threshold", 15)};
    T::weighted_flag_t const w{B("weighted", !clf)};
    T::max_weight_t const mw{I("max_weight", 2147483647)};
    T::boost_tpf_t const bo{B("boost_true_positive_feedback", false)};
    T::number_of_jobs_t const nj{I("n_jobs", -1)};
    T::verbosity_t const vb{B("verbose", false)};
    T::counting_type_t const ct{S("counting_type", "auto")};
    T::clause_output_tile_size_t const ti{I("clause_output_tile_size", 16)};
    T::random_seed_t const rs{(T::seed_type)(p.has("random_state") ? p.at("random_state").num() : 0)};
    T::loss_fn_name_t const lf{S("loss_fn", "MSE")};
    T::loss_fn_C1_t const lc{R("loss_fn_C1", 0.0)};
    T::box_muller_flag_t const bm{B("box_muller", false)};

    std::size_t const n = p.o.size();
    auto const only = [&](char const * k) { return n == 1 && p.o[0].first == k; };
    if (n == 0) return call<E>();
    if (only(cname)) return call<E>(cl);
    if (only("number_of_states")) return call<E>(ns);
    if (only("s")) return call<E>(s);
    if (only("threshold")) return call<E>(t);
    if (only("weighted")) return call<E>(w);
    if (only("max_weight")) return call<E>(mw);
    if (only("boost_true_positive_feedback")) return call<E>(bo);
    if (only("n_jobs")) return call<E>(nj);
    if (only("verbose")) return call<E>(vb);
    if (only("counting_type")) return call<E>(ct);
    if (only("clause_output_tile_size")) return call<E>(ti);
    if (only("random_state")) return call<E>(rs);
    if constexpr (!clf)
    {
        if (only("loss_fn")) return call<E>(lf);
        if (only("loss_fn_C1")) return call<E>(lc);
        if (only("box_muller")) return call<E>(bm);
    }
    bool const seed = p.has("random_state");
    if constexpr (clf)
    {
        if (!seed) return order % 2 ? call<E>(ti, ct, vb, nj, bo, mw, w, t, s, ns, cl) : call<E>(cl, ns, s, t, w, mw, bo, nj, vb, ct, ti);
        if (order == 1) return call<E>(rs, ti, ct, vb, nj, bo, mw, w, t, s, ns, cl);
        if (order == 2) return call<E>(bo, nj, vb, ct, ti, rs, cl, ns, s, t, w, mw);
        return call<E>(cl, ns, s, t, w, mw, bo, nj, vb, ct, ti, rs);
    }
    else
    {
        if (!seed) return order % 2 ? call<E>(bm, lc, lf, ti, ct, vb, nj, bo, mw, w, t, s, ns, cl) : call<E>(cl, ns, s, t, w, mw, bo, nj, vb, ct, ti, lf, lc, bm);
        if (order == 1) return call<E>(rs, bm, lc, lf, ti, ct, vb, nj, bo, mw, w, t, s, ns, cl);
        if (order == 2) return call<E>(bo, nj, vb, ct, ti, lf, lc, bm, rs, cl, ns, s, t, w, mw);
        return call<E>(cl, ns, s, t, w, mw, bo, nj, vb, ct, ti, lf, lc, bm, rs);
    }
}

}

Made make_args(std::string const & est, Value const & p, int order)
{
    if (est == "clf/classic") return build<T::ClassifierClassic>(p, order);
    if (est == "clf/bitwise") return build<T::ClassifierBitwise>(p, order);
    if (est == "reg/classic") return build<T::RegressorClassic>(p, order);
    if (est == "reg/bitwise") return build<T::RegressorBitwise>(p, order);
    throw Bad("unknown estimator " + est);
}
