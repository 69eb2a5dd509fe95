// Creation of estimators, from named arguments or from JSON text.
#pragma once
#include "model.hpp"

struct Made { std::string st; std::unique_ptr<Model> m; };

template<typename E, typename R>
Made made(R && r)
{
    Made out;
    auto x = std::move(r)
        .leftMap([&](T::status_message_t && sm) { out.st = sm.first == T::S_OK ? "LEFT_OK" : st_name(sm.first); return 0; })
        .rightMap([&](E && e) { out.st = "OK"; out.m.reset(new ModelOf<E>(std::move(e))); return 0; });
    (void)x;
    return out;
}

inline Made make_json(std::string const & est, std::string const & text)
{
    if (est == "clf/classic") return made<T::ClassifierClassic>(T::make_classifier_classic_from_json(text));
    if (est == "clf/bitwise") return made<T::ClassifierBitwise>(T::make_classifier_bitwise_from_json(text));
    if (est == "reg/classic") return made<T::RegressorClassic>(T::make_regressor_classic_from_json(text));
    if (est == "reg/bitwise") return made<T::RegressorBitwise>(T::make_regressor_bitwise_from_json(text));
    throw Bad("unknown estimator " + est);
}

// `order` 0: as declared, 1: reversed, 2: rotated
Made make_args(std::string const & est, Value const & params, int order);
