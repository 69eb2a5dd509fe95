From a27a765f52eb11319fc7084280275523959c2080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 01/10] fix: reset clause weights when a weighted estimator is
 fitted again

fit() on an already trained weighted model kept the weights learned
before, as vector::resize() leaves existing elements alone.
---
 lib/src/ta_state.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/ta_state.cpp b/lib/src/ta_state.cpp
index 6ad869c..40076b3 100644
--- a/lib/src/ta_state.cpp
+++ b/lib/src/ta_state.cpp
@@ -65,6 +65,8 @@ TAState::initialize(
 
     std::visit(state_gen, state.matrix);
 
+    state.weights.clear();
+
     if (weighted == true)
     {
         state.weights.resize(value_of(number_of_clause_outputs));
@@ -112,6 +114,8 @@ TAStateWithPolarity::initialize(
 
     std::visit(state_gen, state.matrix);
 
+    state.weights.clear();
+
     if (weighted == true)
     {
         state.weights.resize(value_of(number_of_clause_outputs));
-- 
2.43.0


From 7dea2e043cffde735d6f76142c21a8dc85028118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 02/10] fix: flip polarity in bitwise block2 only when the
 state was incremented

With number_of_states=1 an automaton saturated at state 0 had its
polarity bit flipped although its state did not change.
---
 lib/src/tsetlini_algo_bitwise.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/src/tsetlini_algo_bitwise.hpp b/lib/src/tsetlini_algo_bitwise.hpp
index 1a1c0a6..9f761e2 100644
--- a/lib/src/tsetlini_algo_bitwise.hpp
+++ b/lib/src/tsetlini_algo_bitwise.hpp
@@ -626,13 +626,12 @@ void block2(
                 if (ta_state_pos_j[fidx] < number_of_states - 1)
                 {
                     ta_state_pos_j[fidx]++;
-                }
 
-                if (ta_state_pos_j[fidx] == 0)
-                {
-                    ta_state_pos_polarity_j.flip(fidx); // flip positive clause bit in polarity matrix
+                    if (ta_state_pos_j[fidx] == 0)
+                    {
+                        ta_state_pos_polarity_j.flip(fidx); // flip positive clause bit in polarity matrix
+                    }
                 }
-
             }
             if (cond2_neg)
             {
-- 
2.43.0


From 27a78fef37829275374d9d065d089591e842e841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 03/10] fix: refuse to fit a classifier for a single label

Drawing the opposite label divided by zero (SIGFPE) when both y and
max_number_of_labels provide just one label.
---
 lib/src/tsetlini.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index 37fb452..a986cb4 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -762,6 +762,11 @@ fit_classifier_impl(
         return sm;
     }
 
+    if (number_of_labels < 2)
+    {
+        return {StatusCode::S_VALUE_ERROR, "At least two labels are required to train a classifier"};
+    }
+
     // Let it crash for now
 //    validate_params();
 
-- 
2.43.0


From 12351a72c629b129066dc53b4583ae4cff208470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 04/10] fix: report json parameters of wrong type with
 S_BAD_JSON

make_*_from_json let nlohmann::json type errors escape as exceptions
instead of returning the error side of Either.
---
 lib/src/tsetlini_params.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/src/tsetlini_params.cpp b/lib/src/tsetlini_params.cpp
index 8bda3a9..2f63d6b 100644
--- a/lib/src/tsetlini_params.cpp
+++ b/lib/src/tsetlini_params.cpp
@@ -184,6 +184,24 @@ json_to_params(json const & js)
 }
 
 
+/*
+ * Report values of wrong json type with status, instead of an exception
+ */
+static
+Either<status_message_t, params_t>
+json_to_params_checked(json const & js)
+{
+    try
+    {
+        return json_to_params(js);
+    }
+    catch (const json::exception & ex)
+    {
+        return Either<status_message_t, params_t>::leftOf({S_BAD_JSON, ex.what()});
+    }
+}
+
+
 static
 params_t normalize_n_jobs(params_t params)
 {
@@ -429,7 +447,7 @@ make_classifier_params_from_json(std::string const & json_params)
     auto rv =
         json_parse(json_params)
         .rightFlatMap(assert_json_dictionary)
-        .rightFlatMap(json_to_params)
+        .rightFlatMap(json_to_params_checked)
         .rightMap([](auto p){ return merge(params_t{default_classifier_params}, p); })
         .rightFlatMap(assert_n_jobs)
         .rightFlatMap(assert_number_of_states)
@@ -510,7 +528,7 @@ make_regressor_params_from_json(std::string const & json_params)
     auto rv =
         json_parse(json_params)
         .rightFlatMap(assert_json_dictionary)
-        .rightFlatMap(json_to_params)
+        .rightFlatMap(json_to_params_checked)
         .rightMap([](auto p){ return merge(params_t{default_regressor_params}, p); })
         .rightFlatMap(assert_n_jobs)
         .rightFlatMap(assert_number_of_states)
-- 
2.43.0


From dfab8e3ce2a068551b672e3593edf2db4176eb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 05/10] fix: clamp the binomial approximation before conversion
 to unsigned

Negative variates were converted to unsigned int, and hence clamped to
n instead of 0.
---
 lib/src/box_muller_approx.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/src/box_muller_approx.cpp b/lib/src/box_muller_approx.cpp
index 8bdf71f..ca8ae89 100644
--- a/lib/src/box_muller_approx.cpp
+++ b/lib/src/box_muller_approx.cpp
@@ -98,9 +98,12 @@ static float normal(float mean, float variance, PRNG & irng)
 template<typename PRNG>
 unsigned int binomial(unsigned int n, float p, PRNG & irng)
 {
-    unsigned int const rv = std::round(box_muller::normal(n * p, n * p * (1.f - p), irng));
+    p = std::clamp(p, 0.f, 1.f);
 
-    return std::clamp(rv, 0u, n);
+    float const rv = std::round(box_muller::normal(n * p, n * p * (1.f - p), irng));
+
+    // clamp before conversion, negative values must not become large unsigned ones
+    return rv > 0.f ? (rv < n ? static_cast<unsigned int>(rv) : n) : 0u;
 }
 
 
-- 
2.43.0


From 17fe4251a10d506eccdce6b006d9feb13f2cae52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 06/10] fix: limit regressor feedback count before conversion
 to unsigned

With a large loss_fn_C1 the product exceeded the range of unsigned int
and the number of updates was arbitrary, possibly zero.
---
 lib/src/tsetlini_algo_bitwise.hpp | 2 +-
 lib/src/tsetlini_algo_classic.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/tsetlini_algo_bitwise.hpp b/lib/src/tsetlini_algo_bitwise.hpp
index 9f761e2..7171105 100644
--- a/lib/src/tsetlini_algo_bitwise.hpp
+++ b/lib/src/tsetlini_algo_bitwise.hpp
@@ -1042,7 +1042,7 @@ void train_regressor_automata(
         ? binomial(N, P, prng)
         :
         std::clamp<unsigned int>(
-            N * P >= 0.5 ? std::round(N * P) : prng() < N * P * static_cast<double>(IRNG::max()), // 0xffff'ffff when converted to float changes to 0x1'0000'0000
+            N * P >= 0.5 ? std::round(std::min<real_type>(N * P, N)) : prng() < N * P * static_cast<double>(IRNG::max()), // 0xffff'ffff when converted to float changes to 0x1'0000'0000
             0, N
         );
 
diff --git a/lib/src/tsetlini_algo_classic.hpp b/lib/src/tsetlini_algo_classic.hpp
index 8b1563b..adc0d8e 100644
--- a/lib/src/tsetlini_algo_classic.hpp
+++ b/lib/src/tsetlini_algo_classic.hpp
@@ -784,7 +784,7 @@ void train_regressor_automata(
         ? binomial(N, P, prng)
         :
         std::clamp<unsigned int>(
-            N * P >= 0.5 ? std::round(N * P) : prng() < N * P * static_cast<double>(IRNG::max()), // 0xffff'ffff when converted to float changes to 0x1'0000'0000
+            N * P >= 0.5 ? std::round(std::min<real_type>(N * P, N)) : prng() < N * P * static_cast<double>(IRNG::max()), // 0xffff'ffff when converted to float changes to 0x1'0000'0000
             0, N
         );
 
-- 
2.43.0


From b95828bf0ca006d6eeb06abc20a972e7405272cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 07/10] fix: restore the state of an unfitted estimator from
 json

Reading back a state saved before any fit accessed a nonexistent first
row and required dimensions that are set by fit only.
---
 lib/src/tsetlini_state.cpp      | 12 +++++++++++-
 lib/src/tsetlini_state_json.cpp |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/src/tsetlini_state.cpp b/lib/src/tsetlini_state.cpp
index 7ca7b6d..dfc58c2 100644
--- a/lib/src/tsetlini_state.cpp
+++ b/lib/src/tsetlini_state.cpp
@@ -255,7 +255,17 @@ template void initialize_state<RegressorStateBitwise>(RegressorStateBitwise & st
 template<typename EstimatorStateType>
 void reset_state_cache(EstimatorStateType & state)
 {
-    EstimatorStateType::cache_type::reset(state.cache, state.m_params);
+    auto const is_fitted = std::visit([](auto const & ta_state_values){ return ta_state_values.shape().first != 0; }, state.ta_state.matrix);
+
+    if (not is_fitted)
+    {
+        // number of labels and features is not known yet
+        state.cache = typename EstimatorStateType::cache_type::value_type{};
+    }
+    else
+    {
+        EstimatorStateType::cache_type::reset(state.cache, state.m_params);
+    }
 }
 
 // explicit template instantiations
diff --git a/lib/src/tsetlini_state_json.cpp b/lib/src/tsetlini_state_json.cpp
index 47b92cb..51193aa 100644
--- a/lib/src/tsetlini_state_json.cpp
+++ b/lib/src/tsetlini_state_json.cpp
@@ -101,7 +101,7 @@ static void from_json(json const & j, Tsetlini::ClassifierStateClassic::ta_state
     j.at("width").get_to(width);
 
     auto const nr = j.at("data").size();
-    auto const nc = j.at("data")[0].size();
+    auto const nc = nr != 0 ? j.at("data")[0].size() : 0;
 
     if (width == 1)
     {
-- 
2.43.0


From 8556b76ea6853ab2a3581103be21b1a745c38199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 08/10] fix: validate arguments of evaluate

evaluate() of an untrained model threw, and read out of bounds when X
and y were of different lengths or X did not match the trained model.
---
 lib/src/tsetlini.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index a986cb4..8a3d578 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -396,7 +396,18 @@ evaluate_classifier_impl(
     std::vector<SampleType> const & X,
     label_vector_type const & y)
 {
-    // let it crash - no state validation for now
+    if (auto sm = check_for_predict(state, X);
+        sm.first != StatusCode::S_OK)
+    {
+        return Either<status_message_t, real_type>::leftOf(std::move(sm));
+    }
+
+    if (y.size() != X.size())
+    {
+        return Either<status_message_t, real_type>::leftOf({StatusCode::S_VALUE_ERROR,
+            "X and y must have the same lengths, got " + std::to_string(X.size()) +
+            " and " + std::to_string(y.size())});
+    }
 
     auto const number_of_examples = X.size();
 
-- 
2.43.0


From 9f38e96b7271f3883ccd9dc67e28c4e072d0510b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 09/10] fix: check padding bits of bit vectors with spare
 capacity

The mask was computed with a negative shift when padding spans more
than the last block, and preceding padding bits were not checked.
---
 lib/src/tsetlini.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index 8a3d578..045fbfc 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -70,17 +70,20 @@ bool check_clear_padding(bit_vector<T> const & vec)
 {
     using block_type = typename bit_vector<T>::block_type;
 
-    auto const n_blocks = vec.capacity_blocks();
-    auto const padding_nbits = n_blocks * vec.block_bits - vec.size();
+    auto const n_blocks = vec.content_blocks();
 
-    if (padding_nbits != 0)
+    if (vec.tail_bits() != 0)
     {
-        auto const mask = block_type(-1) << (vec.block_bits - padding_nbits);
+        auto const mask = block_type(-1) << vec.tail_bits();
 
-        return (vec.m_vector.back() & mask) == 0;
+        if ((vec.m_vector[n_blocks - 1] & mask) != 0)
+        {
+            return false;
+        }
     }
 
-    return true;
+    // capacity may exceed what is needed for the content
+    return std::all_of(vec.m_vector.cbegin() + n_blocks, vec.m_vector.cend(), [](block_type v){ return v == 0; });
 }
 
 
-- 
2.43.0


From f5cf2020f99d99546e3d1d324028e5ee21e3f8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:35 +0000
Subject: [PATCH 10/10] fix: feedback probabilities for thresholds of 2^30 and
 more

---
 lib/src/tsetlini_algo_classic.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/src/tsetlini_algo_classic.hpp b/lib/src/tsetlini_algo_classic.hpp
index adc0d8e..47ad7f0 100644
--- a/lib/src/tsetlini_algo_classic.hpp
+++ b/lib/src/tsetlini_algo_classic.hpp
@@ -685,9 +685,11 @@ void calculate_classifier_feedback_to_clauses(
     threshold_t const threshold,
     TFRNG & fgen)
 {
-    const auto THR2_inv = (ONE / (value_of(threshold) * 2));
-    const auto THR_pos = THR2_inv * (value_of(threshold) - target_label_votes);
-    const auto THR_neg = THR2_inv * (value_of(threshold) + opposite_label_votes);
+    // neither doubled threshold nor its distance from the votes has to fit in int
+    std::int64_t const wide_threshold = value_of(threshold);
+    const auto THR2_inv = (ONE / (wide_threshold * 2));
+    const auto THR_pos = THR2_inv * (wide_threshold - target_label_votes);
+    const auto THR_neg = THR2_inv * (wide_threshold + opposite_label_votes);
 
     std::fill(feedback_to_clauses.begin(), feedback_to_clauses.end(), No_Feedback);
 
-- 
2.43.0

