From 9dcdabe3c1629f42a24b12965ed0b4286077d5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:21 +0000
Subject: [PATCH 01/22] fix: initialise the kernel thread safety level and
 restore it when loading

---
 include/dcgp/kernel.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/kernel.hpp b/include/dcgp/kernel.hpp
index cdc2164..62a726e 100644
--- a/include/dcgp/kernel.hpp
+++ b/include/dcgp/kernel.hpp
@@ -157,6 +157,9 @@ public:
         ar &m_f;
         ar &m_pf;
         ar &m_name;
+        if constexpr (Archive::is_loading::value) {
+            m_thread_safety = std::min(m_f.get_thread_safety(), m_pf.get_thread_safety());
+        }
     }
 
 private:
@@ -167,7 +170,7 @@ private:
     /// Its name
     std::string m_name;
     // Thread safety.
-    pagmo::thread_safety m_thread_safety;
+    pagmo::thread_safety m_thread_safety = pagmo::thread_safety::basic;
 };
 
 } // end of namespace dcgp
-- 
2.43.0


From 5818aaeece17576d95d8cec85bf9f7f1261219cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:38 +0000
Subject: [PATCH 02/22] fix: reject chromosomes containing NaN

---
 include/dcgp/expression.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index f684e92..9e08d0c 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -1107,7 +1107,8 @@ private:
         auto lb_iter = m_lb.begin();
         auto ub_iter = m_ub.begin();
         while (begin != end) {
-            if ((*begin > *ub_iter) || (*begin < *lb_iter)) {
+            // Negated so that values that do not compare (NaN) are out of bounds too.
+            if (!(*begin <= *ub_iter && *begin >= *lb_iter)) {
                 throw std::invalid_argument("Inconsistent chromosome: out of bounds. A component of the chromosome is "
                                             + std::to_string(*begin) + " while the bounds are: ["
                                             + std::to_string(*lb_iter) + " " + ", " + std::to_string(*ub_iter) + "]");
-- 
2.43.0


From 92ea1d368c772347240b5da271534efd2dc4851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:38 +0000
Subject: [PATCH 03/22] fix: a rejected mutation of a list of genes leaves the
 expression unchanged

---
 include/dcgp/expression.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index 9e08d0c..177204e 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -677,11 +677,12 @@ public:
      */
     void mutate(std::vector<unsigned> idxs)
     {
+        // All indices are checked before the first gene is touched.
+        if (std::any_of(idxs.begin(), idxs.end(), [this](unsigned idx) { return idx >= m_x.size(); })) {
+            throw std::invalid_argument("idx of gene to be mutated is out of bounds");
+        }
         bool flag = false;
         for (auto i = 0u; i < idxs.size(); ++i) {
-            if (idxs[i] >= m_x.size()) {
-                throw std::invalid_argument("idx of gene to be mutated is out of bounds");
-            }
             // If only one value is allowed for the gene, (lb==ub),
             // then we will not do anything as mutation does not apply
             if (m_lb[idxs[i]] < m_ub[idxs[i]]) {
-- 
2.43.0


From 58bdd3062dd274d160e4505eaddc67c57445ed9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:38 +0000
Subject: [PATCH 04/22] fix: mutate_ogene(0) does not mutate the output of a
 single output expression

---
 include/dcgp/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index 177204e..cc445ab 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -831,7 +831,7 @@ public:
                 mutate(idx);
             }
 
-        } else {
+        } else if (N > 0u) {
             idx = static_cast<unsigned>(m_active_genes.size() - 1u);
             idx = m_active_genes[idx];
             mutate(idx);
-- 
2.43.0


From 26ece40ec73406cb7f15794b24f2efd4277bcc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:03 +0000
Subject: [PATCH 05/22] fix: the derivative of the ISRU kernel at the origin is
 one, not NaN

---
 include/dcgp/expression_ann.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 28cf15b..459b543 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -961,7 +961,9 @@ private:
                         break;
                     case kernel_type::ISRU: {
                         auto cumin = std::accumulate(function_in.begin(), function_in.end(), 0.);
-                        d_node[node_id] = node[node_id] * node[node_id] * node[node_id] / cumin / cumin / cumin;
+                        // ISRU derivative is (1 + x^2)^(-3/2), also defined at the origin
+                        auto dummy = 1. / std::sqrt(1. + cumin * cumin);
+                        d_node[node_id] = dummy * dummy * dummy;
                         break;
                     }
                     case kernel_type::SIN_NU: {
-- 
2.43.0


From 631d1e47864db9bab11ada3d198ba43e0eb31249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:10 +0000
Subject: [PATCH 06/22] fix: reject a zero batch size, a NaN learning rate and
 indivisible batches before training starts

---
 include/dcgp/expression_ann.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 459b543..a8a5753 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -457,8 +457,8 @@ public:
      * @return The average error across the batches. Note: this will not be equal to the error on the whole data set
      * as weights get updated after each batch. It is an indicator, though, and its free to compute.
      *
-     * @throws std::invalid_argument if the *data* and *label* size do not match or is zero, or if *lr* is not
-     * positive.
+     * @throws std::invalid_argument if the *data* and *label* size do not match or is zero, if *lr* is not
+     * positive, if *batch_size* is zero or if the batches cannot be divided into *parallel* parts.
      */
     double sgd(std::vector<std::vector<double>> &points, std::vector<std::vector<double>> &labels, double lr,
                unsigned batch_size, const std::string &loss_s, unsigned parallel = 0u, bool shuffle = true)
@@ -471,11 +471,25 @@ public:
         if (points.size() == 0) {
             throw std::invalid_argument("Data size cannot be zero");
         }
-        if (lr <= 0) {
+        if (!(lr > 0)) {
             throw std::invalid_argument("The learning rate must be a positive number, while: " + std::to_string(lr)
                                         + " was detected.");
         }
 
+        if (batch_size == 0u) {
+            throw std::invalid_argument("The batch size cannot be zero");
+        }
+        // All batches (the last one may be smaller) must be divisible in parallel parts, we check this before the
+        // weights or the data are touched.
+        if (parallel > 0u
+            && ((points.size() >= batch_size && batch_size % parallel != 0u)
+                || (points.size() % batch_size) % parallel != 0u)) {
+            throw std::invalid_argument("A data size of: " + std::to_string(points.size())
+                                        + " with a batch size of: " + std::to_string(batch_size)
+                                        + " results in batches that cannot be divided into " + std::to_string(parallel)
+                                        + " parts.");
+        }
+
         // Decoding the loss from string to the enum type (loss_s -> loss_e)
         expression<double>::loss_type loss_e;
         if (loss_s == "MSE") {
-- 
2.43.0


From a6044ef247082c8a08f6c0fe3e2f0e19a2ac44dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:37 +0000
Subject: [PATCH 07/22] fix: set_output_f rejects unknown names and outputs
 connected to inputs before changing anything

---
 include/dcgp/expression_ann.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index a8a5753..a75a763 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -544,7 +544,7 @@ public:
      */
     void set_output_f(const std::string &name)
     {
-        typename std::vector<kernel_type>::iterator it;
+        auto it = m_kernel_map.end();
         if (name == "sig") {
             it = std::find(m_kernel_map.begin(), m_kernel_map.end(), kernel_type::SIG);
         } else if (name == "tanh") {
@@ -575,6 +575,13 @@ public:
             throw std::invalid_argument("The nonlinearity " + name + " is not a Kernel for this dCGP expression");
         } else {
             unsigned f_id = static_cast<unsigned>(it - m_kernel_map.begin());
+            // We check all outputs first so that nothing is changed if one is directly connected to an input.
+            for (decltype(this->get_m()) i = 0u; i < this->get_m(); ++i) {
+                if (this->get()[this->get().size() - 1 - i] < this->get_n()) {
+                    throw std::invalid_argument(
+                        "Cannot set the nonlinearity of an output that is directly connected to an input");
+                }
+            }
             for (decltype(this->get_m()) i = 0u; i < this->get_m(); ++i) {
                 this->set_f_gene(this->get()[this->get().size() - 1 - i], f_id);
             }
-- 
2.43.0


From 6029609d4af1a0afdf99004dc9f2293a5d622b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:13 +0000
Subject: [PATCH 08/22] fix: the fitness of symbolic_regression does not depend
 on previous calls

gradient() and hessians() stored the loss of the gdual expression and fitness() returned it for the same decision
vector. The two differ where the gdual expression uses other kernels (pdiv becomes div), where kernels with branches
(ReLu, ELU, abs, step) are evaluated on vectorized gduals, and after set/unset_phenotype_correction.
---
 include/dcgp/problems/symbolic_regression.hpp | 40 ++++---------------
 1 file changed, 7 insertions(+), 33 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index b9991fb..0ba9cdd 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -156,13 +156,11 @@ public:
         std::vector<double> retval(1u + m_multi_objective, 0);
         // Here we set the CGP member from the chromosome
         set_cgp(x);
-        if (x == m_cache_fitness.first) {
-            retval[0] = m_cache_fitness.second[0];
-        } else {
-            // And we compute the MSE loss splitting the data in n batches.
-            // TODO: make this work also when m_parallel_batches does not divide exactly the data size.
-            retval[0] = m_cgp.loss(m_points, m_labels, m_loss_s, m_parallel_batches);
-        }
+        // And we compute the loss splitting the data in n batches.
+        // TODO: make this work also when m_parallel_batches does not divide exactly the data size.
+        // NOTE: the value of the loss computed by the gradient and the hessians is not used here: it is the value of a
+        // different expression whenever the kernels (e.g. pdiv) or the phenotype correction differ between the two.
+        retval[0] = m_cgp.loss(m_points, m_labels, m_loss_s, m_parallel_batches);
         // In the multiobjective case we compute the formula complexity
         if (m_multi_objective) {
             retval[1] = static_cast<double>(m_cgp.get_active_genes().size());
@@ -197,11 +195,7 @@ public:
         // 3 - We compute the loss splitting the data in n batches.
         // TODO: make this work also when m_parallel_batches does not divide exactly the data size.
         auto loss = m_dcgp.loss(m_dpoints, m_dlabels, m_loss_e);
-        // Now we extract fitness and gradient and store the values in the caches or in the return value
-        m_cache_fitness.first = x;
-        m_cache_fitness.second.resize(get_nobj());
-        m_cache_fitness.second[0] = collapse(loss.constant_cf());
-
+        // Now we extract the gradient
         loss.extend_symbol_set(m_deph_symb);
         if (!(loss.get_order() == 0u)) { // this happens when input terminals of the eph constants are inactive
                                          // (gradient is then zero)
@@ -251,11 +245,6 @@ public:
         for (const auto &item : hs) {
             retval.emplace_back(item.size(), 0.);
         }
-        // Initializing the gradient to zeros.
-        m_cache_gradient.first = x;
-        m_cache_gradient.second.clear();
-        m_cache_gradient.second.resize(m_n_eph, 0.);
-
         // The chromosome has a floating point part (the ephemeral constants) and an integer part (the encoded CGP).
         // 1 - We extract the integer part and represent it as an unsigned vector to set the CGP expression.
         std::vector<unsigned> xu(x.size() - m_n_eph);
@@ -274,22 +263,10 @@ public:
         // We make sure all symbols are in so that we get zeros when querying for a variable not in the gdual
         loss.extend_symbol_set(m_deph_symb);
 
-        // Now we extract fitness, gradient and hessians from the gdual and store the values (retval or cache)
-        m_cache_fitness.first = x;
-        m_cache_fitness.second.resize(get_nobj());
-        m_cache_fitness.second[0] = collapse(loss.constant_cf());
-        // We compute the gradient and the hessian only if
+        // We compute the hessian only if
         // the loss depends on at least one ephemeral constant.
         // Otherwise the initialization values will be returned, that is zeros.
         if (!(loss.get_order() == 0u)) {
-            // gradient (we cache it)
-            for (decltype(m_n_eph) i = 0u; i < m_n_eph; ++i) {
-                std::vector<unsigned> coeff(m_n_eph, 0.);
-                coeff[i] = 1.;
-                auto deriv = loss.get_derivative(coeff);
-                m_cache_gradient.second[i] = collapse(deriv);
-            }
-            // hessian (we return it)
             for (decltype(hd) i = 0u; i < hd; ++i) {
                 std::vector<unsigned> coeff(m_n_eph, 0.);
                 coeff[hs[0][i].first] = 1;
@@ -627,7 +604,6 @@ public:
         ar &m_loss_e;
         ar &m_cgp;
         ar &m_dcgp;
-        ar &m_cache_fitness;
     }
 
 private:
@@ -654,8 +630,6 @@ private:
     // avoided, but likely resulting in premature optimization. (see https://github.com/darioizzo/dcgp/pull/42)
     mutable expression<double> m_cgp;
     mutable expression<audi::gdual_v> m_dcgp;
-    mutable std::pair<pagmo::vector_double, pagmo::vector_double> m_cache_fitness;
-    mutable std::pair<pagmo::vector_double, pagmo::vector_double> m_cache_gradient;
 };
 
 namespace details
-- 
2.43.0


From d014bab835abdfd907dda3e7072ac4400343ae14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:13 +0000
Subject: [PATCH 09/22] fix: symbolic_regression rejects empty labels before
 accessing them

---
 include/dcgp/problems/symbolic_regression.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index 0ba9cdd..2f4f6b6 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -547,14 +547,14 @@ private:
         if (m_points.size() == 0) {
             throw std::invalid_argument("The size of the input data (points) is zero.");
         }
-        n = static_cast<unsigned>(m_points[0].size());
-        m = static_cast<unsigned>(m_labels[0].size());
         // 2 - We check labels and points have the same (non-empty) size
         if (m_points.size() != m_labels.size()) {
             throw std::invalid_argument("The number of input data (points) is " + std::to_string(m_points.size())
                                         + " while the number of labels is " + std::to_string(m_labels.size())
                                         + ". They should be equal.");
         }
+        n = static_cast<unsigned>(m_points[0].size());
+        m = static_cast<unsigned>(m_labels[0].size());
         // 3 - We check that all p in points have the same size
         if (!std::all_of(m_points.begin(), m_points.end(),
                          [n](const std::vector<double> &p) { return p.size() == n; })) {
-- 
2.43.0


From b098ab9c591f063da668fc250c427aa01c841fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:13 +0000
Subject: [PATCH 10/22] fix: symbolic_regression rejects decision vectors with
 a NaN in the integer part

---
 include/dcgp/problems/symbolic_regression.hpp | 32 ++++++++++++-------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index 2f4f6b6..a73c752 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -1,8 +1,11 @@
 #ifndef DCGP_SYMBOLIC_REGRESSION_H
 #define DCGP_SYMBOLIC_REGRESSION_H
 #include <algorithm>
+#include <cmath>
 #include <functional>
 #include <numeric> // std::accumulate
+#include <stdexcept>
+#include <string>
 #include <vector>
 
 #include <audi/gdual.hpp>
@@ -182,10 +185,7 @@ public:
         std::vector<double> retval(m_n_eph, 0);
         // The chromosome has a floating point part (the ephemeral constants) and an integer part (the encoded CGP).
         // 1 - We extract the integer part and represent it as an unsigned vector to set the CGP expression.
-        std::vector<unsigned> xu(x.size() - m_n_eph);
-        std::transform(x.data() + m_n_eph, x.data() + x.size(), xu.begin(),
-                       [](double a) { return boost::numeric_cast<unsigned>(a); });
-        m_dcgp.set(xu);
+        m_dcgp.set(integer_part(x));
         // 2 - We use the floating point part of the chromosome to set ephemeral constants.
         std::vector<audi::gdual_v> eph_val;
         for (decltype(m_n_eph) i = 0u; i < m_n_eph; ++i) {
@@ -247,10 +247,7 @@ public:
         }
         // The chromosome has a floating point part (the ephemeral constants) and an integer part (the encoded CGP).
         // 1 - We extract the integer part and represent it as an unsigned vector to set the CGP expression.
-        std::vector<unsigned> xu(x.size() - m_n_eph);
-        std::transform(x.data() + m_n_eph, x.data() + x.size(), xu.begin(),
-                       [](double a) { return boost::numeric_cast<unsigned>(a); });
-        m_dcgp.set(xu);
+        m_dcgp.set(integer_part(x));
         // 2 - We use the floating point part of the chromosome to set the ephemeral constants values of the dcgp
         // member.
         std::vector<audi::gdual_v> eph_val;
@@ -430,10 +427,7 @@ public:
     void set_cgp(const pagmo::vector_double &x) const
     {
         // We need to make a copy of the chromosome as to represents its genes as unsigned
-        std::vector<unsigned> xu(x.size() - m_n_eph);
-        std::transform(x.data() + m_n_eph, x.data() + x.size(), xu.data(),
-                       [](double a) { return boost::numeric_cast<unsigned>(a); });
-        m_cgp.set(xu);
+        m_cgp.set(integer_part(x));
         // 2 - We set the floating point part as ephemeral constants.
         std::vector<double> eph_val(x.data(), x.data() + m_n_eph);
         m_cgp.set_eph_val(eph_val);
@@ -514,6 +508,20 @@ public:
     }
 
 private:
+    // Extracts the integer part of a decision vector.
+    // NOTE: a NaN passes all the range checks of boost::numeric_cast and its conversion is undefined.
+    std::vector<unsigned> integer_part(const pagmo::vector_double &x) const
+    {
+        std::vector<unsigned> retval(x.size() - m_n_eph);
+        std::transform(x.data() + m_n_eph, x.data() + x.size(), retval.data(), [](double a) {
+            if (std::isnan(a)) {
+                throw std::invalid_argument("A NaN was found in the integer part of the decision vector.");
+            }
+            return boost::numeric_cast<unsigned>(a);
+        });
+        return retval;
+    }
+
     // Collapses a vectorized cf into one (taking the mean)
     static inline double collapse(const audi::vectorized<double> &vec)
     {
-- 
2.43.0


From db66bf584beefd1b456f07921659e0d010f89594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:13 +0000
Subject: [PATCH 11/22] fix: initialise the loss type of a default constructed
 symbolic_regression

---
 include/dcgp/problems/symbolic_regression.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index a73c752..e771ff3 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -54,7 +54,8 @@ public:
      */
     symbolic_regression()
         : m_points(1), m_labels(1), m_r(1), m_c(1), m_l(1), m_arity(2), m_f(kernel_set<double>({"sum"})()), m_n_eph(0),
-          m_multi_objective(true), m_parallel_batches(0u), m_loss_s("MSE")
+          m_multi_objective(true), m_parallel_batches(0u), m_loss_s("MSE"),
+          m_loss_e(dcgp::expression<audi::gdual_v>::loss_type::MSE)
     {
     }
 
-- 
2.43.0


From 0d254779bed6b71bec68516df6d1c5121ecab279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:13 +0000
Subject: [PATCH 12/22] fix: the thread safety of symbolic_regression accounts
 for its mutable state and its phenotype correction

Kernels with a constant thread safety made the problem report constant, while its const methods modify the inner
expressions, and the level of the phenotype correction was ignored.
---
 include/dcgp/expression.hpp                   |  9 +++++++++
 include/dcgp/problems/symbolic_regression.hpp | 19 ++++++++++++++-----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index cc445ab..bf4fce2 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -891,6 +891,15 @@ public:
         m_phenotype_correction = boost::none;
     }
 
+    /// Gets the phenotype correction
+    /**
+     * @return the phenotype correction, if any was set.
+     */
+    const boost::optional<pc_fun_type> &get_phenotype_correction() const
+    {
+        return m_phenotype_correction;
+    }
+
     /// Overloaded stream operator
     /**
      * Will return a formatted string containing a human readable representation
diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index e771ff3..00e1daf 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -475,14 +475,23 @@ public:
 
     /// Thread safety for this udp
     /**
-     * This is set to none as pitonic kernels could be in the inner expression
+     * This is the smallest among the thread safety levels of the kernels and of the phenotype correction (e.g. none, as
+     * pitonic kernels could be in the inner expression), and never more than basic as const methods modify the inner
+     * expressions.
      */
     pagmo::thread_safety get_thread_safety() const
     {
-        return (*std::min_element(
-                    m_f.begin(), m_f.end(),
-                    [](const auto &a, const auto &b) { return a.get_thread_safety() < b.get_thread_safety(); }))
-            .get_thread_safety();
+        auto retval = pagmo::thread_safety::basic;
+        for (const auto &ker : m_f) {
+            retval = std::min(retval, ker.get_thread_safety());
+        }
+        if (m_cgp.get_phenotype_correction()) {
+            retval = std::min(retval, m_cgp.get_phenotype_correction()->get_thread_safety());
+        }
+        if (m_dcgp.get_phenotype_correction()) {
+            retval = std::min(retval, m_dcgp.get_phenotype_correction()->get_thread_safety());
+        }
+        return retval;
     }
 
     /// Sets the phenotype correction
-- 
2.43.0


From 88e911a90e4bacfd1faac2f782a58d0e1c0e0380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 13/22] fix: es4cgp and moes4cgp keep the constants when
 learn_constants is false

The continuous part of the mutants was never written, so that all the ephemeral constants became zero.
---
 include/dcgp/algorithms/es4cgp.hpp   | 2 ++
 include/dcgp/algorithms/moes4cgp.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/dcgp/algorithms/es4cgp.hpp b/include/dcgp/algorithms/es4cgp.hpp
index 0c83b66..47df71f 100644
--- a/include/dcgp/algorithms/es4cgp.hpp
+++ b/include/dcgp/algorithms/es4cgp.hpp
@@ -185,6 +185,8 @@ public:
                         mutated_eph_val[j] = best_x[j] + 10. * normal(m_e);
                     }
                     std::copy(mutated_eph_val.begin(), mutated_eph_val.end(), dvs.data() + i * dim);
+                } else {
+                    std::copy(best_x.data(), best_x.data() + n_eph, dvs.data() + i * dim);
                 }
             }
 
diff --git a/include/dcgp/algorithms/moes4cgp.hpp b/include/dcgp/algorithms/moes4cgp.hpp
index 897c64e..9fad705 100644
--- a/include/dcgp/algorithms/moes4cgp.hpp
+++ b/include/dcgp/algorithms/moes4cgp.hpp
@@ -186,6 +186,8 @@ public:
                     for (auto j = 0u; j < n_eph; ++j) {
                         dvs[i * dim + j] = pop.get_x()[i][j] + 10. * normal(m_e);
                     }
+                } else {
+                    std::copy(pop.get_x()[i].data(), pop.get_x()[i].data() + n_eph, dvs.data() + i * dim);
                 }
             }
 
-- 
2.43.0


From 2dcf0972c4e40816ff0ad8110249dfd5846aae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 14/22] fix: the ftol exit condition does not depend on the
 verbosity

moes4cgp and momes4cgp checked it only when a log line was due (never with no verbosity), and mes4cgp printed and logged
a line at exit even with no verbosity.
---
 include/dcgp/algorithms/mes4cgp.hpp   |  8 +++++---
 include/dcgp/algorithms/moes4cgp.hpp  | 16 ++++++++++------
 include/dcgp/algorithms/momes4cgp.hpp | 16 ++++++++++------
 3 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/include/dcgp/algorithms/mes4cgp.hpp b/include/dcgp/algorithms/mes4cgp.hpp
index c76a1eb..b8cc783 100644
--- a/include/dcgp/algorithms/mes4cgp.hpp
+++ b/include/dcgp/algorithms/mes4cgp.hpp
@@ -289,12 +289,14 @@ public:
             }
             // 4 - Exit if ftol is reached
             if (pagmo::detail::greater_than_f(m_ftol, best_f[0])) {
-                auto formula = udp_ptr->prettier(best_x);
-                log_single_line(gen, prob.get_fevals() - fevals0, best_f[0], formula, best_x, n_eph);
                 if (pagmo::detail::less_than_f(best_f[0], pop.get_f()[best_idx][0])) {
                     pop.set_xf(worst_idx, best_x, best_f);
                 }
-                pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
+                if (m_verbosity > 0u) {
+                    auto formula = udp_ptr->prettier(best_x);
+                    log_single_line(gen, prob.get_fevals() - fevals0, best_f[0], formula, best_x, n_eph);
+                    pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
+                }
                 return pop;
             }
         }
diff --git a/include/dcgp/algorithms/moes4cgp.hpp b/include/dcgp/algorithms/moes4cgp.hpp
index 9fad705..72b444d 100644
--- a/include/dcgp/algorithms/moes4cgp.hpp
+++ b/include/dcgp/algorithms/moes4cgp.hpp
@@ -164,14 +164,18 @@ public:
                     }
                     log_single_line(gen - 1, prob.get_fevals() - fevals0, pop);
                     ++count;
-                    // Check for ftol stopping condition
-                    if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
-                        if (m_verbosity > 0u) {
-                            pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
-                        }
-                        return pop;
+                }
+            }
+            // Check for ftol stopping condition
+            if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
+                if (m_verbosity > 0u) {
+                    // We log the last line, unless it was just logged.
+                    if (gen % m_verbosity != 1u && m_verbosity != 1u) {
+                        log_single_line(gen - 1, prob.get_fevals() - fevals0, pop);
                     }
+                    pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
                 }
+                return pop;
             }
             // 1 - We generate new NP individuals mutating the best and we write on the dvs for pagmo::bfe to evaluate
             // their fitnesses.
diff --git a/include/dcgp/algorithms/momes4cgp.hpp b/include/dcgp/algorithms/momes4cgp.hpp
index 16c2467..cce2eb8 100644
--- a/include/dcgp/algorithms/momes4cgp.hpp
+++ b/include/dcgp/algorithms/momes4cgp.hpp
@@ -152,14 +152,18 @@ public:
                     }
                     log_single_line(gen - 1, prob.get_fevals() - fevals0, pop);
                     ++count;
-                    // Check for ftol stopping condition
-                    if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
-                        if (m_verbosity > 0u) {
-                            pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
-                        }
-                        return pop;
+                }
+            }
+            // Check for ftol stopping condition
+            if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
+                if (m_verbosity > 0u) {
+                    // We log the last line, unless it was just logged.
+                    if (gen % m_verbosity != 1u && m_verbosity != 1u) {
+                        log_single_line(gen - 1, prob.get_fevals() - fevals0, pop);
                     }
+                    pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
                 }
+                return pop;
             }
 
             // At each generation we need a copy of the population
-- 
2.43.0


From 9879c11057c0a5c7fe10d897ae7b0ef1cbf2f1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 15/22] fix: moes4cgp saves and restores its ftol

---
 include/dcgp/algorithms/moes4cgp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dcgp/algorithms/moes4cgp.hpp b/include/dcgp/algorithms/moes4cgp.hpp
index 72b444d..96f374b 100644
--- a/include/dcgp/algorithms/moes4cgp.hpp
+++ b/include/dcgp/algorithms/moes4cgp.hpp
@@ -372,6 +372,7 @@ public:
     {
         ar &m_gen;
         ar &m_max_mut;
+        ar &m_ftol;
         ar &m_learn_constants;
         ar &m_e;
         ar &m_seed;
-- 
2.43.0


From a032675321f98325b95b06e3d650dc16176f33db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 16/22] fix: gd4cgp saves and restores its selection and
 replacement policies

---
 include/dcgp/algorithms/gd4cgp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dcgp/algorithms/gd4cgp.hpp b/include/dcgp/algorithms/gd4cgp.hpp
index 9b26e7b..f08d056 100644
--- a/include/dcgp/algorithms/gd4cgp.hpp
+++ b/include/dcgp/algorithms/gd4cgp.hpp
@@ -290,6 +290,7 @@ public:
     template <typename Archive>
     void serialize(Archive &ar, unsigned)
     {
+        ar &boost::serialization::base_object<pagmo::not_population_based>(*this);
         ar &m_max_iter;
         ar &m_lr;
         ar &m_lr_min;
-- 
2.43.0


From c02eb5a6d3e75dd819554d64f26e9484b4268616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 17/22] fix: the memetic algorithms use the right second
 derivative when one constant of several is active

The hessian is stored as its packed lower triangle, hence the second derivative
with respect to the k-th constant is not its k-th element.
---
 include/dcgp/algorithms/mes4cgp.hpp   | 9 +++++----
 include/dcgp/algorithms/momes4cgp.hpp | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/dcgp/algorithms/mes4cgp.hpp b/include/dcgp/algorithms/mes4cgp.hpp
index b8cc783..a1d5f65 100644
--- a/include/dcgp/algorithms/mes4cgp.hpp
+++ b/include/dcgp/algorithms/mes4cgp.hpp
@@ -214,10 +214,11 @@ public:
                     if (n_non_zero == 1u) {
                         // Only one ephemeral constant is in the expression, as above, we avoid to call the
                         // Eigen machinery. This makes the code more readable.
-                        if (hess[0][non_zero[0]] != 0. && std::isfinite(grad[non_zero[0]])
-                            && std::isfinite(hess[0][non_zero[0]])) {
-                            mutated_x[i][non_zero[0]]
-                                = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / hess[0][non_zero[0]];
+                        // NOTE: the hessian is stored as its (packed) lower triangle, see
+                        // symbolic_regression::hessians_sparsity().
+                        const auto h = hess[0][non_zero[0] * (non_zero[0] + 1u) / 2u + non_zero[0]];
+                        if (h != 0. && std::isfinite(grad[non_zero[0]]) && std::isfinite(h)) {
+                            mutated_x[i][non_zero[0]] = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / h;
                         }
                     } else if (n_non_zero > 1u) {
                         // The full Hessian
diff --git a/include/dcgp/algorithms/momes4cgp.hpp b/include/dcgp/algorithms/momes4cgp.hpp
index cce2eb8..5d06518 100644
--- a/include/dcgp/algorithms/momes4cgp.hpp
+++ b/include/dcgp/algorithms/momes4cgp.hpp
@@ -224,10 +224,11 @@ public:
                     if (n_non_zero == 1u) {
                         // Only one ephemeral constant is in the expression, as above, we avoid to call the
                         // Eigen machinery. This makes the code more readable.
-                        if (hess[0][non_zero[0]] != 0. && std::isfinite(grad[non_zero[0]])
-                            && std::isfinite(hess[0][non_zero[0]])) {
-                            mutated_x[i][non_zero[0]]
-                                = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / hess[0][non_zero[0]];
+                        // NOTE: the hessian is stored as its (packed) lower triangle, see
+                        // symbolic_regression::hessians_sparsity().
+                        const auto h = hess[0][non_zero[0] * (non_zero[0] + 1u) / 2u + non_zero[0]];
+                        if (h != 0. && std::isfinite(grad[non_zero[0]]) && std::isfinite(h)) {
+                            mutated_x[i][non_zero[0]] = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / h;
                         }
                     } else if (n_non_zero > 1u) {
                         // The full Hessian
-- 
2.43.0


From cc8350262899501b526c27e56cf3c187a5714919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:28 +0000
Subject: [PATCH 18/22] fix: the memetic algorithms take no Newton step when
 the Hessian is indefinite

The signs of the diagonal of the fully pivoted LU do not tell whether a matrix
is positive definite, e.g. they are all positive for [[0, 1], [1, 0]].
---
 include/dcgp/algorithms/mes4cgp.hpp   | 12 +++++-------
 include/dcgp/algorithms/momes4cgp.hpp | 12 +++++-------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/include/dcgp/algorithms/mes4cgp.hpp b/include/dcgp/algorithms/mes4cgp.hpp
index a1d5f65..5ca82d3 100644
--- a/include/dcgp/algorithms/mes4cgp.hpp
+++ b/include/dcgp/algorithms/mes4cgp.hpp
@@ -255,13 +255,11 @@ public:
                         // And we perform a Newton step
                         if (G.array().isFinite().all()) {
                             fullpivlu.compute(H);
-                            // NOTE: the eigenvalues of U (i.e. its diagonal elements) have the same sign structure as
-                            // the eigenvalues of H according to Sylvesters theorem of intertia
-                            // so we can check that H is positive (semi) definite trough looking at the diagonal
-                            // elements of U (see e.g.
-                            // https://math.stackexchange.com/questions/621040/compute-eigenvalues-of-a-square-matrix-given-lu-decomposition)
-                            if (fullpivlu.isInvertible() && (fullpivlu.matrixLU().diagonal().array() >= 0.).all()) {
-                                // H is invertible and positive (semi) definite
+                            // NOTE: the diagonal of U has the same sign structure as the eigenvalues of H only if its
+                            // rows and columns are permuted in the same way, which the full pivoting does not guarantee
+                            // when H is indefinite. H is positive definite if its Cholesky decomposition exists.
+                            if (fullpivlu.isInvertible() && H.llt().info() == Eigen::Success) {
+                                // H is invertible and positive definite
                                 // we are therefore approaching a minimum and the inverse is defined
                                 // it can however contain infinities in some elements
                                 // so we check that all elements of the inverse are finite and only then do a Newton
diff --git a/include/dcgp/algorithms/momes4cgp.hpp b/include/dcgp/algorithms/momes4cgp.hpp
index 5d06518..2038c09 100644
--- a/include/dcgp/algorithms/momes4cgp.hpp
+++ b/include/dcgp/algorithms/momes4cgp.hpp
@@ -265,13 +265,11 @@ public:
                         // And we perform a Newton step
                         if (G.array().isFinite().all()) {
                             fullpivlu.compute(H);
-                            // NOTE: the eigenvalues of U (i.e. its diagonal elements) have the same sign structure as
-                            // the eigenvalues of H according to Sylvesters theorem of intertia
-                            // so we can check that H is positive (semi) definite trough looking at the diagonal
-                            // elements of U (see e.g.
-                            // https://math.stackexchange.com/questions/621040/compute-eigenvalues-of-a-square-matrix-given-lu-decomposition)
-                            if (fullpivlu.isInvertible() && (fullpivlu.matrixLU().diagonal().array() >= 0.).all()) {
-                                // H is invertible and positive (semi) definite
+                            // NOTE: the diagonal of U has the same sign structure as the eigenvalues of H only if its
+                            // rows and columns are permuted in the same way, which the full pivoting does not guarantee
+                            // when H is indefinite. H is positive definite if its Cholesky decomposition exists.
+                            if (fullpivlu.isInvertible() && H.llt().info() == Eigen::Success) {
+                                // H is invertible and positive definite
                                 // we are therefore approaching a minimum and the inverse is defined
                                 // it can however contain infinities in some elements
                                 // so we check that all elements of the inverse are finite and only then do a Newton
-- 
2.43.0


From 9d165278f4edebd248c8a25ad3f2bbe4b3e6d3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 19/22] fix: inv_sum prints its sign inside parentheses

The gaussian of an inv_sum printed exp(--(x)**2), which is exp(x**2).
---
 include/dcgp/wrapped_functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dcgp/wrapped_functions.hpp b/include/dcgp/wrapped_functions.hpp
index 0817174..4ca3550 100644
--- a/include/dcgp/wrapped_functions.hpp
+++ b/include/dcgp/wrapped_functions.hpp
@@ -564,7 +564,7 @@ struct print_my_inv_sum_func {
         for (auto i = 1u; i < in.size(); ++i) {
             retval += "+" + in[i];
         }
-        return "-(" + retval +")";
+        return "(-(" + retval + "))";
     }
     DCGP_S11N_EMPTY_SERIALIZE_MEMFN()
 };
-- 
2.43.0


From 90f2d10843e252b4c3bc6a722dddce7c147084fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:09 +0000
Subject: [PATCH 20/22] fix: a kernel keeps its value when loading it from an
 archive fails

---
 include/dcgp/kernel.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/dcgp/kernel.hpp b/include/dcgp/kernel.hpp
index 62a726e..4fe2c10 100644
--- a/include/dcgp/kernel.hpp
+++ b/include/dcgp/kernel.hpp
@@ -154,11 +154,18 @@ public:
     template <typename Archive>
     void serialize(Archive &ar, unsigned)
     {
-        ar &m_f;
-        ar &m_pf;
-        ar &m_name;
         if constexpr (Archive::is_loading::value) {
-            m_thread_safety = std::min(m_f.get_thread_safety(), m_pf.get_thread_safety());
+            // Deserialize in a separate object and move it in later, for exception safety.
+            kernel tmp;
+            ar &tmp.m_f;
+            ar &tmp.m_pf;
+            ar &tmp.m_name;
+            tmp.m_thread_safety = std::min(tmp.m_f.get_thread_safety(), tmp.m_pf.get_thread_safety());
+            *this = std::move(tmp);
+        } else {
+            ar &m_f;
+            ar &m_pf;
+            ar &m_name;
         }
     }
 
-- 
2.43.0


From 86e27e32c5759d1b256eac21e5f71968e18ccc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:09 +0000
Subject: [PATCH 21/22] fix: a kernel keeps its value when copying another one
 into it fails

---
 include/dcgp/kernel.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/dcgp/kernel.hpp b/include/dcgp/kernel.hpp
index 4fe2c10..fcd1c1d 100644
--- a/include/dcgp/kernel.hpp
+++ b/include/dcgp/kernel.hpp
@@ -57,6 +57,14 @@ public:
     using my_print_fun_type = function<std::string(const std::vector<std::string> &)>;
 #endif
     kernel() = default;
+    kernel(const kernel &) = default;
+    kernel(kernel &&) noexcept = default;
+    kernel &operator=(kernel &&) noexcept = default;
+    kernel &operator=(const kernel &other)
+    {
+        // Copy ctor + move assignment, so that a failed copy leaves the kernel as it was.
+        return *this = kernel(other);
+    }
 
     /// Constructor
     /**
-- 
2.43.0


From ca6e7cd07917e008e73c86aba08eac7377fde6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 22/22] fix: expression_ann: reject weight and bias indices
 that do not exist

The documentation of set_weight, get_weight, set_bias and get_bias promises an
error when the index is not valid; the memory past the vector was accessed.
---
 include/dcgp/expression_ann.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index a75a763..b2635a2 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -678,10 +678,13 @@ public:
      * @param[idx] index of the weight to be changed.
      * @param[w] value of the weight to be changed.
      *
-     * @throws std::invalid_argument if the node_id or input_id are not valid
+     * @throws std::invalid_argument if the index is not valid
      */
     void set_weight(std::vector<double>::size_type idx, const double &w)
     {
+        if (idx >= m_weights.size()) {
+            throw std::invalid_argument("Requested weight does not exist");
+        }
         m_weights[idx] = w;
     }
 
@@ -733,9 +736,13 @@ public:
      *
      * @param[in] idx index of the weight
      *
+     * @throws std::invalid_argument if the index is not valid
      */
     double get_weight(std::vector<double>::size_type idx) const
     {
+        if (idx >= m_weights.size()) {
+            throw std::invalid_argument("Requested weight does not exist");
+        }
         return m_weights[idx];
     }
 
@@ -780,9 +787,13 @@ public:
      * @param[idx] index of the bias to be changed.
      * @param[w] value of the new bias.
      *
+     * @throws std::invalid_argument if the index is not valid
      */
     void set_bias(typename std::vector<double>::size_type idx, const double &w)
     {
+        if (idx >= m_biases.size()) {
+            throw std::invalid_argument("Requested bias does not exist");
+        }
         m_biases[idx] = w;
     }
 
@@ -808,9 +819,13 @@ public:
      *
      * @param[in] idx index of the bias
      *
+     * @throws std::invalid_argument if the index is not valid
      */
     double get_bias(typename std::vector<double>::size_type idx) const
     {
+        if (idx >= m_biases.size()) {
+            throw std::invalid_argument("Requested bias does not exist");
+        }
         return m_biases[idx];
     }
 
-- 
2.43.0

