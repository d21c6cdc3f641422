From e9d933663928e70778ffc6d0e75d8ea8e874424d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:09 +0000
Subject: [PATCH 01/14] fix: FFInt - FFIntVec and FFInt / FFIntVec use the
 scalar as left operand

---
 source/FFIntVec.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/FFIntVec.cpp b/source/FFIntVec.cpp
index c0b757c..00d6c6b 100644
--- a/source/FFIntVec.cpp
+++ b/source/FFIntVec.cpp
@@ -259,10 +259,10 @@ namespace firefly {
 
   template<int N>
   FFIntVec<N> operator-(const FFInt& b, const FFIntVec<N>& a) {
-    FFIntVec<N> result(a);
+    FFIntVec<N> result(b);
 
     for (int i = 0; i != N; ++i) {
-      result.vec[i] -= b;
+      result.vec[i] -= a.vec[i];
     }
 
     return result;
@@ -281,10 +281,10 @@ namespace firefly {
 
   template<int N>
   FFIntVec<N> operator/(const FFInt& b, const FFIntVec<N>& a) {
-    FFIntVec<N> result(a);
+    FFIntVec<N> result(b);
 
     for (int i = 0; i != N; ++i) {
-      result.vec[i] /= b;
+      result.vec[i] /= a.vec[i];
     }
 
     return result;
-- 
2.43.0


From e504904c35f8ba4d04f4c61d8055d2b8d27c7d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:09 +0000
Subject: [PATCH 02/14] fix: FFIntVec::at accepts the last lane

---
 source/include/firefly/FFIntVec.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/include/firefly/FFIntVec.hpp b/source/include/firefly/FFIntVec.hpp
index 8364713..6c4c434 100644
--- a/source/include/firefly/FFIntVec.hpp
+++ b/source/include/firefly/FFIntVec.hpp
@@ -100,7 +100,7 @@ namespace firefly {
     typename std::array<FFInt, N>::const_iterator end() const noexcept;
     size_t size() const noexcept;
     inline const FFInt& at(int i) {
-      if (i < N - 1)
+      if (i < N)
         return vec[i];
       else
         throw std::out_of_range("Out of range.");
-- 
2.43.0


From 45be6e9bf7ca4f8b506e86e864ac84339eb1c3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:09 +0000
Subject: [PATCH 03/14] fix: solve_gauss_system reports every singular system,
 not only a vanishing last pivot

---
 source/include/firefly/DenseSolver.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/source/include/firefly/DenseSolver.hpp b/source/include/firefly/DenseSolver.hpp
index c7504e5..9893c49 100644
--- a/source/include/firefly/DenseSolver.hpp
+++ b/source/include/firefly/DenseSolver.hpp
@@ -145,7 +145,17 @@ namespace firefly {
 
     std::vector<FFIntTemp> results(n);
 
-    if (force || a[n - 1][n - 1] != FFIntTemp(0)) { // TODO new == operator?
+    // The system has a unique solution only if no pivot vanishes
+    bool singular = false;
+
+    for (uint32_t i = 0; i < n; ++i) {
+      if (a[i][i] == FFIntTemp(0)) { // TODO new == operator?
+        singular = true;
+        break;
+      }
+    }
+
+    if (force || !singular) {
       // Solve equation A * x = b for an upper triangular matrix
       for (int i = n - 1; i >= 0; i--) {
         results[i] = a[i][n] / a[i][i];
-- 
2.43.0


From 1d4d34881f64b835e1554425b579b93fa08b0c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:09 +0000
Subject: [PATCH 04/14] fix: PolynomialFF product accumulates coefficients of
 coinciding monomials

---
 source/PolynomialFF.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/source/PolynomialFF.cpp b/source/PolynomialFF.cpp
index 6cc3410..c3cd8e9 100644
--- a/source/PolynomialFF.cpp
+++ b/source/PolynomialFF.cpp
@@ -325,7 +325,17 @@ namespace firefly {
                          coef_b.first.begin(), new_deg.begin(),
                          std::plus<uint32_t>());
 
-          new_monomials.emplace(std::make_pair(new_deg, new_coef));
+          // different pairs of monomials can contribute to the same product
+          auto got = new_monomials.find(new_deg);
+
+          if (got == new_monomials.end())
+            new_monomials.emplace(std::make_pair(new_deg, new_coef));
+          else {
+            got -> second += new_coef;
+
+            if (got -> second == 0)
+              new_monomials.erase(got);
+          }
         }
       }
     }
-- 
2.43.0


From ffff02e7b100102da609da86915ac405c6810c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:09 +0000
Subject: [PATCH 05/14] fix: PolynomialFF::add_shift keeps the constant term

---
 source/PolynomialFF.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/PolynomialFF.cpp b/source/PolynomialFF.cpp
index c3cd8e9..7aa79ed 100644
--- a/source/PolynomialFF.cpp
+++ b/source/PolynomialFF.cpp
@@ -413,6 +413,10 @@ namespace firefly {
         }
       }
 
+      // A constant is not affected by the shift
+      if (pow_poly.coefs.empty())
+        pow_poly.coefs.emplace(std::make_pair(powers, mon.second));
+
       if (!pow_poly.coefs.empty()) {
         if (res.coefs.empty())
           res.coefs = pow_poly.coefs;
-- 
2.43.0


From a19d5925d36e41f6b487512bc297a7c58f45ed7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:37 +0000
Subject: [PATCH 06/14] fix: FFInt of a negative multiple of the prime is the
 canonical zero

---
 source/include/firefly/FFInt.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/include/firefly/FFInt.hpp b/source/include/firefly/FFInt.hpp
index da4241c..b87c083 100644
--- a/source/include/firefly/FFInt.hpp
+++ b/source/include/firefly/FFInt.hpp
@@ -135,7 +135,11 @@ namespace firefly {
         n = static_cast<uint64_t>(n_)  % p;
       }
     } else if (n_ < 0) {
-      n = p - static_cast<uint64_t>(-n_) % p;
+      // negate as unsigned: -n_ overflows for the smallest representable value
+      n = (0 - static_cast<uint64_t>(n_)) % p;
+
+      if (n != 0)
+        n = p - n;
     }
   }
 
-- 
2.43.0


From 4bdfc160d5c8ed5a42b19887bd6c154ec8c238c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:37 +0000
Subject: [PATCH 07/14] fix: FFInt increment and decrement modify their object

---
 source/FFInt.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/source/FFInt.cpp b/source/FFInt.cpp
index 2c17b12..1fe1b8b 100644
--- a/source/FFInt.cpp
+++ b/source/FFInt.cpp
@@ -196,27 +196,25 @@ namespace firefly {
   }
 
   FFInt FFInt::operator++() {
-    FFInt tmp(n);
-    tmp += 1;
-    return tmp;
+    *this += 1;
+    return *this;
   }
 
   FFInt FFInt::operator++(int) {
     FFInt tmp(n);
-    tmp += 1;
+    *this += 1;
     return tmp;
   }
 
   FFInt FFInt::operator--(int) {
     FFInt tmp(n);
-    tmp -= 1;
+    *this -= 1;
     return tmp;
   }
 
   FFInt FFInt::operator--() {
-    FFInt tmp(n);
-    tmp -= 1;
-    return tmp;
+    *this -= 1;
+    return *this;
   }
 
   bool FFInt::operator!() const {
-- 
2.43.0


From 5672a7c208482ee3bcb45fe8d431234fe054be2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:37 +0000
Subject: [PATCH 08/14] fix: FFInt replacement equal to the prime is reduced

---
 source/FFInt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/FFInt.cpp b/source/FFInt.cpp
index 1fe1b8b..c72f756 100644
--- a/source/FFInt.cpp
+++ b/source/FFInt.cpp
@@ -55,7 +55,7 @@ namespace firefly {
   FFInt::FFInt(const std::string& str, const std::vector<std::pair<std::string, uint64_t>>& replacements) {
     for (const auto & var : replacements) {
       if (var.first == str) {
-        if (var.second > p) {
+        if (var.second >= p) {
           n = var.second % p;
         } else {
           n = var.second;
-- 
2.43.0


From 82f433b85b2fdace0854c8b5f1d6889de53e81b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:18 +0000
Subject: [PATCH 09/14] fix: evaluate negative exponents in
 ShuntingYardParser::evaluate

---
 source/include/firefly/ShuntingYardParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/include/firefly/ShuntingYardParser.hpp b/source/include/firefly/ShuntingYardParser.hpp
index 4000fac..65a7785 100644
--- a/source/include/firefly/ShuntingYardParser.hpp
+++ b/source/include/firefly/ShuntingYardParser.hpp
@@ -246,7 +246,7 @@ namespace firefly {
       std::stack<FFIntTemp> nums;
 
       for (const auto& token : tokens) {
-        if (token == "+" || token == "-" || token == "*" || token == "/" || token == "^" || token == "!") {
+        if (token == "+" || token == "-" || token == "*" || token == "/" || token == "^" || token == "!" || token == "~" || token == ";") {
           // Pop two numbers
           FFIntTemp a = nums.top();
           nums.pop();
-- 
2.43.0


From 074ae6331fbc78957e16f6a858102d91e804fed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:18 +0000
Subject: [PATCH 10/14] fix: allocate enough stack entries in
 ShuntingYardParser::evaluate_pre_2

---
 source/include/firefly/ShuntingYardParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/include/firefly/ShuntingYardParser.hpp b/source/include/firefly/ShuntingYardParser.hpp
index 65a7785..5cc9d24 100644
--- a/source/include/firefly/ShuntingYardParser.hpp
+++ b/source/include/firefly/ShuntingYardParser.hpp
@@ -490,7 +490,7 @@ namespace firefly {
     }
 
     for (const auto& tokens : precomp_tokens) {
-      FFIntTemp* stack = new FFIntTemp[tokens.size()];//TODO evaluate maximum stack size. using the heap will make the evaluation slower!
+      FFIntTemp* stack = new FFIntTemp[tokens.size() + 1];//TODO evaluate maximum stack size. using the heap will make the evaluation slower!
       size_t stack_depth = 0;
 
       for (const auto& token : tokens) {
-- 
2.43.0


From 3b75bd3e0f60d0cc48808924b3ddec24905455ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:18 +0000
Subject: [PATCH 11/14] fix: keep the full RPN of a rational divisor when
 precomputing tokens

---
 source/ShuntingYardParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/ShuntingYardParser.cpp b/source/ShuntingYardParser.cpp
index e568e5a..6f7dc33 100644
--- a/source/ShuntingYardParser.cpp
+++ b/source/ShuntingYardParser.cpp
@@ -637,7 +637,9 @@ namespace firefly {
 	      partial_rpn[i].emplace_back(std::make_pair(j, v_2));
             } else if (precomp_tokens[i][j - 1].first == tokens::NUMBER && (precomp_tokens[i][j - 2].first == tokens::VARIABLE || precomp_tokens[i][j - 2].first == tokens::NEG_VARIABLE)) {
               FFInt inverse = 1 / precomp_tokens[i][j - 1].second;
-	      partial_rpn[i].back().second = {{"1", partial_rpn[i].back().second[0] , "/"}};
+	      auto& divisor_rpn = partial_rpn[i].back().second;
+	      divisor_rpn.insert(divisor_rpn.begin(), "1");
+	      divisor_rpn.emplace_back("/");
 
               precomp_tokens[i][j - 1].second = inverse;
               precomp_tokens[i][j] = {tokens::MULT, 0};
-- 
2.43.0


From 7fe3d7928c13847440c00825c250bd8ad3f19393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:43 +0000
Subject: [PATCH 12/14] fix: trim the partial RPN together with the precomputed
 tokens

---
 source/ShuntingYardParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/ShuntingYardParser.cpp b/source/ShuntingYardParser.cpp
index 6f7dc33..63d99b7 100644
--- a/source/ShuntingYardParser.cpp
+++ b/source/ShuntingYardParser.cpp
@@ -722,6 +722,7 @@ namespace firefly {
   std::unordered_map<size_t, size_t> ShuntingYardParser::trim(const std::unordered_set<size_t>& elements_to_keep) {
     std::vector<std::vector<std::string>> new_functions {};
     std::vector<std::vector<std::pair<uint8_t, FFInt>>> new_precomp_tokens {};
+    std::vector<std::vector<std::pair<size_t, std::vector<std::string>>>> new_partial_rpn {};
     std::vector<uint64_t> new_evaluation_positions {};
     std::unordered_map<size_t, size_t> new_positions {};
 
@@ -736,6 +737,7 @@ namespace firefly {
 
           if (!precomp_tokens.empty()) {
             new_precomp_tokens.emplace_back(std::move(precomp_tokens[i]));
+            new_partial_rpn.emplace_back(std::move(partial_rpn[i]));
           }
 
           new_positions.emplace(std::make_pair(i, new_functions.size() - 1));
@@ -755,6 +757,7 @@ namespace firefly {
 
             if (!precomp_tokens.empty()) {
               new_precomp_tokens.emplace_back(std::move(precomp_tokens[evaluation_positions[i]]));
+              new_partial_rpn.emplace_back(std::move(partial_rpn[evaluation_positions[i]]));
             }
 
             copied_functions.emplace(std::make_pair(static_cast<size_t>(evaluation_positions[i]), new_functions.size() - 1));
@@ -768,10 +771,12 @@ namespace firefly {
 
     new_functions.shrink_to_fit();
     new_precomp_tokens.shrink_to_fit();
+    new_partial_rpn.shrink_to_fit();
     new_evaluation_positions.shrink_to_fit();
 
     functions = std::move(new_functions);
     precomp_tokens = std::move(new_precomp_tokens);
+    partial_rpn = std::move(new_partial_rpn);
     evaluation_positions = std::move(new_evaluation_positions);
 
     return new_positions;
-- 
2.43.0


From 428c5b7f9ced500b6712a34ec11768c7ebe8afdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:01 +0000
Subject: [PATCH 13/14] fix: RationalNumber product leaves its left operand
 unchanged

---
 source/RationalNumber.cpp                 | 15 ++-------------
 source/include/firefly/RationalNumber.hpp |  2 +-
 2 files changed, 3 insertions(+), 14 deletions(-)

diff --git a/source/RationalNumber.cpp b/source/RationalNumber.cpp
index 2fdc5de..d16f097 100644
--- a/source/RationalNumber.cpp
+++ b/source/RationalNumber.cpp
@@ -33,19 +33,8 @@ namespace firefly {
 
   RationalNumber::RationalNumber() {}
 
-  RationalNumber RationalNumber::operator*(const RationalNumber& rn) {
-    mpz_class num(numerator * rn.numerator);
-    mpz_class den(denominator * rn.denominator);
-
-    if (den < 0) {
-      num = -num;
-      den = -den;
-    }
-
-    mpz_class gcd_(gcd(num, den));
-    numerator = num / gcd_;
-    denominator = den / gcd_;
-    return *this;
+  RationalNumber RationalNumber::operator*(const RationalNumber& rn) const {
+    return RationalNumber(*this) *= rn;
   }
 
   RationalNumber& RationalNumber::operator-=(const RationalNumber& rn) {
diff --git a/source/include/firefly/RationalNumber.hpp b/source/include/firefly/RationalNumber.hpp
index e7dd283..aa781d5 100644
--- a/source/include/firefly/RationalNumber.hpp
+++ b/source/include/firefly/RationalNumber.hpp
@@ -38,7 +38,7 @@ namespace firefly {
      */
     RationalNumber(const mpz_class& numerator_, const mpz_class& denominator_);
     RationalNumber();
-    RationalNumber operator*(const RationalNumber&);
+    RationalNumber operator*(const RationalNumber&) const;
     RationalNumber& operator+=(const RationalNumber& rn);
     RationalNumber& operator-=(const RationalNumber& rn);
     RationalNumber& operator*=(const RationalNumber& rn);
-- 
2.43.0


From b47efb28fb16b40a002a60cf6a8da7155c36aba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:48 +0000
Subject: [PATCH 14/14] fix: RatReconst::get_needed_feed_vec takes the vector
 under the lock, two interpolation jobs of one function can call it at once

---
 source/RatReconst.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RatReconst.cpp b/source/RatReconst.cpp
index 02f5a97..484f9ac 100644
--- a/source/RatReconst.cpp
+++ b/source/RatReconst.cpp
@@ -3640,6 +3640,8 @@ namespace firefly {
   }
 
   std::vector<std::pair<uint32_t, uint32_t>> RatReconst::get_needed_feed_vec() {
+    std::lock_guard<std::mutex> lock(mutex_status);
+
     std::vector<std::pair<uint32_t, uint32_t>> needed_feed_vec_tmp = std::move(needed_feed_vec);
     needed_feed_vec.clear();
 
-- 
2.43.0

