From 61db1f67f12fdd1b53c3f71a5d0300b07f7f7394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:38 +0000
Subject: [PATCH 01/61] fix: polynomial self-assignment read its own freed
 coefficients

---
 spffl/polynomials/f2n_poly_t.cpp | 3 +++
 spffl/polynomials/fp_poly_t.cpp  | 3 +++
 spffl/polynomials/fpn_poly_t.cpp | 3 +++
 spffl/polynomials/q_poly_t.cpp   | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index f4bf107..a317d47 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -136,6 +136,9 @@ int f2n_poly_t::get_characteristic(void) const { return 2; }
 
 // ----------------------------------------------------------------
 f2n_poly_t &f2n_poly_t::operator=(const f2n_poly_t &that) {
+  if (this == &that) {
+    return *this;
+  }
   if (this->coeffs) {
     delete[] this->coeffs;
   }
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 2225c4e..0be5ee2 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -126,6 +126,9 @@ int fp_poly_t::get_characteristic(void) const {
 
 // ----------------------------------------------------------------
 fp_poly_t &fp_poly_t::operator=(const fp_poly_t &that) {
+  if (this == &that) {
+    return *this;
+  }
   if (this->coeffs) {
     delete[] this->coeffs;
   }
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index 968c3db..c2bce1d 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -96,6 +96,9 @@ int fpn_poly_t::get_characteristic(void) const {
 
 // ----------------------------------------------------------------
 fpn_poly_t &fpn_poly_t::operator=(const fpn_poly_t &that) {
+  if (this == &that) {
+    return *this;
+  }
   if (this->coeffs) {
     delete[] this->coeffs;
   }
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index c39c7b8..7f7df18 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -79,6 +79,9 @@ q_poly_t::~q_poly_t(void) {
 
 // ----------------------------------------------------------------
 q_poly_t &q_poly_t::operator=(const q_poly_t &that) {
+  if (this == &that) {
+    return *this;
+  }
   if (this->coeffs) {
     delete[] this->coeffs;
   }
-- 
2.43.0


From 4139b641bd8fa141d37cc3f5c313c33f35d55316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:38 +0000
Subject: [PATCH 02/61] fix: negating a non-constant polynomial wrote past its
 coefficients

---
 spffl/polynomials/f2n_poly_t.cpp | 1 +
 spffl/polynomials/fp_poly_t.cpp  | 1 +
 spffl/polynomials/fpn_poly_t.cpp | 1 +
 spffl/polynomials/q_poly_t.cpp   | 1 +
 4 files changed, 4 insertions(+)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index a317d47..17af115 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -225,6 +225,7 @@ f2n_poly_t f2n_poly_t::operator-(const f2_polymod_t &a) const {
 // ----------------------------------------------------------------
 f2n_poly_t f2n_poly_t::operator-(void) const {
   f2n_poly_t rv;
+  rv.degree = this->degree;
   rv.coeffs = new f2_polymod_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 0be5ee2..24d17fb 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -199,6 +199,7 @@ fp_poly_t fp_poly_t::operator-(const fp_poly_t &that) const {
 // ----------------------------------------------------------------
 fp_poly_t fp_poly_t::operator-(void) const {
   fp_poly_t rv;
+  rv.degree = this->degree;
   rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index c2bce1d..5635cb4 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -169,6 +169,7 @@ fpn_poly_t fpn_poly_t::operator-(const fpn_poly_t &that) const {
 // ----------------------------------------------------------------
 fpn_poly_t fpn_poly_t::operator-(void) const {
   fpn_poly_t rv;
+  rv.degree = this->degree;
   rv.coeffs = new fp_polymod_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index 7f7df18..4c914c3 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -168,6 +168,7 @@ q_poly_t q_poly_t::operator-(const spffl::intmath::intrat_t &a) const {
 // ----------------------------------------------------------------
 q_poly_t q_poly_t::operator-(void) const {
   q_poly_t rv;
+  rv.degree = this->degree;
   rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
-- 
2.43.0


From bafcafbe7c8a037bf33620d6764040bf14ea6607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:38 +0000
Subject: [PATCH 03/61] fix: polynomial arithmetic leaked the result's initial
 coefficient

---
 spffl/polynomials/f2n_poly_t.cpp | 8 ++++++++
 spffl/polynomials/fp_poly_t.cpp  | 8 ++++++++
 spffl/polynomials/fpn_poly_t.cpp | 7 +++++++
 spffl/polynomials/q_poly_t.cpp   | 7 +++++++
 4 files changed, 30 insertions(+)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index 17af115..363c326 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -93,6 +93,7 @@ f2n_poly_t f2n_poly_t::from_base_rep(int b, const f2_poly_t &m) {
 		}
 	}
 
+	delete[] rv.coeffs;
 	rv.coeffs = new f2_polymod_t[rv.degree + 1];
 	for (int i = 0; i <= rv.degree; i++) {
 		rv.coeffs[i] = f2_polymod_t(b % m, m);
@@ -157,6 +158,7 @@ f2n_poly_t f2n_poly_t::operator+(const f2n_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new f2_polymod_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -166,6 +168,7 @@ f2n_poly_t f2n_poly_t::operator+(const f2n_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new f2_polymod_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -193,6 +196,7 @@ f2n_poly_t f2n_poly_t::operator-(const f2n_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new f2_polymod_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -202,6 +206,7 @@ f2n_poly_t f2n_poly_t::operator-(const f2n_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new f2_polymod_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -226,6 +231,7 @@ f2n_poly_t f2n_poly_t::operator-(const f2_polymod_t &a) const {
 f2n_poly_t f2n_poly_t::operator-(void) const {
   f2n_poly_t rv;
   rv.degree = this->degree;
+  delete[] rv.coeffs;
   rv.coeffs = new f2_polymod_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
@@ -237,6 +243,7 @@ f2n_poly_t f2n_poly_t::operator-(void) const {
 f2n_poly_t f2n_poly_t::operator*(const f2n_poly_t &that) const {
   f2n_poly_t rv;
   rv.degree = this->degree + that.degree;
+  delete[] rv.coeffs;
   rv.coeffs = new f2_polymod_t[rv.degree + 1];
 
   f2_polymod_t zero = this->coeffs[0] - this->coeffs[0];
@@ -367,6 +374,7 @@ void f2n_poly_t::quot_and_rem(
 
   f2n_poly_t quot;
   quot.degree = this->degree - that.degree;
+  delete[] quot.coeffs;
   quot.coeffs = new f2_polymod_t[quot.degree + 1];
 
   f2n_poly_t rem = *this;
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 24d17fb..8ee0359 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -89,6 +89,7 @@ fp_poly_t fp_poly_t::from_base_rep(int b, int m) {
     }
   }
 
+  delete[] rv.coeffs;
   rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
   for (int i = 0; i <= rv.degree; i++) {
     rv.coeffs[i] = spffl::intmath::intmod_t(b % m, m);
@@ -147,6 +148,7 @@ fp_poly_t fp_poly_t::operator+(const fp_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -156,6 +158,7 @@ fp_poly_t fp_poly_t::operator+(const fp_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -175,6 +178,7 @@ fp_poly_t fp_poly_t::operator-(const fp_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -184,6 +188,7 @@ fp_poly_t fp_poly_t::operator-(const fp_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -200,6 +205,7 @@ fp_poly_t fp_poly_t::operator-(const fp_poly_t &that) const {
 fp_poly_t fp_poly_t::operator-(void) const {
   fp_poly_t rv;
   rv.degree = this->degree;
+  delete[] rv.coeffs;
   rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
@@ -211,6 +217,7 @@ fp_poly_t fp_poly_t::operator-(void) const {
 fp_poly_t fp_poly_t::operator*(const fp_poly_t &that) const {
   fp_poly_t rv;
   rv.degree = this->degree + that.degree;
+  delete[] rv.coeffs;
   rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
 
   spffl::intmath::intmod_t zero = this->coeffs[0] - this->coeffs[0];
@@ -357,6 +364,7 @@ void fp_poly_t::quot_and_rem(
 
   fp_poly_t quot;
   quot.degree = this->degree - that.degree;
+  delete[] quot.coeffs;
   quot.coeffs = new spffl::intmath::intmod_t[quot.degree + 1];
 
   fp_poly_t rem = *this;
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index 5635cb4..b3e03bd 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -117,6 +117,7 @@ fpn_poly_t fpn_poly_t::operator+(const fpn_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new fp_polymod_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -126,6 +127,7 @@ fpn_poly_t fpn_poly_t::operator+(const fpn_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new fp_polymod_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -145,6 +147,7 @@ fpn_poly_t fpn_poly_t::operator-(const fpn_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new fp_polymod_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -154,6 +157,7 @@ fpn_poly_t fpn_poly_t::operator-(const fpn_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new fp_polymod_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -170,6 +174,7 @@ fpn_poly_t fpn_poly_t::operator-(const fpn_poly_t &that) const {
 fpn_poly_t fpn_poly_t::operator-(void) const {
   fpn_poly_t rv;
   rv.degree = this->degree;
+  delete[] rv.coeffs;
   rv.coeffs = new fp_polymod_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
@@ -181,6 +186,7 @@ fpn_poly_t fpn_poly_t::operator-(void) const {
 fpn_poly_t fpn_poly_t::operator*(const fpn_poly_t &that) const {
   fpn_poly_t rv;
   rv.degree = this->degree + that.degree;
+  delete[] rv.coeffs;
   rv.coeffs = new fp_polymod_t[rv.degree + 1];
 
   fp_polymod_t zero = this->coeffs[0] - this->coeffs[0];
@@ -337,6 +343,7 @@ void fpn_poly_t::quot_and_rem(
 
   fpn_poly_t quot;
   quot.degree = this->degree - that.degree;
+  delete[] quot.coeffs;
   quot.coeffs = new fp_polymod_t[quot.degree + 1];
 
   fpn_poly_t rem = *this;
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index 4c914c3..99ddb60 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -100,6 +100,7 @@ q_poly_t q_poly_t::operator+(const q_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -109,6 +110,7 @@ q_poly_t q_poly_t::operator+(const q_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -136,6 +138,7 @@ q_poly_t q_poly_t::operator-(const q_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -145,6 +148,7 @@ q_poly_t q_poly_t::operator-(const q_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -169,6 +173,7 @@ q_poly_t q_poly_t::operator-(const spffl::intmath::intrat_t &a) const {
 q_poly_t q_poly_t::operator-(void) const {
   q_poly_t rv;
   rv.degree = this->degree;
+  delete[] rv.coeffs;
   rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
@@ -180,6 +185,7 @@ q_poly_t q_poly_t::operator-(void) const {
 q_poly_t q_poly_t::operator*(const q_poly_t &that) const {
   q_poly_t rv;
   rv.degree = this->degree + that.degree;
+  delete[] rv.coeffs;
   rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
 
   spffl::intmath::intrat_t zero = this->coeffs[0] - this->coeffs[0];
@@ -310,6 +316,7 @@ void q_poly_t::quot_and_rem(
 
   q_poly_t quot;
   quot.degree = this->degree - that.degree;
+  delete[] quot.coeffs;
   quot.coeffs = new spffl::intmath::intrat_t[quot.degree + 1];
 
   q_poly_t rem = *this;
-- 
2.43.0


From 592f7b37d36a3836aaa1ec97e592baa7dc1ba6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:54 +0000
Subject: [PATCH 04/61] fix: residue arithmetic overflowed int for moduli above
 46340

---
 spffl/intmath/intmod_t.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/spffl/intmath/intmod_t.cpp b/spffl/intmath/intmod_t.cpp
index 4ca4b6c..140f304 100644
--- a/spffl/intmath/intmod_t.cpp
+++ b/spffl/intmath/intmod_t.cpp
@@ -52,10 +52,10 @@ intmod_t intmod_t::exp(int e) const {
 
   while (e != 0) {
     if (e & 1) {
-      rv.residue = (rv.residue * xp) % this->modulus;
+      rv.residue = ((long long)rv.residue * xp) % this->modulus;
     }
     e  = (unsigned)e >> 1;
-    xp = (xp * xp) % this->modulus;
+    xp = ((long long)xp * xp) % this->modulus;
   }
 
   return rv;
@@ -260,14 +260,15 @@ intmod_t &intmod_t::operator=(const intmod_t &that) {
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator+(const intmod_t &that) const {
   this->check_moduli(that);
-  intmod_t rv(this->residue + that.residue, this->modulus);
+  intmod_t rv(
+      ((long long)this->residue + that.residue) % this->modulus, this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator-(const intmod_t &that) const {
   this->check_moduli(that);
-  intmod_t rv(this->modulus + this->residue - that.residue, this->modulus);
+  intmod_t rv(this->residue - that.residue, this->modulus);
   return rv;
 }
 
@@ -281,25 +282,26 @@ intmod_t intmod_t::operator-(void) const {
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator*(const intmod_t &that) const {
   this->check_moduli(that);
-  intmod_t rv(this->residue * that.residue, this->modulus);
+  intmod_t rv(
+      ((long long)this->residue * that.residue) % this->modulus, this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator+(int a) const {
-  intmod_t rv(this->residue + a, this->modulus);
+  intmod_t rv(((long long)this->residue + a) % this->modulus, this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator-(int a) const {
-  intmod_t rv(this->modulus + this->residue - a, this->modulus);
+  intmod_t rv(((long long)this->residue - a) % this->modulus, this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator*(int a) const {
-  intmod_t rv(this->residue * a, this->modulus);
+  intmod_t rv(((long long)this->residue * a) % this->modulus, this->modulus);
   return rv;
 }
 
@@ -354,7 +356,7 @@ bool intmod_t::recip(intmod_t &rinv) const {
   }
 
   intmod_t rv = this->exp(phi - 1);
-  int check   = (this->residue * rv.residue) % this->modulus;
+  int check   = ((long long)this->residue * rv.residue) % this->modulus;
   if (check != 1) {
     return false;
   } else {
-- 
2.43.0


From d1e7d37404f46cdb9ff4074a994804bf91e422ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:54 +0000
Subject: [PATCH 05/61] fix: reading a negative residue left it unreduced

---
 spffl/intmath/intmod_t.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spffl/intmath/intmod_t.cpp b/spffl/intmath/intmod_t.cpp
index 140f304..308c38a 100644
--- a/spffl/intmath/intmod_t.cpp
+++ b/spffl/intmath/intmod_t.cpp
@@ -88,6 +88,9 @@ std::istream &operator>>(std::istream &is, intmod_t &a) {
   a.check_modulus();
   is >> a.residue;
   a.residue %= a.modulus;
+  if (a.residue < 0) { // Wacky C mod operator.
+    a.residue += a.modulus;
+  }
   return is;
 }
 
-- 
2.43.0


From 66c0aaad9ce3888df7d5a59980e43154634e163c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:32 +0000
Subject: [PATCH 06/61] fix: rational arithmetic overflowed although the result
 fits

---
 spffl/intmath/intrat_t.cpp | 58 ++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/spffl/intmath/intrat_t.cpp b/spffl/intmath/intrat_t.cpp
index 14bd838..6e72ce8 100644
--- a/spffl/intmath/intrat_t.cpp
+++ b/spffl/intmath/intrat_t.cpp
@@ -15,6 +15,22 @@
 
 namespace spffl::intmath {
 
+// ----------------------------------------------------------------
+// Products of ints need not fit in an int, even when the reduced quotient does.
+static intrat_t reduce(long long numer, long long denom) {
+  long long a = numer, b = denom;
+  while (b != 0) {
+    long long r = a % b;
+    a           = b;
+    b           = r;
+  }
+  if (a != 0) {
+    numer /= a;
+    denom /= a;
+  }
+  return intrat_t((int)numer, (int)denom);
+}
+
 // ----------------------------------------------------------------
 intrat_t::intrat_t(int numerator, int denominator) {
   this->numer = numerator;
@@ -68,20 +84,16 @@ intrat_t &intrat_t::operator=(int numerator) {
 //  b     d      bd
 
 intrat_t intrat_t::operator+(const intrat_t &that) const {
-  intrat_t rv;
-  rv.numer = this->numer * that.denom + this->denom * that.numer;
-  rv.denom = this->denom * that.denom;
-  rv.simplify();
-  return rv;
+  return reduce((long long)this->numer * that.denom +
+          (long long)this->denom * that.numer,
+      (long long)this->denom * that.denom);
 }
 
 // ----------------------------------------------------------------
 intrat_t intrat_t::operator-(const intrat_t &that) const {
-  intrat_t rv;
-  rv.numer = this->numer * that.denom - this->denom * that.numer;
-  rv.denom = this->denom * that.denom;
-  rv.simplify();
-  return rv;
+  return reduce((long long)this->numer * that.denom -
+          (long long)this->denom * that.numer,
+      (long long)this->denom * that.denom);
 }
 
 // ----------------------------------------------------------------
@@ -93,20 +105,14 @@ intrat_t intrat_t::operator-(void) const {
 
 // ----------------------------------------------------------------
 intrat_t intrat_t::operator*(const intrat_t &that) {
-  intrat_t rv;
-  rv.numer = this->numer * that.numer;
-  rv.denom = this->denom * that.denom;
-  rv.simplify();
-  return rv;
+  return reduce((long long)this->numer * that.numer,
+      (long long)this->denom * that.denom);
 }
 
 // ----------------------------------------------------------------
 intrat_t intrat_t::operator/(const intrat_t &that) {
-  intrat_t rv;
-  rv.numer = this->numer * that.denom;
-  rv.denom = this->denom * that.numer;
-  rv.simplify();
-  return rv;
+  return reduce((long long)this->numer * that.denom,
+      (long long)this->denom * that.numer);
 }
 
 // ----------------------------------------------------------------
@@ -304,22 +310,26 @@ bool intrat_t::operator!=(int that) const { return !(*this == that); }
 
 // ----------------------------------------------------------------
 bool intrat_t::operator<(const intrat_t &that) const {
-  return ((this->numer * that.denom) < (this->denom * that.numer));
+  return ((long long)this->numer * that.denom) <
+      ((long long)this->denom * that.numer);
 }
 
 // ----------------------------------------------------------------
 bool intrat_t::operator<=(const intrat_t &that) const {
-  return ((this->numer * that.denom) <= (this->denom * that.numer));
+  return ((long long)this->numer * that.denom) <=
+      ((long long)this->denom * that.numer);
 }
 
 // ----------------------------------------------------------------
 bool intrat_t::operator>(const intrat_t &that) const {
-  return ((this->numer * that.denom) > (this->denom * that.numer));
+  return ((long long)this->numer * that.denom) >
+      ((long long)this->denom * that.numer);
 }
 
 // ----------------------------------------------------------------
 bool intrat_t::operator>=(const intrat_t &that) const {
-  return ((this->numer * that.denom) >= (this->denom * that.numer));
+  return ((long long)this->numer * that.denom) >=
+      ((long long)this->denom * that.numer);
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From 10969fc0da51b922bcda3256baf3e2d1982506b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:32 +0000
Subject: [PATCH 07/61] fix: powers overflowed in a squaring past the last
 exponent bit

---
 spffl/intmath/int_power.cpp | 4 +++-
 spffl/intmath/intrat_t.cpp  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/spffl/intmath/int_power.cpp b/spffl/intmath/int_power.cpp
index a2fa5a2..4988d7c 100644
--- a/spffl/intmath/int_power.cpp
+++ b/spffl/intmath/int_power.cpp
@@ -17,7 +17,9 @@ int int_power(int b, int e) {
       rv = rv * b2;
     }
     e  = (unsigned)e >> 1;
-    b2 = b2 * b2;
+    if (e != 0) {
+      b2 = b2 * b2;
+    }
   }
   return rv;
 }
diff --git a/spffl/intmath/intrat_t.cpp b/spffl/intmath/intrat_t.cpp
index 6e72ce8..f23dcd0 100644
--- a/spffl/intmath/intrat_t.cpp
+++ b/spffl/intmath/intrat_t.cpp
@@ -162,7 +162,9 @@ intrat_t intrat_t::exp(int e) {
       rv *= xp;
     }
     e = (unsigned)e >> 1;
-    xp *= xp;
+    if (e != 0) {
+      xp *= xp;
+    }
   }
 
   return rv;
-- 
2.43.0


From da89637039bb89a92ed30501ffb9d4f10d691710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:32 +0000
Subject: [PATCH 08/61] fix: gcd with a zero argument kept the other argument's
 sign

---
 spffl/intmath/int_gcd.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/spffl/intmath/int_gcd.cpp b/spffl/intmath/int_gcd.cpp
index 56017f8..a4fabe3 100644
--- a/spffl/intmath/int_gcd.cpp
+++ b/spffl/intmath/int_gcd.cpp
@@ -12,13 +12,6 @@ namespace spffl::intmath {
 int int_gcd(int a, int b) {
   int r;
 
-  if (a == 0) {
-    return b;
-  }
-  if (b == 0) {
-    return a;
-  }
-
   if (a < 0) { // Breaks for most negative int (-2^63); I don't care.
     a = -a;
   }
@@ -26,6 +19,13 @@ int int_gcd(int a, int b) {
     b = -b;
   }
 
+  if (a == 0) {
+    return b;
+  }
+  if (b == 0) {
+    return a;
+  }
+
   while (1) {
     r = a % b;
     if (r == 0) {
-- 
2.43.0


From 4f0f2bd851f65ef57023284aa4bb42f2461fe90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:32 +0000
Subject: [PATCH 09/61] fix: lcm overflowed although the result fits, and
 trapped on 0, 0

---
 spffl/intmath/int_gcd.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spffl/intmath/int_gcd.cpp b/spffl/intmath/int_gcd.cpp
index a4fabe3..fa7fba5 100644
--- a/spffl/intmath/int_gcd.cpp
+++ b/spffl/intmath/int_gcd.cpp
@@ -81,7 +81,12 @@ int int_ext_gcd(int a, int b, int &m, int &n) {
 }
 
 // ----------------------------------------------------------------
-int int_lcm(int a, int b) { return (a * b) / int_gcd(a, b); }
+int int_lcm(int a, int b) {
+  if (a == 0 || b == 0) {
+    return 0;
+  }
+  return a / int_gcd(a, b) * b;
+}
 
 // ----------------------------------------------------------------
 int gcd(const int a, const int b) { return int_gcd(a, b); }
-- 
2.43.0


From bf0a168f0a0957081ba9a63c879cfbe8df9ceed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:32 +0000
Subject: [PATCH 10/61] fix: extended gcd trapped on a zero second argument

---
 spffl/intmath/int_gcd.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spffl/intmath/int_gcd.cpp b/spffl/intmath/int_gcd.cpp
index fa7fba5..464940c 100644
--- a/spffl/intmath/int_gcd.cpp
+++ b/spffl/intmath/int_gcd.cpp
@@ -43,6 +43,12 @@ int int_ext_gcd(int a, int b, int &m, int &n) {
   int mprime, nprime, c, q, r, t, qm, qn;
   int d; // Return value.
 
+  if (b == 0) {
+    m = 1;
+    n = 0;
+    return a;
+  }
+
   // Initialize
   mprime = 1;
   n      = 1;
-- 
2.43.0


From 6d7db65c7cac0eef6cf42de53ae8596959951cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:50 +0000
Subject: [PATCH 11/61] fix: a zero F2[x] product kept zero parts which later
 multiplies overran

---
 spffl/polynomials/f2_poly_t.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spffl/polynomials/f2_poly_t.cpp b/spffl/polynomials/f2_poly_t.cpp
index f428664..5aee48a 100644
--- a/spffl/polynomials/f2_poly_t.cpp
+++ b/spffl/polynomials/f2_poly_t.cpp
@@ -153,6 +153,8 @@ f2_poly_t f2_poly_t::operator*(const f2_poly_t &that) const {
     }
     ashift._promote_1();
   }
+  // Zero times anything needs only one part.
+  out.trim_parts();
   return out;
 }
 
-- 
2.43.0


From 4aa5be9ce21df2d347d139058297a5082ea28d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:50 +0000
Subject: [PATCH 12/61] fix: f2_poly_t::set_coeff used a 32-bit mask for 64-bit
 parts

---
 spffl/polynomials/f2_poly_t.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spffl/polynomials/f2_poly_t.cpp b/spffl/polynomials/f2_poly_t.cpp
index 5aee48a..a907e74 100644
--- a/spffl/polynomials/f2_poly_t.cpp
+++ b/spffl/polynomials/f2_poly_t.cpp
@@ -780,9 +780,9 @@ void f2_poly_t::set_coeff(int pos, spffl::bits::bit_t b) {
   }
   this->check_neg_pos(pos);
   if (b.get_residue()) {
-    this->parts[which_part] |= (1 << which_bit);
+    this->parts[which_part] |= (F2_POLY_LSB << which_bit);
   } else {
-    this->parts[which_part] &= ~(1 << which_bit);
+    this->parts[which_part] &= ~(F2_POLY_LSB << which_bit);
     this->trim_parts();
   }
 }
-- 
2.43.0


From 15b354479a6c17a5008d1b8c34633c53ca78d074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:50 +0000
Subject: [PATCH 13/61] fix: bit_t powers of zero and assignment from an int
 ignored their domain

---
 spffl/bits/bit_t.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/spffl/bits/bit_t.h b/spffl/bits/bit_t.h
index f13f82e..4b998fb 100644
--- a/spffl/bits/bit_t.h
+++ b/spffl/bits/bit_t.h
@@ -38,7 +38,7 @@ public:
   }
 
   bit_t &operator=(int e) {
-    this->residue = e;
+    this->residue = e & 1;
     return *this;
   }
 
@@ -62,7 +62,14 @@ public:
     return rv;
   }
 
-  bit_t exp(int power) { return *this; }
+  bit_t exp(int power) {
+    if (this->residue == 0 && power < 0) {
+      std::stringstream ss;
+      ss << "bit_t::exp:  division by zero.\n";
+      throw spffl::exception_t(ss.str());
+    }
+    return *this;
+  }
 
   bit_t operator/(bit_t that) {
     if (that.residue == 0) {
-- 
2.43.0


From b1c4efd5ac95342982590ba94225272e8a93fb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:36 +0000
Subject: [PATCH 14/61] fix: a failed scan of a polynomial freed its
 coefficients twice and leaked

---
 spffl/polynomials/f2n_poly_t.cpp | 24 ++++++++++++++++-------
 spffl/polynomials/fp_poly_t.cpp  | 33 +++++++++++++++++++-------------
 spffl/polynomials/fpn_poly_t.cpp | 24 ++++++++++++++++-------
 spffl/polynomials/q_poly_t.cpp   | 33 +++++++++++++++++++-------------
 4 files changed, 74 insertions(+), 40 deletions(-)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index 363c326..3017f3d 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -9,6 +9,7 @@
 #include "spffl/base/spffl_exception.h"
 #include "spffl/base/tokenize.h"
 #include <string.h>
+#include <vector>
 
 namespace spffl::polynomials {
 
@@ -894,9 +895,11 @@ std::istringstream &operator>>(std::istringstream &iss, f2n_poly_t &poly) {
 
 // ----------------------------------------------------------------
 bool f2n_poly_t::from_string(const std::string &string, const f2_poly_t &m) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
+  if (string.empty()) {
+    return false;
   }
+  // Leading coefficient first.  The old value is kept until the scan succeeds.
+  std::vector<f2_polymod_t> scanned;
 
   int num_colons = 0;
   for (const char *q = string.c_str(); *q; q++) {
@@ -912,13 +915,12 @@ bool f2n_poly_t::from_string(const std::string &string, const f2_poly_t &m) {
   if (argc < 1) {
     // Needs an error message, but this coding error is
     // unlikely since we already counted colons.
+    delete[] argv;
+    free(dup);
     return false;
   }
 
-  this->degree = argc - 1;
-  this->coeffs = new f2_polymod_t[this->degree + 1];
-  int argi, ci;
-  for (argi = 0, ci = this->degree; argi < argc; argi++, ci--) {
+  for (int argi = 0; argi < argc; argi++) {
     // Scan each coefficient, then reduce mod m
     f2_poly_t r;
 
@@ -928,14 +930,22 @@ bool f2n_poly_t::from_string(const std::string &string, const f2_poly_t &m) {
       std::stringstream ss;
       ss << "f2n_poly_t::from_string: "
          << "scan failure at \"" << string << "\"\n";
+      delete[] argv;
+      free(dup);
       return false;
     } else {
-      this->coeffs[ci] = f2_polymod_t(r, m);
+      scanned.push_back(f2_polymod_t(r, m));
     }
   }
   delete[] argv;
   free(dup);
 
+  delete[] this->coeffs;
+  this->degree = scanned.size() - 1;
+  this->coeffs = new f2_polymod_t[this->degree + 1];
+  for (int i = 0; i <= this->degree; i++) {
+    this->coeffs[i] = scanned[this->degree - i];
+  }
   this->recompute_degree();
   return true;
 }
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 8ee0359..edaf948 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -9,6 +9,7 @@
 #include "spffl/base/spffl_exception.h"
 #include "spffl/base/tokenize.h"
 #include <string.h>
+#include <vector>
 
 namespace spffl::polynomials {
 
@@ -833,9 +834,11 @@ std::istream &operator>>(std::istream &is, fp_poly_t &poly) {
 
 // ----------------------------------------------------------------
 bool fp_poly_t::from_string(const std::string &string, int p) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
+  if (string.empty()) {
+    return false;
   }
+  // Leading coefficient first.  The old value is kept until the scan succeeds.
+  std::vector<spffl::intmath::intmod_t> scanned;
 
   int num_commas = 0;
   for (const char *q = string.c_str(); *q; q++) {
@@ -847,11 +850,8 @@ bool fp_poly_t::from_string(const std::string &string, int p) {
   if ((num_commas == 0) && (p < 10)) {
     // Allow comma-free input as long as all residues are
     // single-digit.
-    int len      = string.length();
-    this->degree = len - 1;
-    this->coeffs = new spffl::intmath::intmod_t[this->degree + 1];
-    int si, ci;
-    for (si = 0, ci = this->degree; si < len; si++, ci--) {
+    int len = string.length();
+    for (int si = 0; si < len; si++) {
       char ascii_digit = string[si];
       if ((ascii_digit < '0') || (ascii_digit > '9')) {
         std::stringstream ss;
@@ -860,7 +860,7 @@ bool fp_poly_t::from_string(const std::string &string, int p) {
         ss << "Didn't like '" << ascii_digit << "'\n";
         return false;
       }
-      this->coeffs[ci] = spffl::intmath::intmod_t(ascii_digit - '0', p);
+      scanned.push_back(spffl::intmath::intmod_t(ascii_digit - '0', p));
     }
   } else {
     char *dup   = strdup(string.c_str());
@@ -869,13 +869,12 @@ bool fp_poly_t::from_string(const std::string &string, int p) {
     if (argc < 1) {
       // Needs an error message, but this coding error is
       // unlikely since we already counted commas.
+      delete[] argv;
+      free(dup);
       return false;
     }
 
-    this->degree = argc - 1;
-    this->coeffs = new spffl::intmath::intmod_t[this->degree + 1];
-    int argi, ci;
-    for (argi = 0, ci = this->degree; argi < argc; argi++, ci--) {
+    for (int argi = 0; argi < argc; argi++) {
       // Scan each coefficient, then reduce mod p
       int r;
 
@@ -885,15 +884,23 @@ bool fp_poly_t::from_string(const std::string &string, int p) {
         std::stringstream ss;
         ss << "fp_poly_t::from_string: "
            << "scan failure at \"" << string << "\"\n";
+        delete[] argv;
+        free(dup);
         return false;
       } else {
-        this->coeffs[ci] = spffl::intmath::intmod_t(r, p);
+        scanned.push_back(spffl::intmath::intmod_t(r, p));
       }
     }
     delete[] argv;
     free(dup);
   }
 
+  delete[] this->coeffs;
+  this->degree = scanned.size() - 1;
+  this->coeffs = new spffl::intmath::intmod_t[this->degree + 1];
+  for (int i = 0; i <= this->degree; i++) {
+    this->coeffs[i] = scanned[this->degree - i];
+  }
   this->recompute_degree();
   return true;
 }
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index b3e03bd..fb3a8db 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -10,6 +10,7 @@
 #include "spffl/base/tokenize.h"
 
 #include <string.h>
+#include <vector>
 
 namespace spffl::polynomials {
 
@@ -806,9 +807,11 @@ std::istream &operator>>(std::istream &is, fpn_poly_t &poly) {
 
 // ----------------------------------------------------------------
 bool fpn_poly_t::from_string(const std::string &string, fp_poly_t m) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
+  if (string.empty()) {
+    return false;
   }
+  // Leading coefficient first.  The old value is kept until the scan succeeds.
+  std::vector<fp_polymod_t> scanned;
 
   int num_colons = 0;
   for (const char *q = string.c_str(); *q; q++) {
@@ -824,13 +827,12 @@ bool fpn_poly_t::from_string(const std::string &string, fp_poly_t m) {
   if (argc < 1) {
     // Needs an error message, but this coding error is
     // unlikely since we already counted colons.
+    delete[] argv;
+    free(dup);
     return false;
   }
 
-  this->degree = argc - 1;
-  this->coeffs = new fp_polymod_t[this->degree + 1];
-  int argi, ci;
-  for (argi = 0, ci = this->degree; argi < argc; argi++, ci--) {
+  for (int argi = 0; argi < argc; argi++) {
     // Scan each coefficient, then reduce mod m
     fp_poly_t r = m; // Set modulus
 
@@ -840,14 +842,22 @@ bool fpn_poly_t::from_string(const std::string &string, fp_poly_t m) {
       std::stringstream ss;
       ss << "fpn_poly_t::from_string: "
          << "scan failure at \"" << string << "\"\n";
+      delete[] argv;
+      free(dup);
       return false;
     } else {
-      this->coeffs[ci] = fp_polymod_t(r, m);
+      scanned.push_back(fp_polymod_t(r, m));
     }
   }
   delete[] argv;
   free(dup);
 
+  delete[] this->coeffs;
+  this->degree = scanned.size() - 1;
+  this->coeffs = new fp_polymod_t[this->degree + 1];
+  for (int i = 0; i <= this->degree; i++) {
+    this->coeffs[i] = scanned[this->degree - i];
+  }
   this->recompute_degree();
   return true;
 }
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index 99ddb60..0afbe28 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -11,6 +11,7 @@
 #include "spffl/intmath/intrat_t.h"
 #include <stdlib.h>
 #include <string.h>
+#include <vector>
 
 namespace spffl::polynomials {
 
@@ -723,9 +724,11 @@ std::istream &operator>>(std::istream &is, q_poly_t &poly) {
 
 // ----------------------------------------------------------------
 bool q_poly_t::from_string(const std::string &string) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
+  if (string.empty()) {
+    return false;
   }
+  // Leading coefficient first.  The old value is kept until the scan succeeds.
+  std::vector<spffl::intmath::intrat_t> scanned;
 
   int num_commas = 0;
   for (const char *q = string.c_str(); *q; q++) {
@@ -737,11 +740,8 @@ bool q_poly_t::from_string(const std::string &string) {
   if (num_commas == 0) {
     // Allow comma-free input as long as all residues are
     // single-digit.
-    int len      = string.length();
-    this->degree = len - 1;
-    this->coeffs = new spffl::intmath::intrat_t[this->degree + 1];
-    int si, ci;
-    for (si = 0, ci = this->degree; si < len; si++, ci--) {
+    int len = string.length();
+    for (int si = 0; si < len; si++) {
       char ascii_digit = string[si];
       if ((ascii_digit < '0') || (ascii_digit > '9')) {
         std::stringstream ss;
@@ -750,7 +750,7 @@ bool q_poly_t::from_string(const std::string &string) {
         ss << "Didn't like '" << ascii_digit << "'\n";
         return false;
       }
-      this->coeffs[ci] = spffl::intmath::intrat_t(ascii_digit - '0');
+      scanned.push_back(spffl::intmath::intrat_t(ascii_digit - '0'));
     }
   } else {
     char *dup   = strdup(string.c_str());
@@ -759,13 +759,12 @@ bool q_poly_t::from_string(const std::string &string) {
     if (argc < 1) {
       // Needs an error message, but this coding error is
       // unlikely since we already counted commas.
+      delete[] argv;
+      free(dup);
       return false;
     }
 
-    this->degree = argc - 1;
-    this->coeffs = new spffl::intmath::intrat_t[this->degree + 1];
-    int argi, ci;
-    for (argi = 0, ci = this->degree; argi < argc; argi++, ci--) {
+    for (int argi = 0; argi < argc; argi++) {
       // Scan each coefficient.
       int r;
 
@@ -775,15 +774,23 @@ bool q_poly_t::from_string(const std::string &string) {
         std::stringstream ss;
         ss << "q_poly_t::from_string: "
            << "scan failure at \"" << string << "\"\n";
+        delete[] argv;
+        free(dup);
         return false;
       } else {
-        this->coeffs[ci] = spffl::intmath::intrat_t(r);
+        scanned.push_back(spffl::intmath::intrat_t(r));
       }
     }
     delete[] argv;
     free(dup);
   }
 
+  delete[] this->coeffs;
+  this->degree = scanned.size() - 1;
+  this->coeffs = new spffl::intmath::intrat_t[this->degree + 1];
+  for (int i = 0; i <= this->degree; i++) {
+    this->coeffs[i] = scanned[this->degree - i];
+  }
   this->recompute_degree();
   return true;
 }
-- 
2.43.0


From 76157dc09c16919f58c424b9f22a8dfceac7e0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:09 +0000
Subject: [PATCH 15/61] fix: a polynomial residue times a scalar scaled the
 modulus or mishandled negatives

---
 spffl/polynomials/fp_polymod_t.cpp  | 5 ++++-
 spffl/polynomials/fpn_polymod_t.cpp | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/spffl/polynomials/fp_polymod_t.cpp b/spffl/polynomials/fp_polymod_t.cpp
index eb90b3f..a3bc342 100644
--- a/spffl/polynomials/fp_polymod_t.cpp
+++ b/spffl/polynomials/fp_polymod_t.cpp
@@ -96,6 +96,9 @@ fp_polymod_t fp_polymod_t::operator*(int a) const {
   fp_polymod_t rv(*this);
   int p = this->get_characteristic();
   a %= p;
+  if (a < 0) {
+    a += p;
+  }
   if (a == 0) {
     rv = rv - rv;
   } else {
@@ -109,7 +112,7 @@ fp_polymod_t fp_polymod_t::operator*(int a) const {
 // ----------------------------------------------------------------
 fp_polymod_t fp_polymod_t::operator*(spffl::intmath::intmod_t a) const {
   fp_polymod_t rv(*this);
-  rv.modulus *= a;
+  rv.residue *= a;
   return rv;
 }
 
diff --git a/spffl/polynomials/fpn_polymod_t.cpp b/spffl/polynomials/fpn_polymod_t.cpp
index cac4515..ff9eac8 100644
--- a/spffl/polynomials/fpn_polymod_t.cpp
+++ b/spffl/polynomials/fpn_polymod_t.cpp
@@ -95,7 +95,11 @@ fpn_polymod_t fpn_polymod_t::operator*(const fpn_polymod_t &that) const {
 
 // ----------------------------------------------------------------
 fpn_polymod_t fpn_polymod_t::operator*(int a) const {
-  // xxx get the characteristic and reduce a mod that.
+  int p = this->get_characteristic();
+  a %= p;
+  if (a < 0) {
+    a += p;
+  }
   fpn_polymod_t rv = *this - *this;
   for (int i = 0; i < a; i++) {
     rv += *this;
-- 
2.43.0


From 46782ebe6c67747fe1f71388dac6c1c29e55da7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:09 +0000
Subject: [PATCH 16/61] fix: the negative of a rational function was not in
 canonical form

---
 spffl/rationals/f2n_polyrat_t.cpp | 1 +
 spffl/rationals/fp_polyrat_t.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/spffl/rationals/f2n_polyrat_t.cpp b/spffl/rationals/f2n_polyrat_t.cpp
index c81e816..179fe19 100644
--- a/spffl/rationals/f2n_polyrat_t.cpp
+++ b/spffl/rationals/f2n_polyrat_t.cpp
@@ -99,6 +99,7 @@ f2n_polyrat_t f2n_polyrat_t::operator-(void) const {
   f2n_polyrat_t rv;
   rv.numer = -this->numer;
   rv.denom = this->denom;
+  rv.simplify();
   return rv;
 }
 
diff --git a/spffl/rationals/fp_polyrat_t.cpp b/spffl/rationals/fp_polyrat_t.cpp
index 7878e52..1e1dc75 100644
--- a/spffl/rationals/fp_polyrat_t.cpp
+++ b/spffl/rationals/fp_polyrat_t.cpp
@@ -99,6 +99,7 @@ fp_polyrat_t fp_polyrat_t::operator-(void) const {
   fp_polyrat_t rv;
   rv.numer = -this->numer;
   rv.denom = this->denom;
+  rv.simplify();
   return rv;
 }
 
-- 
2.43.0


From 133392aad4c8a967f43f91d4079c9a9ce451a1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:09 +0000
Subject: [PATCH 17/61] fix: scanning a fraction accepted text with no number
 in it

---
 spffl/intmath/intrat_t.cpp        | 12 ++++++++++++
 spffl/rationals/f2_polyrat_t.cpp  | 12 ++++++++++++
 spffl/rationals/f2n_polyrat_t.cpp | 12 ++++++++++++
 spffl/rationals/fp_polyrat_t.cpp  | 12 ++++++++++++
 4 files changed, 48 insertions(+)

diff --git a/spffl/intmath/intrat_t.cpp b/spffl/intmath/intrat_t.cpp
index f23dcd0..a2cb9b4 100644
--- a/spffl/intmath/intrat_t.cpp
+++ b/spffl/intmath/intrat_t.cpp
@@ -197,12 +197,18 @@ std::istream &operator>>(std::istream &is, intrat_t &a) {
   }
 
   is >> a.numer;
+  if (is.fail()) {
+    return is;
+  }
   if (is.eof()) {
     a.denom = 1;
   }
   if (is.peek() == '/') {
     (void)is.get();
     is >> a.denom;
+    if (is.fail()) {
+      return is;
+    }
   } else {
     // Clear failure code from not having found the '/'.
     is.clear();
@@ -230,11 +236,17 @@ std::istringstream &operator>>(std::istringstream &iss, intrat_t &a) {
   }
 
   iss >> a.numer;
+  if (iss.fail()) {
+    return iss;
+  }
   if (iss.eof()) {
     a.denom = 1;
   } else if (iss.peek() == '/') {
     (void)iss.get();
     iss >> a.denom;
+    if (iss.fail()) {
+      return iss;
+    }
   } else {
     // Clear failure code from not having found the '/'.
     iss.clear();
diff --git a/spffl/rationals/f2_polyrat_t.cpp b/spffl/rationals/f2_polyrat_t.cpp
index e3c2da0..a3104ac 100644
--- a/spffl/rationals/f2_polyrat_t.cpp
+++ b/spffl/rationals/f2_polyrat_t.cpp
@@ -204,12 +204,18 @@ std::istream &operator>>(std::istream &is, f2_polyrat_t &a) {
   }
 
   is >> a.numer;
+  if (is.fail()) {
+    return is;
+  }
   if (is.eof()) {
     a.denom = 1;
   }
   if (is.peek() == '/') {
     (void)is.get();
     is >> a.denom;
+    if (is.fail()) {
+      return is;
+    }
   } else {
     // Clear failure code from not having found the '/'.
     is.clear();
@@ -237,11 +243,17 @@ std::istringstream &operator>>(std::istringstream &iss, f2_polyrat_t &a) {
   }
 
   iss >> a.numer;
+  if (iss.fail()) {
+    return iss;
+  }
   if (iss.eof()) {
     a.denom = 1;
   } else if (iss.peek() == '/') {
     (void)iss.get();
     iss >> a.denom;
+    if (iss.fail()) {
+      return iss;
+    }
   } else {
     // Clear failure code from not having found the '/'.
     iss.clear();
diff --git a/spffl/rationals/f2n_polyrat_t.cpp b/spffl/rationals/f2n_polyrat_t.cpp
index 179fe19..5b10205 100644
--- a/spffl/rationals/f2n_polyrat_t.cpp
+++ b/spffl/rationals/f2n_polyrat_t.cpp
@@ -201,12 +201,18 @@ std::istream &operator>>(std::istream &is, f2n_polyrat_t &a) {
   }
 
   is >> a.numer;
+  if (is.fail()) {
+    return is;
+  }
   if (is.eof()) {
     a.denom = a.numer.prime_subfield_element(1);
   }
   if (is.peek() == '/') {
     (void)is.get();
     is >> a.denom;
+    if (is.fail()) {
+      return is;
+    }
   } else {
     // Clear failure code from not having found the '/'.
     is.clear();
@@ -234,11 +240,17 @@ std::istringstream &operator>>(std::istringstream &iss, f2n_polyrat_t &a) {
   }
 
   iss >> a.numer;
+  if (iss.fail()) {
+    return iss;
+  }
   if (iss.eof()) {
     a.denom = a.numer.prime_subfield_element(1);
   } else if (iss.peek() == '/') {
     (void)iss.get();
     iss >> a.denom;
+    if (iss.fail()) {
+      return iss;
+    }
   } else {
     // Clear failure code from not having found the '/'.
     iss.clear();
diff --git a/spffl/rationals/fp_polyrat_t.cpp b/spffl/rationals/fp_polyrat_t.cpp
index 1e1dc75..1ba22aa 100644
--- a/spffl/rationals/fp_polyrat_t.cpp
+++ b/spffl/rationals/fp_polyrat_t.cpp
@@ -201,12 +201,18 @@ std::istream &operator>>(std::istream &is, fp_polyrat_t &a) {
   }
 
   is >> a.numer;
+  if (is.fail()) {
+    return is;
+  }
   if (is.eof()) {
     a.denom = a.numer.prime_subfield_element(1);
   }
   if (is.peek() == '/') {
     (void)is.get();
     is >> a.denom;
+    if (is.fail()) {
+      return is;
+    }
   } else {
     // Clear failure code from not having found the '/'.
     is.clear();
@@ -234,11 +240,17 @@ std::istringstream &operator>>(std::istringstream &iss, fp_polyrat_t &a) {
   }
 
   iss >> a.numer;
+  if (iss.fail()) {
+    return iss;
+  }
   if (iss.eof()) {
     a.denom = a.numer.prime_subfield_element(1);
   } else if (iss.peek() == '/') {
     (void)iss.get();
     iss >> a.denom;
+    if (iss.fail()) {
+      return iss;
+    }
   } else {
     // Clear failure code from not having found the '/'.
     iss.clear();
-- 
2.43.0


From 278f70fea59cdadbbb947ec82cccd53fc4c3f880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 18/61] fix: assigning a longer bit vector overran the shorter
 one's storage

---
 spffl/bits/bit_vector_t.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 42d568d..2ed859d 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -98,14 +98,14 @@ bit_vector_t::~bit_vector_t(void) {
 
 // ----------------------------------------------------------------
 bit_vector_t &bit_vector_t::operator=(const bit_vector_t &that) {
-  this->num_bits  = that.num_bits;
-  this->num_words = that.num_words;
   if (this->words == 0) {
     this->words = new uint64_t[that.num_words];
   } else if (this->num_words < that.num_words) {
     delete[] this->words;
     this->words = new uint64_t[that.num_words];
   }
+  this->num_bits  = that.num_bits;
+  this->num_words = that.num_words;
   memcpy(this->words, that.words, that.num_words * sizeof(uint64_t));
   return *this;
 }
-- 
2.43.0


From daf01321e1eace314be5fcfb0e8889d64a120ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 19/61] fix: filling a bit vector set the wrong bits of its
 last word

---
 spffl/bits/bit_vector_t.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 2ed859d..9a6573b 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -412,9 +412,8 @@ void bit_vector_t::trim(void) {
   if (num_dribble_bits == 0) {
     return;
   }
-  this->words[this->num_words - 1] &=
-      ((1 << (BITS_PER_WORD - num_dribble_bits)) - 1)
-      << (BITS_PER_WORD - this->num_bits);
+  // Bit 0 is the most significant bit of word 0.
+  this->words[this->num_words - 1] &= ~(uint64_t)0 << num_dribble_bits;
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From aef70c6dd58fa6968eace2189b82e4fb252e9eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 20/61] fix: comparing bit vectors ignored their last word

---
 spffl/bits/bit_vector_t.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 9a6573b..606d4e5 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -337,7 +337,7 @@ bool bit_vector_t::operator==(const bit_vector_t &that) const {
   if (this->num_bits != that.num_bits) {
     return false;
   }
-  for (int i = 0; i < this->num_words - 1; i++) {
+  for (int i = 0; i < this->num_words; i++) {
     if (this->words[i] != that.words[i]) {
       return false;
     }
@@ -352,12 +352,8 @@ bool bit_vector_t::operator!=(const bit_vector_t &that) const {
 
 // ----------------------------------------------------------------
 bool bit_vector_t::operator==(const bit_t &scalar) const {
-  uint64_t fill = 0;
-  if (scalar == bit_t(1)) {
-    fill = ~fill;
-  }
-  for (int i = 0; i < this->num_words - 1; i++) {
-    if (this->words[i] != fill) {
+  for (int i = 0; i < this->num_bits; i++) {
+    if (bit_t(GET_BIT(this->words, i)) != scalar) {
       return false;
     }
   }
-- 
2.43.0


From 70a1e209e3be601a938002efdd042624814d9c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 21/61] fix: += and -= of bit vectors did not check their
 lengths

---
 spffl/bits/bit_vector_t.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 606d4e5..e8186be 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -305,12 +305,14 @@ bit_t bit_vector_t::dot(const bit_vector_t &that) {
 
 // ----------------------------------------------------------------
 bit_vector_t bit_vector_t::operator+=(const bit_vector_t &that) {
+  this->check_equal_lengths(that);
   for (int i = 0; i < this->num_words; i++) {
     this->words[i] ^= that.words[i];
   }
   return *this;
 }
 bit_vector_t bit_vector_t::operator-=(const bit_vector_t &that) {
+  this->check_equal_lengths(that);
   for (int i = 0; i < this->num_words; i++) {
     this->words[i] ^= that.words[i];
   }
-- 
2.43.0


From a187f3358ccb478436f7c134c6c00f5354f17908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:48 +0000
Subject: [PATCH 22/61] fix: assigning a longer vector overran the shorter
 one's storage

---
 spffl/containers/tvector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/containers/tvector.h b/spffl/containers/tvector.h
index 7e309e3..b458bce 100644
--- a/spffl/containers/tvector.h
+++ b/spffl/containers/tvector.h
@@ -95,13 +95,13 @@ public:
 
   // ----------------------------------------------------------------
   tvector<element_type> &operator=(const tvector<element_type> &that) {
-    this->num_elements = that.num_elements;
     if (this->elements == 0) {
       this->elements = new element_type[that.num_elements];
     } else if (this->num_elements < that.num_elements) {
       delete[] this->elements;
       this->elements = new element_type[that.num_elements];
     }
+    this->num_elements = that.num_elements;
     for (int i = 0; i < that.num_elements; i++) {
       this->elements[i] = that.elements[i];
     }
-- 
2.43.0


From 3d8ef69af848c76df3d4cf6686b6419cbb03e666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:48 +0000
Subject: [PATCH 23/61] fix: scaling a vector in place by one of its own
 elements

---
 spffl/containers/tvector.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spffl/containers/tvector.h b/spffl/containers/tvector.h
index b458bce..c9f79b6 100644
--- a/spffl/containers/tvector.h
+++ b/spffl/containers/tvector.h
@@ -372,15 +372,18 @@ public:
     *this = *this - that;
     return *this;
   }
+  // The scalar is copied since it may be one of this vector's own elements.
   tvector<element_type> operator*=(const element_type &e) {
+    const element_type s(e);
     for (int i = 0; i < this->num_elements; i++) {
-      this->elements[i] *= e;
+      this->elements[i] *= s;
     }
     return *this;
   }
   void mult_by(const element_type &e) {
+    const element_type s(e);
     for (int i = 0; i < this->num_elements; i++) {
-      this->elements[i] *= e;
+      this->elements[i] *= s;
     }
   }
   tvector<element_type> operator*=(const tvector<element_type> &that) {
@@ -391,8 +394,9 @@ public:
     return *this;
   }
   tvector<element_type> operator/=(const element_type &e) {
+    const element_type s(e);
     for (int i = 0; i < this->num_elements; i++) {
-      this->elements[i] /= e;
+      this->elements[i] /= s;
     }
     return *this;
   }
-- 
2.43.0


From e70d5baaeed42acfc31efe435dcc708c39998d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:25 +0000
Subject: [PATCH 24/61] fix: reading a vector failed on lines of 2048
 characters or more

---
 spffl/bits/bit_vector_t.cpp | 4 ++--
 spffl/containers/tvector.h  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index e8186be..2288b25 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -148,8 +148,8 @@ std::ostream &operator<<(std::ostream &os, const bit_vector_t &v) {
 // ----------------------------------------------------------------
 std::istream &operator>>(std::istream &is, bit_vector_t &v) {
   // Read a line and use istringstream >>.
-  char line[2048];
-  is.getline(line, sizeof(line));
+  std::string line;
+  std::getline(is, line);
   std::istringstream iss(line, std::ios_base::in);
   iss >> v;
   if (iss.fail()) {
diff --git a/spffl/containers/tvector.h b/spffl/containers/tvector.h
index c9f79b6..b31657c 100644
--- a/spffl/containers/tvector.h
+++ b/spffl/containers/tvector.h
@@ -540,8 +540,8 @@ static std::ostream &operator<<(
 template <class element_type>
 static std::istream &operator>>(std::istream &is, tvector<element_type> &v) {
   // Read a line and use istringstream >>.
-  char line[2048];
-  is.getline(line, sizeof(line));
+  std::string line;
+  std::getline(is, line);
   std::istringstream iss(line, std::ios_base::in);
   iss >> v;
   if (iss.fail()) {
-- 
2.43.0


From 6a052135885ee01bec206c0a119e503d3730cc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:00 +0000
Subject: [PATCH 25/61] fix: reading a matrix dropped an unterminated last row
 and overran on indented lines

---
 spffl/bits/bit_matrix_t.cpp | 14 +++++++-------
 spffl/containers/tmatrix.h  | 19 ++++++-------------
 2 files changed, 13 insertions(+), 20 deletions(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index 74e9d4a..ed09477 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -195,11 +195,12 @@ std::ostream &operator<<(std::ostream &os, const bit_matrix_t &m) {
 
 // ----------------------------------------------------------------
 std::istream &operator>>(std::istream &is, bit_matrix_t &m) {
-  char line[8192];
+  std::string buffer;
   const int init_num_rows = 40;
   const int more_num_rows = 40;
   int alloc_num_rows      = init_num_rows;
-  m.rows                  = new bit_vector_t[init_num_rows];
+  m.mfree();
+  m.rows = new bit_vector_t[init_num_rows];
 
   while (1) {
     if (is.eof()) {
@@ -217,13 +218,12 @@ std::istream &operator>>(std::istream &is, bit_matrix_t &m) {
     }
 
     // Read a line of text.
-    is.getline(line, sizeof(line));
-    if (is.eof()) {
+    // The last line need not end in a newline.
+    if (!std::getline(is, buffer)) {
       is.clear();
       break;
-    } else if (is.fail()) {
-      break;
     }
+    char *line = buffer.data();
 
     // Allow comments.
     char *phash = strstr(line, "#");
@@ -255,7 +255,7 @@ std::istream &operator>>(std::istream &is, bit_matrix_t &m) {
     m.num_rows++;
   }
 
-  if (is.peek() == EOF) {
+  if (!is.eof() && is.peek() == EOF) {
     is.setstate(std::ios::eofbit);
   }
 
diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index c30ea2f..a478558 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -1688,9 +1688,8 @@ static std::ostream &operator<<(
 // element (yuk).
 template <typename element_type>
 static std::istream &operator>>(std::istream &is, tmatrix<element_type> &m) {
-  const int tmx_buf_size = 65536;
-  char *line             = new char[tmx_buf_size];
-  char *pline            = line;
+  std::string buffer;
+  char *pline;
 
   // Make sure the matrix already contains an element.  Remember it,
   // then free the old matrix contents.
@@ -1698,7 +1697,6 @@ static std::istream &operator>>(std::istream &is, tmatrix<element_type> &m) {
     is.setstate(std::ios::badbit);
     std::stringstream ss;
     ss << "tmatrix >>:  must already have one element.\n";
-    delete[] line;
     return is;
   }
   element_type zero = m.rows[0][0] - m.rows[0][0];
@@ -1725,13 +1723,12 @@ static std::istream &operator>>(std::istream &is, tmatrix<element_type> &m) {
     }
 
     // Read a line of text.
-    is.getline(pline, tmx_buf_size);
-    if (is.eof()) {
+    // The last line need not end in a newline.
+    if (!std::getline(is, buffer)) {
       is.clear();
       break;
-    } else if (is.fail()) {
-      break;
     }
+    pline = buffer.data();
 
     // Allow comments.
     char *phash = strstr(pline, "#");
@@ -1772,14 +1769,13 @@ static std::istream &operator>>(std::istream &is, tmatrix<element_type> &m) {
       is.setstate(std::ios::failbit);
       std::stringstream ss;
       ss << "tmatrix scan failure: \"" << pline << "\"\n";
-      delete[] line;
       return is;
     }
 
     m.num_rows++;
   }
 
-  if (is.peek() == EOF) {
+  if (!is.eof() && is.peek() == EOF) {
     is.setstate(std::ios::eofbit);
   }
 
@@ -1787,18 +1783,15 @@ static std::istream &operator>>(std::istream &is, tmatrix<element_type> &m) {
     is.setstate(std::ios::badbit);
     std::stringstream ss;
     ss << "tmatrix >>:  zero-row matrix.\n";
-    delete[] line;
     return is;
   }
 
   // Sets num_cols too.
   if (!m.check_ragged()) {
     is.setstate(std::ios::badbit);
-    delete[] line;
     return is;
   }
 
-  delete[] line;
   return is;
 }
 
-- 
2.43.0


From 8bd266e7b37c26cb78cd9aadffd4d601214d9679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:17 +0000
Subject: [PATCH 26/61] fix: pasting matrices put the right-hand one at the
 wrong columns

---
 spffl/bits/bit_matrix_t.cpp | 6 ++++--
 spffl/containers/tmatrix.h  | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index ed09477..3594dc6 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -868,11 +868,13 @@ bit_matrix_t bit_matrix_t::paste(bit_matrix_t &that) const {
   int i, j;
 
   for (i = 0; i < this->num_rows; i++) {
-    rv.rows[i] = this->rows[i];
+    for (j = 0; j < this->num_cols; j++) {
+      rv.rows[i].set(j, this->rows[i].get(j));
+    }
   }
   for (i = 0; i < this->num_rows; i++) {
     for (j = 0; j < that.num_cols; j++) {
-      rv.rows[i].set(this->num_rows + j, that.rows[i].get(j));
+      rv.rows[i].set(this->num_cols + j, that.rows[i].get(j));
     }
   }
 
diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index a478558..bbaf202 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -1316,7 +1316,7 @@ public:
     }
     for (i = 0; i < this->num_rows; i++) {
       for (j = 0; j < that.num_cols; j++) {
-        rv.rows[i][this->num_rows + j] = that.rows[i][j];
+        rv.rows[i][this->num_cols + j] = that.rows[i][j];
       }
     }
 
-- 
2.43.0


From d07abd2e5d983670c668047175deaab373808939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:17 +0000
Subject: [PATCH 27/61] fix: the outer product of bit vectors had no rows

---
 spffl/bits/bit_matrix_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index 3594dc6..4bd128b 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -499,7 +499,7 @@ bit_matrix_t &bit_matrix_t::operator*=(const bit_matrix_t &that) {
 bit_matrix_t bit_matrix_t::outer(const bit_vector_t &u, const bit_vector_t &v) {
   int m = u.get_num_elements();
   int n = v.get_num_elements();
-  bit_matrix_t rv;
+  bit_matrix_t rv(m, n);
   for (int i = 0; i < m; i++) {
     for (int j = 0; j < n; j++) {
       rv[i].set(j, u.get(i) * v.get(j));
-- 
2.43.0


From f423413d52e28236e7ef99249d2396b20f72aee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:17 +0000
Subject: [PATCH 28/61] fix: row-reducing a bit matrix leaked its row pointers

---
 spffl/bits/bit_matrix_t.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index 4bd128b..65f9d94 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -695,6 +695,7 @@ void bit_matrix_t::row_reduce_below_with_scalar(bit_t &s) {
     left_column++;
     top_row++;
   }
+  delete[] ptrs;
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From ac6d5da84eb043e016305d7eda2195af578642e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:17 +0000
Subject: [PATCH 29/61] fix: the Euclidean determinant of a zero matrix divided
 by an unset value

---
 spffl/containers/tmatrix.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index bbaf202..337fc73 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -1523,6 +1523,9 @@ public:
       ss << "tmatrix::ed_det():  non-square input.\n";
       throw spffl::exception_t(ss.str());
     }
+    if (this->is_zero()) {
+      return this->rows[0][0];
+    }
     tmatrix<element_type> rr(*this);
     element_type dn, dd;
     rr.ed_row_reduce_below_with_scalar(dn, dd);
-- 
2.43.0


From 6b40516565a5ea02d439ab695efa8142445e76f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:23 +0000
Subject: [PATCH 30/61] fix: assigning a factorization returned nothing and
 read its own freed factors

---
 spffl/containers/tfacinfo.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spffl/containers/tfacinfo.h b/spffl/containers/tfacinfo.h
index a766a45..43aa532 100644
--- a/spffl/containers/tfacinfo.h
+++ b/spffl/containers/tfacinfo.h
@@ -64,6 +64,9 @@ public:
 
   // ----------------------------------------------------------------
   tfacinfo<element_type> &operator=(const tfacinfo<element_type> &that) {
+    if (this == &that) {
+      return *this;
+    }
     if (this->pfactors_and_counts) {
       delete[] this->pfactors_and_counts;
     }
@@ -76,6 +79,7 @@ public:
     }
     this->have_unit = that.have_unit;
     this->unit      = that.unit;
+    return *this;
   }
 
   // ----------------------------------------------------------------
-- 
2.43.0


From e456fdc0d995a74af96123e941602462558beee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:23 +0000
Subject: [PATCH 31/61] fix: a factorization of more than 20 distinct factors
 leaked the old array

---
 spffl/containers/tfacinfo.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spffl/containers/tfacinfo.h b/spffl/containers/tfacinfo.h
index 43aa532..e8a6c7d 100644
--- a/spffl/containers/tfacinfo.h
+++ b/spffl/containers/tfacinfo.h
@@ -236,6 +236,7 @@ public:
       for (int i = 0; i < this->num_distinct; i++) {
         this->pfactors_and_counts[i] = temp[i];
       }
+      delete[] temp;
     }
 
     // Insert a new factor.  The find() method has returned the correct
-- 
2.43.0


From 35dbd4fedfc949b114d0e2989ed1a80595b2f16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:23 +0000
Subject: [PATCH 32/61] fix: listing divisors overflowed in a squaring past the
 last exponent bit

---
 spffl/containers/tfacinfo.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spffl/containers/tfacinfo.h b/spffl/containers/tfacinfo.h
index e8a6c7d..37d8be8 100644
--- a/spffl/containers/tfacinfo.h
+++ b/spffl/containers/tfacinfo.h
@@ -301,7 +301,9 @@ public:
         rv *= xp;
       }
       e = (unsigned)e >> 1;
-      xp *= xp;
+      if (e != 0) {
+        xp *= xp;
+      }
     }
 
     return rv;
-- 
2.43.0


From 8464375baf0e3ddbc99ec65589d7d311ff454d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:23 +0000
Subject: [PATCH 33/61] fix: assigning a stack returned nothing and read its
 own freed elements

---
 spffl/containers/tstack.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spffl/containers/tstack.h b/spffl/containers/tstack.h
index f0a0804..350974a 100644
--- a/spffl/containers/tstack.h
+++ b/spffl/containers/tstack.h
@@ -46,6 +46,9 @@ public:
 
   // ----------------------------------------------------------------
   tstack<element_type> &operator=(const tstack<element_type> &that) {
+    if (this == &that) {
+      return *this;
+    }
     if (this->elements != 0) {
       delete[] this->elements;
     }
@@ -55,6 +58,7 @@ public:
     for (int i = 0; i < that.freeidx; i++) {
       this->elements[i] = that.elements[i];
     }
+    return *this;
   }
 
   // ----------------------------------------------------------------
-- 
2.43.0


From d5825ef5d06a82fa54f22133d99180a71125008d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:39 +0000
Subject: [PATCH 34/61] fix: the pth root over an extension field left its
 coefficients unrooted

---
 spffl/polynomials/fpn_poly_t.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index fb3a8db..1bc5d55 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -533,6 +533,7 @@ bool fpn_poly_t::pth_root(fpn_poly_t &rroot) const {
   int si, di, j;
   fpn_poly_t out;
   int p = this->get_characteristic();
+  int n = m.find_degree();
 
   out.set_coeff(this->degree, zero);
   for (di = this->degree - 1; di >= 0; di--) {
@@ -540,7 +541,11 @@ bool fpn_poly_t::pth_root(fpn_poly_t &rroot) const {
   }
 
   for (si = 0, di = 0; si <= this->degree; si += p, di++) {
+    // The pth root of a coefficient is its p^(n-1) power.
     out.coeffs[di] = this->coeffs[si];
+    for (j = 1; j < n; j++) {
+      out.coeffs[di] = out.coeffs[di].exp(p);
+    }
     for (j = 1; j < p; j++) {
       if (si + j > this->degree) {
         break;
-- 
2.43.0


From 07898f7621a2314870706d22338c4ef101112347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:39 +0000
Subject: [PATCH 35/61] fix: square roots over fields of 2^33 elements and up
 used an overflowed exponent

---
 spffl/polynomials/f2n_poly_t.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index 3017f3d..9dbd256 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -572,8 +572,7 @@ bool f2n_poly_t::square_root(f2n_poly_t &rroot) const {
   f2_polymod_t zero(0, m);
   int si, di;
   f2n_poly_t out;
-  int n   = m.find_degree();
-  int pow = 1 << (n - 1);
+  int n = m.find_degree();
 
   out.set_coeff(this->degree, zero);
   for (di = this->degree - 1; di >= 0; di--) {
@@ -581,7 +580,11 @@ bool f2n_poly_t::square_root(f2n_poly_t &rroot) const {
   }
 
   for (si = 0, di = 0; si <= this->degree; si += 2, di++) {
-    out.coeffs[di] = this->coeffs[si].exp(pow);
+    // The square root of a coefficient is its 2^(n-1) power.
+    out.coeffs[di] = this->coeffs[si];
+    for (int i = 1; i < n; i++) {
+      out.coeffs[di] *= out.coeffs[di];
+    }
     if (si + 1 > this->degree) {
       break;
     }
-- 
2.43.0


From 29b1411e8bfe4ee3be2d17eb25d9b4418dc17c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:49 +0000
Subject: [PATCH 36/61] fix: the pth root over an extension field always
 divided by a zero modulus

---
 spffl/polynomials/fpn_poly_t.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index 1bc5d55..4f25186 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -531,12 +531,11 @@ bool fpn_poly_t::pth_root(fpn_poly_t &rroot) const {
   fp_poly_t m       = this->coeffs[0].get_modulus();
   fp_polymod_t zero = this->coeffs[0].prime_subfield_element(0);
   int si, di, j;
-  fpn_poly_t out;
+  fpn_poly_t out(*this);
   int p = this->get_characteristic();
   int n = m.find_degree();
 
-  out.set_coeff(this->degree, zero);
-  for (di = this->degree - 1; di >= 0; di--) {
+  for (di = this->degree; di >= 0; di--) {
     out.coeffs[di] = zero;
   }
 
-- 
2.43.0


From b8bd6cc5e2c73022d1ad4c88d99df7adff85b2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:14 +0000
Subject: [PATCH 37/61] fix: searching for an F2 polynomial of negative degree
 wrote out of bounds

---
 spffl/factorization/f2_poly_factor.cpp | 4 ++--
 spffl/units/f2_polymod_units.cpp       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/spffl/factorization/f2_poly_factor.cpp b/spffl/factorization/f2_poly_factor.cpp
index ef14d56..e002f90 100644
--- a/spffl/factorization/f2_poly_factor.cpp
+++ b/spffl/factorization/f2_poly_factor.cpp
@@ -438,8 +438,6 @@ bool f2_poly_is_irreducible(const spffl::polynomials::f2_poly_t &f) {
 // Lexically lowest
 spffl::polynomials::f2_poly_t f2_poly_find_irreducible(int degree) {
   spffl::polynomials::f2_poly_t rv(0);
-  rv.set_bit(degree);
-  rv.set_bit(0);
 
   if (degree < 1) {
     std::stringstream ss;
@@ -447,6 +445,8 @@ spffl::polynomials::f2_poly_t f2_poly_find_irreducible(int degree) {
        << ".\n";
     throw spffl::exception_t(ss.str());
   }
+  rv.set_bit(degree);
+  rv.set_bit(0);
 
   while (rv.find_degree() == degree) {
     if (f2_poly_is_irreducible(rv)) {
diff --git a/spffl/units/f2_polymod_units.cpp b/spffl/units/f2_polymod_units.cpp
index a7ffc99..c42e06f 100644
--- a/spffl/units/f2_polymod_units.cpp
+++ b/spffl/units/f2_polymod_units.cpp
@@ -145,8 +145,6 @@ int f2_poly_period(spffl::polynomials::f2_poly_t m) {
 // Lexically lowest
 spffl::polynomials::f2_poly_t f2_poly_find_prim(int degree, int need_irr) {
   spffl::polynomials::f2_poly_t rv(0);
-  rv.set_bit(degree);
-  rv.set_bit(0);
 
   if (degree < 1) {
     std::stringstream ss;
@@ -154,6 +152,8 @@ spffl::polynomials::f2_poly_t f2_poly_find_prim(int degree, int need_irr) {
        << ".\n";
     throw spffl::exception_t(ss.str());
   }
+  rv.set_bit(degree);
+  rv.set_bit(0);
 
   while (rv.find_degree() == degree) {
     if (f2_poly_is_primitive(rv)) {
-- 
2.43.0


From 56d2aab6ce3eac7484d8a7ef7565e3c4520ce43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:43 +0000
Subject: [PATCH 38/61] fix: logarithms over extensions of F2n searched too
 small a group

---
 spffl/units/f2n_polymod_units.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spffl/units/f2n_polymod_units.cpp b/spffl/units/f2n_polymod_units.cpp
index a48abaf..f5f2029 100644
--- a/spffl/units/f2n_polymod_units.cpp
+++ b/spffl/units/f2n_polymod_units.cpp
@@ -124,7 +124,8 @@ int f2n_polymod_log( // Log base g of a.
   int rv                           = -1;
   spffl::polynomials::f2n_poly_t m = g.get_modulus();
   std::cout << "m = " << m << "\n";
-  int n = 1 << m.find_degree();
+  int n = 1 << (m.find_degree() *
+              m.get_coeff(0).get_modulus().find_degree());
   std::cout << "n = " << n << "\n";
   unsigned k = (unsigned)spffl::intmath::int_sqrt_ceil(n);
   std::cout << "k = " << k << "\n";
-- 
2.43.0


From 71b0599a4ed9c16cc4950c5b2660042c20fbb551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:43 +0000
Subject: [PATCH 39/61] fix: logarithms over extensions of F2n wrote their
 workings to standard output

---
 spffl/units/f2n_polymod_units.cpp | 19 -------------------
 1 file changed, 19 deletions(-)

diff --git a/spffl/units/f2n_polymod_units.cpp b/spffl/units/f2n_polymod_units.cpp
index f5f2029..5b64d20 100644
--- a/spffl/units/f2n_polymod_units.cpp
+++ b/spffl/units/f2n_polymod_units.cpp
@@ -118,17 +118,11 @@ static int poly_and_index_qcmp(const void *pv1, const void *pv2) {
 int f2n_polymod_log( // Log base g of a.
     const spffl::polynomials::f2n_polymod_t &g,
     const spffl::polynomials::f2n_polymod_t &a) {
-  std::cout << "\n";
-  std::cout << "g = " << g << "\n";
-  std::cout << "a = " << a << "\n";
   int rv                           = -1;
   spffl::polynomials::f2n_poly_t m = g.get_modulus();
-  std::cout << "m = " << m << "\n";
   int n = 1 << (m.find_degree() *
               m.get_coeff(0).get_modulus().find_degree());
-  std::cout << "n = " << n << "\n";
   unsigned k = (unsigned)spffl::intmath::int_sqrt_ceil(n);
-  std::cout << "k = " << k << "\n";
 
   // xxx check gcd(g, m)
   // xxx check gcd(g, a)
@@ -143,9 +137,7 @@ int f2n_polymod_log( // Log base g of a.
        << " is a zero divisor.\n";
     throw spffl::exception_t(ss.str());
   }
-  std::cout << "gi = " << ginv << "\n";
   spffl::polynomials::f2n_polymod_t gk = g.exp(k);
-  std::cout << "gk = " << gk << "\n";
   unsigned i, j;
 
   agni[0].elt = a;
@@ -153,32 +145,21 @@ int f2n_polymod_log( // Log base g of a.
   gkj[0].elt  = g / g;
   gkj[0].idx  = 0;
 
-  std::cout << "agni[" << 0 << "] = " << agni[0].elt << "\n";
   for (i = 1; i < k; i++) {
     agni[i].elt = agni[i - 1].elt * ginv;
     agni[i].idx = i;
-    std::cout << "agni[" << i << "] = " << agni[i].elt << "\n";
   }
-  std::cout << "gk[" << 0 << "]  = " << gkj[0].elt << "\n";
   for (j = 1; j < k; j++) {
     gkj[j].elt = gkj[j - 1].elt * gk;
     gkj[j].idx = j;
-    std::cout << "gk[" << j << "]  = " << gkj[j].elt << "\n";
   }
 
   qsort(agni, k, sizeof(poly_and_index_t), poly_and_index_qcmp);
   qsort(gkj, k, sizeof(poly_and_index_t), poly_and_index_qcmp);
-  for (j = 0; j < k; j++) {
-    std::cout << "-- agni[" << j << "] = " << agni[j].elt << " gk[" << j
-              << "] = " << gkj[j].elt << "\n";
-  }
 
   for (i = 0, j = 0; i < k && j < k;) {
-    std::cout << "agni[" << i << "] = " << agni[i].elt << " gk[" << j
-              << "] = " << gkj[j].elt << "\n";
     if (agni[i].elt == gkj[j].elt) {
       // xxx could overflow 32-bit int; fix me.
-      std::cout << "found at i=" << i << " j=" << j << "\n";
       rv = agni[i].idx + gkj[j].idx * k;
       break;
     } else if (agni[i].elt < gkj[j].elt) {
-- 
2.43.0


From deb08da6284f1ec9157c17b100a869c23074d411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:08 +0000
Subject: [PATCH 40/61] fix: a failed logarithm leaked its tables

---
 spffl/units/f2_polymod_units.cpp  | 8 +++++---
 spffl/units/f2n_polymod_units.cpp | 8 +++++---
 spffl/units/fp_units.cpp          | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/spffl/units/f2_polymod_units.cpp b/spffl/units/f2_polymod_units.cpp
index c42e06f..958c1a8 100644
--- a/spffl/units/f2_polymod_units.cpp
+++ b/spffl/units/f2_polymod_units.cpp
@@ -230,9 +230,6 @@ int f2_polymod_log( // Log base g of a.
   // xxx check gcd(g, m)
   // xxx check gcd(g, a)
 
-  poly_and_index_t *agni = new poly_and_index_t[k];
-  poly_and_index_t *gkj  = new poly_and_index_t[k];
-
   spffl::polynomials::f2_polymod_t ginv;
   if (!g.recip(ginv)) {
     std::stringstream ss;
@@ -240,6 +237,9 @@ int f2_polymod_log( // Log base g of a.
        << " is a zero divisor.\n";
     throw spffl::exception_t(ss.str());
   }
+
+  poly_and_index_t *agni = new poly_and_index_t[k];
+  poly_and_index_t *gkj  = new poly_and_index_t[k];
   spffl::polynomials::f2_polymod_t gk = g.exp(k);
   unsigned i, j;
 
@@ -273,6 +273,8 @@ int f2_polymod_log( // Log base g of a.
   }
 
   if (rv == -1) {
+    delete[] agni;
+    delete[] gkj;
     // xxx
     std::stringstream ss;
     ss << "f2_polymod_log:  error message goes here.\n";
diff --git a/spffl/units/f2n_polymod_units.cpp b/spffl/units/f2n_polymod_units.cpp
index 5b64d20..11fe176 100644
--- a/spffl/units/f2n_polymod_units.cpp
+++ b/spffl/units/f2n_polymod_units.cpp
@@ -127,9 +127,6 @@ int f2n_polymod_log( // Log base g of a.
   // xxx check gcd(g, m)
   // xxx check gcd(g, a)
 
-  poly_and_index_t *agni = new poly_and_index_t[k];
-  poly_and_index_t *gkj  = new poly_and_index_t[k];
-
   spffl::polynomials::f2n_polymod_t ginv;
   if (!g.recip(ginv)) {
     std::stringstream ss;
@@ -137,6 +134,9 @@ int f2n_polymod_log( // Log base g of a.
        << " is a zero divisor.\n";
     throw spffl::exception_t(ss.str());
   }
+
+  poly_and_index_t *agni = new poly_and_index_t[k];
+  poly_and_index_t *gkj  = new poly_and_index_t[k];
   spffl::polynomials::f2n_polymod_t gk = g.exp(k);
   unsigned i, j;
 
@@ -170,6 +170,8 @@ int f2n_polymod_log( // Log base g of a.
   }
 
   if (rv == -1) {
+    delete[] agni;
+    delete[] gkj;
     std::stringstream ss;
     ss << "f2n_polymod_log:  couldn't find log base " << g << " of " << a
        << " mod " << m << ".\n";
diff --git a/spffl/units/fp_units.cpp b/spffl/units/fp_units.cpp
index b1c5fd6..9b14e0b 100644
--- a/spffl/units/fp_units.cpp
+++ b/spffl/units/fp_units.cpp
@@ -111,9 +111,6 @@ int fp_log( // Log base g of a.
   // xxx check gcd(g, p)
   // xxx check gcd(g, a)
 
-  poly_and_index_t *agni = new poly_and_index_t[k];
-  poly_and_index_t *gkj  = new poly_and_index_t[k];
-
   spffl::intmath::intmod_t ginv;
   if (!g.recip(ginv)) {
     std::stringstream ss;
@@ -121,6 +118,9 @@ int fp_log( // Log base g of a.
        << " is a zero divisor.\n";
     throw spffl::exception_t(ss.str());
   }
+
+  poly_and_index_t *agni = new poly_and_index_t[k];
+  poly_and_index_t *gkj  = new poly_and_index_t[k];
   spffl::intmath::intmod_t gk = g.exp(k);
   unsigned i, j;
 
@@ -154,6 +154,8 @@ int fp_log( // Log base g of a.
   }
 
   if (rv == -1) {
+    delete[] agni;
+    delete[] gkj;
     // xxx
     std::stringstream ss;
     ss << "fp_log:  error message goes here.\n";
-- 
2.43.0


From d078b2ba6ac2699aac451a2cd3b8aa4f28142bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:57 +0000
Subject: [PATCH 41/61] fix: looking for a generator modulo a reducible
 polynomial failed at the first non-unit

---
 spffl/units/f2_polymod_units.cpp  | 3 ++-
 spffl/units/f2n_polymod_units.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/spffl/units/f2_polymod_units.cpp b/spffl/units/f2_polymod_units.cpp
index 958c1a8..f04ddeb 100644
--- a/spffl/units/f2_polymod_units.cpp
+++ b/spffl/units/f2_polymod_units.cpp
@@ -73,7 +73,8 @@ bool f2_polymod_find_generator(
 
   while (gres.find_degree() < mdeg) {
     spffl::polynomials::f2_polymod_t g(gres, m);
-    if (f2_polymod_order(g) == phi) {
+    // Only units have an order.
+    if (gres.gcd(m).find_degree() == 0 && f2_polymod_order(g) == phi) {
       rg = g;
       return true;
     }
diff --git a/spffl/units/f2n_polymod_units.cpp b/spffl/units/f2n_polymod_units.cpp
index 11fe176..646410a 100644
--- a/spffl/units/f2n_polymod_units.cpp
+++ b/spffl/units/f2n_polymod_units.cpp
@@ -74,7 +74,8 @@ bool f2n_polymod_find_generator(const spffl::polynomials::f2n_poly_t &m,
 
   while (gres.find_degree() < mdeg) {
     spffl::polynomials::f2n_polymod_t g(gres, m);
-    if (f2n_polymod_order(g) == phi) {
+    // Only units have an order.
+    if (gres.gcd(m).find_degree() == 0 && f2n_polymod_order(g) == phi) {
       rg = g;
       return true;
     }
-- 
2.43.0


From 3641ca7f94ff57b519fa417084025985773d2bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 42/61] fix: inverting a matrix over a Euclidean domain took a
 unit other than one for a non-unit

---
 spffl/containers/tmatrix.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index 337fc73..d92a4f5 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -1603,6 +1603,17 @@ public:
     pair.ed_row_echelon_form();
 
     pair.split(I, rinv, this->num_cols);
+
+    // The leading elements are determined only up to units.
+    for (int i = 0; i < this->num_rows; i++) {
+      element_type lead = I.rows[i][i];
+      if ((lead == zero) || (one % lead != zero)) {
+        return false;
+      }
+      element_type unit = one / lead;
+      I.rows[i] *= unit;
+      rinv.rows[i] *= unit;
+    }
     return I.is_I();
   }
 
-- 
2.43.0


From d2fe5f1ec77cd59370e2439299641d142d79983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:18 +0000
Subject: [PATCH 43/61] fix: a power of a matrix overflowed on a square that it
 does not use

---
 spffl/containers/tmatrix.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index d92a4f5..8946d4a 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -549,7 +549,9 @@ private:
         apower *= a2;
       }
       power = (unsigned)power >> 1;
-      a2 *= a2;
+      if (power != 0) {
+        a2 *= a2;
+      }
     }
     return apower;
   }
-- 
2.43.0


From e8d4e6a7a7e89d186a3e2f5efadbc7c8ac92bd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:28 +0000
Subject: [PATCH 44/61] fix: reducing a rational polynomial whose leading
 coefficient vanishes left a zero leading coefficient

---
 spffl/q_cyclotomic/qff.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spffl/q_cyclotomic/qff.cpp b/spffl/q_cyclotomic/qff.cpp
index 8640ca5..cdf0897 100644
--- a/spffl/q_cyclotomic/qff.cpp
+++ b/spffl/q_cyclotomic/qff.cpp
@@ -32,7 +32,7 @@ spffl::polynomials::f2_poly_t f2_poly_from_q_poly(
 // ----------------------------------------------------------------
 spffl::polynomials::fp_poly_t fp_poly_from_qpoly(
     const spffl::polynomials::q_poly_t &q, int p) {
-  spffl::polynomials::fp_poly_t rv;
+  spffl::polynomials::fp_poly_t rv(spffl::intmath::intmod_t(0, p));
   int d = q.find_degree();
   for (int i = d; i >= 0; i--) {
     rv.set_coeff(i, intmod_from_rat(q.get_coeff(i), p));
@@ -44,7 +44,8 @@ spffl::polynomials::fp_poly_t fp_poly_from_qpoly(
 spffl::polynomials::f2n_poly_t f2n_poly_from_qpoly(
     const spffl::polynomials::q_poly_t &q,
     const spffl::polynomials::f2_poly_t &im) {
-  spffl::polynomials::f2n_poly_t rv;
+  spffl::polynomials::f2n_poly_t rv(
+      spffl::polynomials::f2_polymod_t::prime_subfield_element(0, im));
   int d = q.find_degree();
   for (int i = d; i >= 0; i--) {
     // xxx unimpl
-- 
2.43.0


From 36f97a17e7a4698ca1e922e741d688246e58255f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:14 +0000
Subject: [PATCH 45/61] fix: spiff exited with status 0 after an error

---
 cli/spiff/spiff_main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/spiff/spiff_main.cpp b/cli/spiff/spiff_main.cpp
index ff535cd..90b9938 100644
--- a/cli/spiff/spiff_main.cpp
+++ b/cli/spiff/spiff_main.cpp
@@ -310,9 +310,9 @@ static int try_main(int argc, char **argv) {
 
 int main(int argc, char **argv) {
   try {
-    try_main(argc, argv);
+    return try_main(argc, argv);
   } catch (spffl::exception_t e) {
     std::cerr << e.what() << "\n";
+    return 1;
   }
-  return 0;
 }
-- 
2.43.0


From 63135543648170aa663131b34203757fd6a66089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:14 +0000
Subject: [PATCH 46/61] fix: the shell took operators in a nested command for
 its own

---
 spffl/cli_parser/cmd_interp.cpp | 36 ++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/spffl/cli_parser/cmd_interp.cpp b/spffl/cli_parser/cmd_interp.cpp
index 942882b..34a1223 100644
--- a/spffl/cli_parser/cmd_interp.cpp
+++ b/spffl/cli_parser/cmd_interp.cpp
@@ -4,6 +4,7 @@
 #include <stdio.h> // For perror
 #include <stdlib.h>
 #include <string.h>
+#include <string>
 #include <sys/types.h>
 #include <unistd.h>
 
@@ -63,22 +64,25 @@ static void find_matching_right_bracket(
 }
 
 // ----------------------------------------------------------------
-// The caller must free the return value.
-static char *flatten(char *exename, int argc, char **argv) {
-  int len = strlen(exename) + 1;
-  for (int argi = 0; argi < argc; argi++) {
-    len += strlen(argv[argi]) + 1;
-  }
-  char *rv = (char *)malloc(len);
-  if (rv == 0) {
-    std::stringstream ss;
-    ss << "malloc(" << len << ") failed.\n";
-    throw spffl::exception_t(ss.str());
+// Quotes a word for the shell which popen runs: characters such as '*', '(' and
+// '<' are operators to spiff as well as to the shell.
+static std::string shell_quote(const char *word) {
+  std::string rv = "'";
+  for (const char *p = word; *p; p++) {
+    if (*p == '\'') {
+      rv += "'\\''";
+    } else {
+      rv += *p;
+    }
   }
-  strcpy(rv, exename);
+  return rv + "'";
+}
+
+// ----------------------------------------------------------------
+static std::string flatten(char *exename, int argc, char **argv) {
+  std::string rv = shell_quote(exename);
   for (int argi = 0; argi < argc; argi++) {
-    strcat(rv, " ");
-    strcat(rv, argv[argi]);
+    rv += " " + shell_quote(argv[argi]);
   }
   return rv;
 }
@@ -86,9 +90,9 @@ static char *flatten(char *exename, int argc, char **argv) {
 // ----------------------------------------------------------------
 static void replace(
     char *exename, int argcin, char **argvin, int &argcout, char **&argvout) {
-  char *flat_cmd = flatten(exename, argcin, argvin);
+  std::string flat_cmd = flatten(exename, argcin, argvin);
 
-  FILE *pipe = popen(flat_cmd, "r");
+  FILE *pipe = popen(flat_cmd.c_str(), "r");
   if (pipe == 0) {
     std::stringstream ss;
     ss << "Failed popen \"" << flat_cmd << "\".\n";
-- 
2.43.0


From f5f9a35af431f6b6fdee52a36bd09d6aedd34801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:14 +0000
Subject: [PATCH 47/61] fix: a nested command's long output lines were broken
 at 4095 characters

---
 spffl/cli_parser/cmd_interp.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/spffl/cli_parser/cmd_interp.cpp b/spffl/cli_parser/cmd_interp.cpp
index 34a1223..f903ba9 100644
--- a/spffl/cli_parser/cmd_interp.cpp
+++ b/spffl/cli_parser/cmd_interp.cpp
@@ -104,19 +104,19 @@ static void replace(
   char *buf  = 0;
   while (fgets(line, sizeof(line), pipe)) {
     int curlen = strlen(line);
+    // Lines are joined with a blank.  There is nothing to join if fgets got only
+    // part of a line longer than its buffer.
     if (line[curlen - 1] == '\n') {
-      line[curlen - 1] = 0;
-      curlen--;
+      line[curlen - 1] = ' ';
     }
     if (buf == 0) {
       buf = (char *)malloc(curlen + 1);
       strcpy(buf, line);
       totlen = curlen + 1;
     } else {
-      buf = (char *)realloc(buf, totlen + curlen + 2);
-      strcat(buf, " ");
-      strcat(buf, line);
-      totlen += curlen + 2;
+      buf = (char *)realloc(buf, totlen + curlen);
+      strcpy(buf + totlen - 1, line);
+      totlen += curlen;
     }
   }
   pclose(pipe);
-- 
2.43.0


From 901d8e8b21e137aecb69671ce6c20bf99df77d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:14 +0000
Subject: [PATCH 48/61] fix: trailing text after a number in an expression was
 ignored

---
 spffl/cli_parser/cmd_line_ops.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/cli_parser/cmd_line_ops.h b/spffl/cli_parser/cmd_line_ops.h
index 0ba4e79..6deeaa7 100644
--- a/spffl/cli_parser/cmd_line_ops.h
+++ b/spffl/cli_parser/cmd_line_ops.h
@@ -232,7 +232,7 @@ static void lexan(lex_ctx_t<element_type> &rlex_ctx) {
       rlex_ctx.atom.is_int   = false;
       iss >> rlex_ctx.atom.type_val;
     }
-    if (iss.fail()) {
+    if (iss.fail() || !(iss >> std::ws).eof()) {
       std::stringstream ss;
       ss << "Scan failure at \"" << s << "\".\n";
       throw spffl::exception_t(ss.str());
-- 
2.43.0


From e709132d911916c9aeea00b215db0a997e3409ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:14 +0000
Subject: [PATCH 49/61] fix: dividing by zero in an integer expression crashed
 spiff

---
 spffl/cli_parser/cmd_line_ops.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spffl/cli_parser/cmd_line_ops.h b/spffl/cli_parser/cmd_line_ops.h
index 6deeaa7..12954e4 100644
--- a/spffl/cli_parser/cmd_line_ops.h
+++ b/spffl/cli_parser/cmd_line_ops.h
@@ -374,6 +374,14 @@ static void emit(
     break;
   }
 
+  if (rlex_ctx.token == L_DIV || rlex_ctx.token == L_MOD) {
+    if (b.type_val == rlex_ctx.zero) {
+      std::stringstream ss;
+      ss << "Division by zero.\n";
+      throw spffl::exception_t(ss.str());
+    }
+  }
+
   switch (rlex_ctx.token) {
   case L_UMINUS:
     c.type_val = -a.type_val;
-- 
2.43.0


From a6a3e100c8cc67a5c97194c22b8573a913b300a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:14 +0000
Subject: [PATCH 50/61] fix: a power in an expression overflowed on a square
 that it does not use

---
 spffl/cli_parser/cmd_line_ops.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spffl/cli_parser/cmd_line_ops.h b/spffl/cli_parser/cmd_line_ops.h
index 12954e4..7a42db7 100644
--- a/spffl/cli_parser/cmd_line_ops.h
+++ b/spffl/cli_parser/cmd_line_ops.h
@@ -281,7 +281,9 @@ element_type clo_exp(
       rv *= xp;
     }
     e = (unsigned)e >> 1;
-    xp *= xp;
+    if (e != 0) {
+      xp *= xp;
+    }
   }
 
   return rv;
-- 
2.43.0


From 416e7cbfd75cf0a90a190bb63779fad3fcfd3b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:59 +0000
Subject: [PATCH 51/61] fix: writing a polynomial over F2 left the stream's
 fill character changed

---
 spffl/polynomials/f2_poly_t.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spffl/polynomials/f2_poly_t.cpp b/spffl/polynomials/f2_poly_t.cpp
index a907e74..b879437 100644
--- a/spffl/polynomials/f2_poly_t.cpp
+++ b/spffl/polynomials/f2_poly_t.cpp
@@ -525,6 +525,7 @@ std::ostream &operator<<(std::ostream &os, const f2_poly_t &poly) {
     throw spffl::exception_t(ss.str());
   }
   std::ios_base::fmtflags svflags = os.flags();
+  char svfill                     = os.fill();
   os.flags(std::ios_base::hex);
   int i;
   int leader_pos = 0;
@@ -545,6 +546,7 @@ std::ostream &operator<<(std::ostream &os, const f2_poly_t &poly) {
     }
   }
   os.flags(svflags);
+  os.fill(svfill);
   return os;
 }
 // ----------------------------------------------------------------
-- 
2.43.0


From 58d3be83ba586a45ff66521ae19704c66a8b789a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:22 +0000
Subject: [PATCH 52/61] fix: a polynomial over F2^n at the end of a stream was
 refused

---
 spffl/polynomials/f2n_poly_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index 9dbd256..bf75d3b 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -851,7 +851,7 @@ std::istream &operator>>(std::istream &is, f2n_poly_t &poly) {
       return is;
     }
     poly.coeffs[0] = f2_polymod_t(r, m);
-    while (is.peek() == ':') {
+    while (!is.eof() && is.peek() == ':') {
       (void)is.get();
       is >> r;
       if (is.fail()) {
-- 
2.43.0


From 1d1b11e2229a7964932332406b418fca7c8e150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:29 +0000
Subject: [PATCH 53/61] fix: a bit matrix row with a blank before its comment
 was refused

---
 spffl/bits/bit_matrix_t.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index 65f9d94..3498d6c 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -231,6 +231,13 @@ std::istream &operator>>(std::istream &is, bit_matrix_t &m) {
       *phash = 0;
     }
 
+    // Strip trailing whitespace, e.g. between the last element and a comment.
+    int len = strlen(line);
+    while ((len > 0) && isspace(line[len - 1])) {
+      line[len - 1] = 0;
+      len--;
+    }
+
     // Allow multiple matrices in the same stream, delimited by
     // carriage returns.
     if (spffl::base::is_whitespace_line(line)) {
-- 
2.43.0


From 87689ca0932a8a027e734c4c2da906c20c646329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:16 +0000
Subject: [PATCH 54/61] fix: an expression starting with an operator or
 parenthesis copied an uninitialised bool

---
 spffl/cli_parser/cmd_line_ops.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spffl/cli_parser/cmd_line_ops.h b/spffl/cli_parser/cmd_line_ops.h
index 7a42db7..ccfb04a 100644
--- a/spffl/cli_parser/cmd_line_ops.h
+++ b/spffl/cli_parser/cmd_line_ops.h
@@ -28,8 +28,8 @@ namespace spffl::cli_parser {
 
 template <class element_type> struct atom_t {
   element_type type_val;
-  int int_val;
-  bool is_int;
+  int int_val = 0;
+  bool is_int = false;
 };
 
 template <class element_type> struct lex_ctx_t {
-- 
2.43.0


From 4ec7b4af94bd842bacb2974392a029cee33727df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:13 +0000
Subject: [PATCH 55/61] fix: a matrix or vector exponent was accepted with text
 after the number

---
 spffl/cli_parser/cmd_line_matrix_ops.h | 2 +-
 spffl/cli_parser/cmd_line_vector_ops.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spffl/cli_parser/cmd_line_matrix_ops.h b/spffl/cli_parser/cmd_line_matrix_ops.h
index 782fc9f..fcba344 100644
--- a/spffl/cli_parser/cmd_line_matrix_ops.h
+++ b/spffl/cli_parser/cmd_line_matrix_ops.h
@@ -272,7 +272,7 @@ static void matlexan(mat_lex_ctx_t<element_type> &rlex_ctx) {
         }
       }
     }
-    if (iss.fail()) {
+    if (iss.fail() || (rlex_ctx.in_pow_rhs && !(iss >> std::ws).eof())) {
       std::stringstream ss;
       ss << "Scan failure at \"" << s << "\".\n";
       throw spffl::exception_t(ss.str());
diff --git a/spffl/cli_parser/cmd_line_vector_ops.h b/spffl/cli_parser/cmd_line_vector_ops.h
index 2f8b896..4e0d648 100644
--- a/spffl/cli_parser/cmd_line_vector_ops.h
+++ b/spffl/cli_parser/cmd_line_vector_ops.h
@@ -218,7 +218,7 @@ static void veclexan(vec_lex_ctx_t<element_type> &rlex_ctx) {
 #endif
       }
     }
-    if (iss.fail()) {
+    if (iss.fail() || (rlex_ctx.in_pow_rhs && !(iss >> std::ws).eof())) {
       std::stringstream ss;
       ss << "Scan failure at \"" << s << "\".\n";
       throw spffl::exception_t(ss.str());
-- 
2.43.0


From 237c8a74cbf27e3bc3d0bd39e06313124d6eb5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:07 +0000
Subject: [PATCH 56/61] fix: fp_orbit: reduce negative arguments and multiply
 without overflow

---
 cli/spiff/fp_handlers.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/cli/spiff/fp_handlers.cpp b/cli/spiff/fp_handlers.cpp
index 9172113..45e3674 100644
--- a/cli/spiff/fp_handlers.cpp
+++ b/cli/spiff/fp_handlers.cpp
@@ -275,6 +275,9 @@ int fp_orbit_main(int argc, char **argv, usage_t *pusage) {
       pusage(argv[0]);
     }
   }
+  if (p < 1) {
+    pusage(argv[0]);
+  }
   if (gcd(a, p) != 1) {
     std::cerr << "fp_orbit_main: a must be coprime to p.\n";
     exit(1);
@@ -282,13 +285,19 @@ int fp_orbit_main(int argc, char **argv, usage_t *pusage) {
 
   a %= p;
   a0 %= p;
+  if (a < 0) {
+    a += p;
+  }
+  if (a0 < 0) {
+    a0 += p;
+  }
   apower = a;
 
   int counter = 0;
   while (1) {
-    std::cout << ((apower * a0) % p) << "\n";
+    std::cout << (((long long)apower * a0) % p) << "\n";
 
-    if (apower == 1) {
+    if (apower == 1 % p) {
       break;
     }
 
@@ -299,7 +308,7 @@ int fp_orbit_main(int argc, char **argv, usage_t *pusage) {
       exit(1);
     }
 
-    apower = (apower * a) % p;
+    apower = ((long long)apower * a) % p;
   }
 
   return 0;
-- 
2.43.0


From b8d264c16f8837ab7d7d69c59eb257790f09c5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:53 +0000
Subject: [PATCH 57/61] fix: fp_orbit: test coprimality of the integers, not of
 their parities

---
 cli/spiff/fp_handlers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/spiff/fp_handlers.cpp b/cli/spiff/fp_handlers.cpp
index 45e3674..32cac57 100644
--- a/cli/spiff/fp_handlers.cpp
+++ b/cli/spiff/fp_handlers.cpp
@@ -5,6 +5,7 @@
 #include "spffl/cli_parser/cmd_line_ops.h"
 #include "spffl/cli_parser/cmd_line_vector_ops.h"
 #include "spffl/containers/tmatrix.h"
+#include "spffl/intmath/int_gcd.h"
 #include "spffl/intmath/intmod_t.h"
 #include "spffl/linalg/fp_linear_algebra.h"
 #include "spffl/list/list_elements.h"
@@ -278,7 +279,7 @@ int fp_orbit_main(int argc, char **argv, usage_t *pusage) {
   if (p < 1) {
     pusage(argv[0]);
   }
-  if (gcd(a, p) != 1) {
+  if (spffl::intmath::int_gcd(a, p) != 1) {
     std::cerr << "fp_orbit_main: a must be coprime to p.\n";
     exit(1);
   }
-- 
2.43.0


From be0d0473cda8ad2bc487a8fda35444f6b6a9fb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:42 +0000
Subject: [PATCH 58/61] fix: matrix order commands: refuse a matrix that cannot
 be read from standard input

---
 cli/spiff/f2_handlers.cpp         | 3 +++
 cli/spiff/f2_polymod_handlers.cpp | 3 +++
 cli/spiff/fp_handlers.cpp         | 3 +++
 cli/spiff/fp_polymod_handlers.cpp | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/cli/spiff/f2_handlers.cpp b/cli/spiff/f2_handlers.cpp
index 0d5ed80..99b2356 100644
--- a/cli/spiff/f2_handlers.cpp
+++ b/cli/spiff/f2_handlers.cpp
@@ -88,6 +88,9 @@ int f2_mat_ord_main(int argc, char **argv, usage_t *pusage) {
 
   A = zero;
   std::cin >> A;
+  if (std::cin.fail()) {
+    pusage(argv[0]);
+  }
   spffl::bits::bit_t d = A.det();
 
   if (d == zero) {
diff --git a/cli/spiff/f2_polymod_handlers.cpp b/cli/spiff/f2_polymod_handlers.cpp
index 8ca3f67..4a24dc5 100644
--- a/cli/spiff/f2_polymod_handlers.cpp
+++ b/cli/spiff/f2_polymod_handlers.cpp
@@ -585,6 +585,9 @@ int f2_pm_mat_ord_main(int argc, char **argv, usage_t *pusage) {
 
   A = zero;
   std::cin >> A;
+  if (std::cin.fail()) {
+    pusage(argv[0]);
+  }
   spffl::polynomials::f2_polymod_t d = A.det();
 
   if (d == zero) {
diff --git a/cli/spiff/fp_handlers.cpp b/cli/spiff/fp_handlers.cpp
index 32cac57..c282bcb 100644
--- a/cli/spiff/fp_handlers.cpp
+++ b/cli/spiff/fp_handlers.cpp
@@ -483,6 +483,9 @@ int fp_mat_ord_main(int argc, char **argv, usage_t *pusage) {
 
   A = zero;
   std::cin >> A;
+  if (std::cin.fail()) {
+    pusage(argv[0]);
+  }
   spffl::intmath::intmod_t d = A.det();
 
   if (d == zero) {
diff --git a/cli/spiff/fp_polymod_handlers.cpp b/cli/spiff/fp_polymod_handlers.cpp
index 3e775ba..df72aa7 100644
--- a/cli/spiff/fp_polymod_handlers.cpp
+++ b/cli/spiff/fp_polymod_handlers.cpp
@@ -269,6 +269,9 @@ int fp_pm_mat_ord_main(int argc, char **argv, usage_t *pusage) {
   tmatrix<spffl::polynomials::fp_polymod_t> A;
   A = zero;
   std::cin >> A;
+  if (std::cin.fail()) {
+    pusage(argv[0]);
+  }
   spffl::polynomials::fp_polymod_t d = A.det();
 
   if (d == zero) {
-- 
2.43.0


From 173d5dba2f464d9042d40f25d9f50e43ef1fd97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:00 +0000
Subject: [PATCH 59/61] fix: fp_pm_mat_op and fp_pm_vecop called a null usage
 function on bad arguments

---
 cli/spiff/fp_polymod_handlers.cpp | 10 ++++++++++
 cli/spiff/fp_polymod_handlers.h   |  2 ++
 cli/spiff/spiff_main.cpp          |  4 ++--
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cli/spiff/fp_polymod_handlers.cpp b/cli/spiff/fp_polymod_handlers.cpp
index df72aa7..c5ce74b 100644
--- a/cli/spiff/fp_polymod_handlers.cpp
+++ b/cli/spiff/fp_polymod_handlers.cpp
@@ -201,6 +201,11 @@ int fp_pm_tbl_main(int argc, char **argv, usage_t *pusage) {
   return 0;
 }
 
+void fp_pm_mat_op_usage(char *argv0) {
+  std::cerr << "Usage: " << argv0 << " {p} {m} {...}\n";
+  exit(1);
+}
+
 int fp_pm_mat_op_main(int argc, char **argv, usage_t *pusage) {
   int p;
   spffl::polynomials::fp_poly_t m;
@@ -221,6 +226,11 @@ int fp_pm_mat_op_main(int argc, char **argv, usage_t *pusage) {
   return 0;
 }
 
+void fp_pm_vecop_usage(char *argv0) {
+  std::cerr << "Usage: " << argv0 << " {p} {m} {...}\n";
+  exit(1);
+}
+
 int fp_pm_vecop_main(int argc, char **argv, usage_t *pusage) {
   int p;
   spffl::polynomials::fp_poly_t m;
diff --git a/cli/spiff/fp_polymod_handlers.h b/cli/spiff/fp_polymod_handlers.h
index 4e3133e..06898f8 100644
--- a/cli/spiff/fp_polymod_handlers.h
+++ b/cli/spiff/fp_polymod_handlers.h
@@ -12,8 +12,10 @@ int fp_pm_op_main(int argc, char **argv, usage_t *pusage);
 void fp_pm_tbl_usage(char *argv0);
 int fp_pm_tbl_main(int argc, char **argv, usage_t *pusage);
 
+void fp_pm_mat_op_usage(char *argv0);
 int fp_pm_mat_op_main(int argc, char **argv, usage_t *pusage);
 
+void fp_pm_vecop_usage(char *argv0);
 int fp_pm_vecop_main(int argc, char **argv, usage_t *pusage);
 
 void fp_pm_mat_ord_usage(char *argv0);
diff --git a/cli/spiff/spiff_main.cpp b/cli/spiff/spiff_main.cpp
index 90b9938..90a25d3 100644
--- a/cli/spiff/spiff_main.cpp
+++ b/cli/spiff/spiff_main.cpp
@@ -194,8 +194,8 @@ std::vector<lookup_t> fp_pm_lookups {
   {"fp_pm_ch_pol",     fp_pm_ch_pol_main,     fp_pm_ch_pol_usage},
   {"fp_pm_min_pol",    fp_pm_min_pol_main,    fp_pm_min_pol_usage},
   {"fp_pm_random",     fp_pm_random_main,     fp_pm_random_usage},
-  {"fp_pm_mat_op",     fp_pm_mat_op_main,     nullptr/*fppmmatop_usage*/},
-  {"fp_pm_vecop",      fp_pm_vecop_main,      nullptr/*fppmvecop_usage*/},
+  {"fp_pm_mat_op",     fp_pm_mat_op_main,     fp_pm_mat_op_usage},
+  {"fp_pm_vecop",      fp_pm_vecop_main,      fp_pm_vecop_usage},
   {"fp_pm_mat_ord",    fp_pm_mat_ord_main,    fp_pm_mat_ord_usage},
   {"fp_pm_mat_random", fp_pm_mat_random_main, fp_pm_mat_random_usage},
 };
-- 
2.43.0


From bf9db4b3b58279cc4d371d498a56cbf5a66e7d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:19 +0000
Subject: [PATCH 60/61] fix: polynomial lists: refuse a negative degree instead
 of looping forever

---
 spffl/list/list_elements.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/spffl/list/list_elements.cpp b/spffl/list/list_elements.cpp
index 4830aec..39e3261 100644
--- a/spffl/list/list_elements.cpp
+++ b/spffl/list/list_elements.cpp
@@ -17,6 +17,12 @@ namespace spffl::list {
 
 // ----------------------------------------------------------------
 tvector<spffl::polynomials::f2_poly_t> f2_poly_list(int deg) {
+  if (deg < 0) {
+    std::stringstream ss;
+    ss << "f2_poly_list:  degree must be non-negative; got " << deg
+       << ".\n";
+    throw spffl::exception_t(ss.str());
+  }
   int nel = 1 << deg;
   tvector<spffl::polynomials::f2_poly_t> rv(nel);
 
@@ -37,6 +43,12 @@ tvector<spffl::polynomials::f2_poly_t> f2_poly_list(int deg) {
 // ----------------------------------------------------------------
 tvector<spffl::polynomials::f2n_poly_t> f2n_poly_list(
     spffl::polynomials::f2_poly_t im, int outerdeg) {
+  if (outerdeg < 0) {
+    std::stringstream ss;
+    ss << "f2n_poly_list:  degree must be non-negative; got " << outerdeg
+       << ".\n";
+    throw spffl::exception_t(ss.str());
+  }
   int innerdeg = im.find_degree();
   int q        = 1 << innerdeg;
   int nel      = (q - 1) * spffl::intmath::int_power(q, outerdeg);
@@ -60,6 +72,12 @@ tvector<spffl::polynomials::f2n_poly_t> f2n_poly_list(
 
 // ----------------------------------------------------------------
 tvector<spffl::polynomials::fp_poly_t> fp_poly_list(int p, int deg) {
+  if (deg < 0) {
+    std::stringstream ss;
+    ss << "fp_poly_list:  degree must be non-negative; got " << deg
+       << ".\n";
+    throw spffl::exception_t(ss.str());
+  }
   int nel = (p - 1) * spffl::intmath::int_power(p, deg);
   tvector<spffl::polynomials::fp_poly_t> rv(nel);
 
-- 
2.43.0


From f5c5e789625d69ad64962a69d89ee5853c5889ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:38 +0000
Subject: [PATCH 61/61] fix: q_poly_t::exp squared once more than needed and
 refused small powers of large coefficients

---
 spffl/polynomials/q_poly_t.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index 0afbe28..1d14adf 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -467,7 +467,9 @@ q_poly_t q_poly_t::exp(int e) const {
           rv *= xp;
         }
         e = (unsigned)e >> 1;
-        xp *= xp;
+        if (e != 0) {
+          xp *= xp;
+        }
       }
       return rv;
     }
-- 
2.43.0

