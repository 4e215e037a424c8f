From aa34d24462c888b7e44de1c07b19c1b1f2cd752c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 01/85] fix: tight bit-pattern sweep reads the constant of
 conditional assignments once

---
 ADOL-C/src/uni5_for.cpp | 16 ----------------
 1 file changed, 16 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index d5b5313..1a45315 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -4139,8 +4139,6 @@ int hov_forward(
 
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] > 0)
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
       else
@@ -4246,8 +4244,6 @@ int hov_forward(
 
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] >= 0)
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
       else
@@ -4320,8 +4316,6 @@ int hov_forward(
 
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] > 0)
 #endif /* _TIGHT_ */
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
@@ -4381,8 +4375,6 @@ int hov_forward(
 
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] >= 0)
 #endif /* _TIGHT_ */
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
@@ -5199,8 +5191,6 @@ int hov_forward(
 #endif              /* ALL_TOGETHER_AGAIN */
 
 #ifdef _INT_FOR_
-        coval = tape.get_val_f();
-
         if (dp_T0[arg] > 0)
           FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
         else
@@ -5298,8 +5288,6 @@ int hov_forward(
 #endif              /* ALL_TOGETHER_AGAIN */
 
 #ifdef _INT_FOR_
-        coval = tape.get_val_f();
-
         if (dp_T0[arg] >= 0)
           FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
         else
@@ -5372,8 +5360,6 @@ int hov_forward(
 #endif              /* ALL_TOGETHER_AGAIN */
 
 #ifdef _INT_FOR_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] > 0)
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
 
@@ -5432,8 +5418,6 @@ int hov_forward(
 #endif              /* ALL_TOGETHER_AGAIN */
 
 #ifdef _INT_FOR_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] >= 0)
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
 
-- 
2.43.0


From 8db706e1885f14ca21de1b1241d2a1c205a2368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 02/85] fix: tape_doc reads only the words recorded for
 external function calls

---
 ADOL-C/src/tapedoc/tapedoc.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/ADOL-C/src/tapedoc/tapedoc.cpp b/ADOL-C/src/tapedoc/tapedoc.cpp
index 50b4bd6..e2a4db4 100644
--- a/ADOL-C/src/tapedoc/tapedoc.cpp
+++ b/ADOL-C/src/tapedoc/tapedoc.cpp
@@ -1278,9 +1278,6 @@ void tape_doc(short tnum,     /* tape id */
       loc_a[0] = tape.get_locint_f() + 1; /* index */
       loc_a[1] = tape.get_locint_f();     /* n */
       loc_a[2] = tape.get_locint_f();     /* m */
-      loc_a[3] = tape.get_locint_f();     /* xa[0].loc */
-      loc_a[3] = tape.get_locint_f();     /* ya[0].loc */
-      loc_a[3] = tape.get_locint_f();     /* dummy */
       filewrite(operation, "extern diff", 3, loc_a, 0, cst_d);
       break;
 
@@ -1292,9 +1289,6 @@ void tape_doc(short tnum,     /* tape id */
       loc_a[0] = tape.get_locint_f() + 1; /* index */
       loc_a[1] = tape.get_locint_f();     /* n */
       loc_a[2] = tape.get_locint_f();     /* m */
-      loc_a[3] = tape.get_locint_f();     /* xa[0].loc */
-      loc_a[3] = tape.get_locint_f();     /* ya[0].loc */
-      loc_a[3] = tape.get_locint_f();     /* dummy */
       filewrite(operation, "extern diff iArr", 3, loc_a, 0, cst_d);
       break;
     case ext_diff_v2:
-- 
2.43.0


From 08331c35d0f32ae7c4cffb879416275ea0496a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 03/85] fix: tape_doc stops at an operation it cannot document
 instead of misreading the rest of the tape

---
 ADOL-C/src/tapedoc/tapedoc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/tapedoc/tapedoc.cpp b/ADOL-C/src/tapedoc/tapedoc.cpp
index e2a4db4..d86992e 100644
--- a/ADOL-C/src/tapedoc/tapedoc.cpp
+++ b/ADOL-C/src/tapedoc/tapedoc.cpp
@@ -1557,8 +1557,8 @@ void tape_doc(short tnum,     /* tape id */
       /*--------------------------------------------------------------------------*/
     default: /* default */
       /* Die here, we screwed up */
-      fprintf(DIAG_OUT, "ADOL-C error: Fatal error in tape_doc for op %d\n",
-              operation);
+      ADOLCError::fail(ADOLCError::ErrorType::NO_SUCH_OP, CURRENT_LOCATION,
+                       ADOLCError::FailInfo{.info7 = operation});
       break;
 
     } /* endswitch */
-- 
2.43.0


From dda31bf94cecdbb7701ae7e51c4a51b1f30ee479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 04/85] fix: tight index-domain sweeps carry the value of
 one-armed conditional assignments

---
 ADOL-C/src/uni5_for.cpp | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 1a45315..2984ae0 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -4297,17 +4297,27 @@ int hov_forward(
 
       /* olvo 980924 changed order to allow reflexive ops */
 #if defined(_INDO_)
-#if defined(_INDOPRO_)
 #ifdef _TIGHT_
-      if (dp_T0[arg] > 0)
+      if (dp_T0[arg] > 0) {
+        if (coval <= 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
+#if defined(_INDOPRO_)
         copy_index_domain(res, arg1, ind_dom);
+#endif
+#if defined(_NONLIND_)
+        arg_index[res] = arg_index[arg1];
+#endif
+      } else if (dp_T0[arg] == 0)
+        MINDEC(ret_c, 0);
 #else
+#if defined(_INDOPRO_)
       merge_2_index_domains(res, arg1, ind_dom);
 #endif
-#endif
 #if defined(_NONLIND_)
       arg_index[res] = arg_index[arg1];
 #endif
+#endif
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
       ASSIGN_T(Tres, TAYLOR_BUFFER[res])
@@ -4356,17 +4366,26 @@ int hov_forward(
 
       /* olvo 980924 changed order to allow reflexive ops */
 #if defined(_INDO_)
-#if defined(_INDOPRO_)
 #ifdef _TIGHT_
-      if (dp_T0[arg] >= 0)
+      if (dp_T0[arg] >= 0) {
+        if (coval < 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
+#if defined(_INDOPRO_)
         copy_index_domain(res, arg1, ind_dom);
+#endif
+#if defined(_NONLIND_)
+        arg_index[res] = arg_index[arg1];
+#endif
+      }
 #else
+#if defined(_INDOPRO_)
       merge_2_index_domains(res, arg1, ind_dom);
 #endif
-#endif
 #if defined(_NONLIND_)
       arg_index[res] = arg_index[arg1];
 #endif
+#endif
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
       ASSIGN_T(Tres, TAYLOR_BUFFER[res])
@@ -5346,13 +5365,17 @@ int hov_forward(
       /* olvo 980924 changed order to allow reflexive ops */
 #if defined(_INDO_)
       if (dp_T0[arg] > 0) {
+        if (coval <= 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
 #if defined(_INDOPRO_)
         copy_index_domain(res, arg1, ind_dom);
 #endif
 #if defined(_NONLIND_)
         arg_index[res] = arg_index[arg1];
 #endif
-      }
+      } else if (dp_T0[arg] == 0)
+        MINDEC(ret_c, 0);
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
       ASSIGN_T(Tres, TAYLOR_BUFFER[res])
@@ -5404,6 +5427,9 @@ int hov_forward(
       /* olvo 980924 changed order to allow reflexive ops */
 #if defined(_INDO_)
       if (dp_T0[arg] >= 0) {
+        if (coval < 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
 #if defined(_INDOPRO_)
         copy_index_domain(res, arg1, ind_dom);
 #endif
-- 
2.43.0


From b8b5fab69c38a517c44119b28b7de97d691b88e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 05/85] fix: fmin returns the smaller value, not a location
 number

---
 ADOL-C/src/adouble.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/adouble.cpp b/ADOL-C/src/adouble.cpp
index cd5d856..c1b1240 100644
--- a/ADOL-C/src/adouble.cpp
+++ b/ADOL-C/src/adouble.cpp
@@ -4704,7 +4704,7 @@ adouble fmin(const adouble &a, const adouble &b) {
   adouble ret_adouble;
 
   const double coval = b.value() < a.value() ? 0.0 : 1.0;
-  const double tmp = b.value() < a.value() ? b.value() : to_double(a.loc());
+  const double tmp = b.value() < a.value() ? b.value() : a.value();
 
   if (tape.workMode() == TapeInfos::WRITE_ACCESS) {
 
-- 
2.43.0


From b639ce11409b4408039a93deb6c1bde13e2c4b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 06/85] fix: keep tracing of vec_copy and vec_axpy saves the
 overwritten values

---
 ADOL-C/src/adouble.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/adouble.cpp b/ADOL-C/src/adouble.cpp
index c1b1240..825a151 100644
--- a/ADOL-C/src/adouble.cpp
+++ b/ADOL-C/src/adouble.cpp
@@ -5573,7 +5573,7 @@ void adolc_vec_copy(adouble *const dest, const adouble *const src,
       tape.increment_numTays_Tape();
 
       if (tape.keepTaylors())
-        tape.write_scaylor(dest[0].value());
+        tape.write_scaylor(tape.get_ad_value(dest[0].loc() + i));
     }
   }
   for (size_t i = 0; i < size; ++i)
@@ -5638,7 +5638,7 @@ void adolc_vec_axpy(adouble *const res, const adouble &a,
       tape.increment_numTays_Tape();
 
       if (tape.keepTaylors())
-        tape.write_scaylor(tape.get_ad_value(vec_a[0].loc() + i));
+        tape.write_scaylor(tape.get_ad_value(res[0].loc() + i));
     }
   }
   for (size_t i = 0; i < size; ++i)
-- 
2.43.0


From 1a64ac4c7bf2fb12e9ce5812e375a706e9a811e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 07/85] fix: vector operations no longer inflate the number of
 dependents

---
 ADOL-C/include/adolc/valuetape/valuetape.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index d3f45f4..3d70d30 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -248,7 +248,7 @@ public:
   size_t num_eq_prod() const { return tapeInfos_.num_eq_prod; }
   void num_eq_prod(size_t num) { tapeInfos_.num_eq_prod = num; }
   void increment_num_eq_prod() { ++(tapeInfos_.num_eq_prod); }
-  void add_num_eq_prod(size_t val) { tapeInfos_.numDeps += val; }
+  void add_num_eq_prod(size_t val) { tapeInfos_.num_eq_prod += val; }
 
   void increment_numInds() { ++tapeInfos_.numInds; }
   size_t numInds() const { return tapeInfos_.numInds; }
-- 
2.43.0


From d5965ea1f45c847b4614baecddb95d5efde6b0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:58 +0000
Subject: [PATCH 08/85] fix: inverse functions overwriting their argument test
 the argument, not the result, for singular points

---
 ADOL-C/src/uni5_for.cpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 2984ae0..1e34389 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -2724,7 +2724,9 @@ int hov_forward(
       IF_KEEP_WRITE_TAYLOR(res, keep, k, p)
 
 #if !defined(_NTIGHT_)
-      dp_T0[res] = asin(dp_T0[arg1]);
+      /* the argument is needed below, res and arg1 may coincide */
+      coval = dp_T0[arg1];
+      dp_T0[res] = asin(coval);
 #endif /* !_NTIGHT_ */
 
 #if defined(_INDO_)
@@ -2751,7 +2753,7 @@ int hov_forward(
 #else
       ASSIGN_T(Targ2, TAYLOR_BUFFER[arg2])
 
-      if (dp_T0[arg1] == 1.0)
+      if (coval == 1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_nan();
@@ -2770,7 +2772,7 @@ int hov_forward(
           TRES = r0;
           VEC_INC(Tres, k)
         }
-      else if (dp_T0[arg1] == -1.0)
+      else if (coval == -1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_inf();
@@ -2824,7 +2826,9 @@ int hov_forward(
       IF_KEEP_WRITE_TAYLOR(res, keep, k, p)
 
 #if !defined(_NTIGHT_)
-      dp_T0[res] = acos(dp_T0[arg1]);
+      /* the argument is needed below, res and arg1 may coincide */
+      coval = dp_T0[arg1];
+      dp_T0[res] = acos(coval);
 #endif /* !_NTIGHT_ */
 
 #if defined(_INDO_)
@@ -2851,7 +2855,7 @@ int hov_forward(
 #else
       ASSIGN_T(Targ2, TAYLOR_BUFFER[arg2])
 
-      if (dp_T0[arg1] == 1.0)
+      if (coval == 1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_nan();
@@ -2870,7 +2874,7 @@ int hov_forward(
           TRES = r0;
           VEC_INC(Tres, k)
         }
-      else if (dp_T0[arg1] == -1.0)
+      else if (coval == -1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = -tape.make_inf();
@@ -2985,7 +2989,9 @@ int hov_forward(
       IF_KEEP_WRITE_TAYLOR(res, keep, k, p)
 
 #if !defined(_NTIGHT_)
-      dp_T0[res] = acosh(dp_T0[arg1]);
+      /* the argument is needed below, res and arg1 may coincide */
+      coval = dp_T0[arg1];
+      dp_T0[res] = acosh(coval);
 #endif /* !_NTIGHT_ */
 
 #if defined(_INDO_)
@@ -3012,7 +3018,7 @@ int hov_forward(
 #else
       ASSIGN_T(Targ2, TAYLOR_BUFFER[arg2])
 
-      if (dp_T0[arg1] == 1.0)
+      if (coval == 1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_inf();
@@ -3070,7 +3076,9 @@ int hov_forward(
       IF_KEEP_WRITE_TAYLOR(res, keep, k, p)
 
 #if !defined(_NTIGHT_)
-      dp_T0[res] = atanh(dp_T0[arg1]);
+      /* the argument is needed below, res and arg1 may coincide */
+      coval = dp_T0[arg1];
+      dp_T0[res] = atanh(coval);
 #endif /* !_NTIGHT_ */
 
 #if defined(_INDO_)
@@ -3097,7 +3105,7 @@ int hov_forward(
 #else
       ASSIGN_T(Targ2, TAYLOR_BUFFER[arg2])
 
-      if (dp_T0[arg1] == 1.0)
+      if (coval == 1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_nan();
@@ -3119,7 +3127,7 @@ int hov_forward(
             *Tres++ = tape.make_nan();
 #endif /* _HIGHER_ORDER_ */
         }
-      else if (dp_T0[arg1] == -1.0)
+      else if (coval == -1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_inf();
-- 
2.43.0


From dbb1f277b6250df80f9d5e72ad1c8650e98273cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:10 +0000
Subject: [PATCH 09/85] fix: reverse sweeps of vec_copy and vec_axpy restore
 saved values in reverse order and clear the result adjoint

---
 ADOL-C/src/fo_rev.cpp | 44 +++++++++++++++++--------------
 ADOL-C/src/ho_rev.cpp | 61 +++++++++++++++++++++++--------------------
 2 files changed, 58 insertions(+), 47 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index e67ffc1..8dc9c08 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -2323,18 +2323,21 @@ int int_reverse_safe(
       res = tape.get_locint_r();
       size = tape.get_locint_r();
       arg = tape.get_locint_r();
-      for (locint qq = 0; qq < size; qq++) {
+      /* in reverse order, the saved values were written in forward order */
+      for (locint qq = size; qq-- > 0;) {
 
         ASSIGN_A(Aarg, ADJOINT_BUFFER[arg + qq])
         ASSIGN_A(Ares, ADJOINT_BUFFER[res + qq])
 
         FOR_0_LE_l_LT_p {
 #if defined(_INT_REV_)
-          AARG_INC |= *Ares;
+          size_t aTmp = *Ares;
           ARES_INC = 0;
+          AARG_INC |= aTmp;
 #else
-          AARG_INC += *Ares;
+          revreal aTmp = *Ares;
           ARES_INC = 0.0;
+          AARG_INC += aTmp;
 #endif
         }
 
@@ -2377,28 +2380,31 @@ int int_reverse_safe(
       arg2 = tape.get_locint_r();
       arg1 = tape.get_locint_r();
       arg = tape.get_locint_r();
-      for (locint qq = 0; qq < size; qq++) {
-        ASSIGN_A(Ares, ADJOINT_BUFFER[res])
+      /* in reverse order, the saved values were written in forward order */
+      for (locint qq = size; qq-- > 0;) {
+#if !defined(_NTIGHT_)
+        rp_T[res + qq] = tape.get_taylor();
+#endif /* !_NTIGHT_ */
+
+        ASSIGN_A(Ares, ADJOINT_BUFFER[res + qq])
         ASSIGN_A(Aarg, ADJOINT_BUFFER[arg])
-        ASSIGN_A(Aarg2, ADJOINT_BUFFER[arg2])
-        ASSIGN_A(Aarg1, ADJOINT_BUFFER[arg1])
+        ASSIGN_A(Aarg2, ADJOINT_BUFFER[arg2 + qq])
+        ASSIGN_A(Aarg1, ADJOINT_BUFFER[arg1 + qq])
         FOR_0_LE_l_LT_p {
 #if defined(_INT_REV_)
-          AARG_INC |= *Ares;
-          AARG2_INC |= *Ares;
-          AARG1_INC |= ARES_INC;
+          size_t aTmp = *Ares;
+          ARES_INC = 0;
+          AARG_INC |= aTmp;
+          AARG2_INC |= aTmp;
+          AARG1_INC |= aTmp;
 #else
-          AARG2_INC += *Ares;
-          AARG1_INC += (*Ares) * TARG;
-          AARG_INC += ARES_INC * TARG1;
+          revreal aTmp = *Ares;
+          ARES_INC = 0.0;
+          AARG2_INC += aTmp;
+          AARG1_INC += aTmp * TARG;
+          AARG_INC += aTmp * rp_T[arg1 + qq];
 #endif
         }
-#if !defined(_NTIGHT_)
-        rp_T[res] = tape.get_taylor();
-#endif /* !_NTIGHT_ */
-        arg2++;
-        arg1++;
-        res++;
       }
       break;
 
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 079180b..e4e2f6a 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -2441,7 +2441,8 @@ int hov_ti_reverse(
       size = tape.get_locint_r();
       arg = tape.get_locint_r();
 
-      for (locint qq = 0; qq < size; qq++) {
+      /* in reverse order, the saved values were written in forward order */
+      for (locint qq = size; qq-- > 0;) {
 
         ASSIGN_A(Aarg, rpp_A[arg + qq])
         ASSIGN_A(Ares, rpp_A[res + qq])
@@ -2510,40 +2511,44 @@ int hov_ti_reverse(
       arg2 = tape.get_locint_r();
       arg1 = tape.get_locint_r();
       arg = tape.get_locint_r();
-      for (locint qq = 0; qq < size; qq++) {
+      /* in reverse order, the saved values were written in forward order */
+      for (locint qq = size; qq-- > 0;) {
+        GET_TAYL(res + qq, k, p)
+
         ASSIGN_A(Ares, rpp_A[res + qq])
         ASSIGN_A(Aarg, rpp_A[arg])
         ASSIGN_A(Aarg2, rpp_A[arg2 + qq])
         ASSIGN_A(Aarg1, rpp_A[arg1 + qq])
         Targ = rpp_T[arg];
         Targ1 = rpp_T[arg1 + qq];
-        if (0 == ARES) {
-          HOV_INC(Aarg, k1)
-          HOV_INC(Aarg1, k1)
-          HOV_INC(Aarg2, k1)
-          HOV_INC(Ares, k1)
-        } else {
-          comp = (ARES > 2.0) ? ARES : 2.0;
-          MAXDEC(AARG2, ARES);
-          ARES_INC = 0.0;
-          MAXDEC(AARG, comp);
-          MAXDEC(AARG1, comp);
-          AARG_INC_O;
-          AARG1_INC_O;
-          AARG2_INC_O;
-          copyAndZeroset(k, Ares, rp_Atemp);
-          inconv(k, rp_Atemp, Targ1, Aarg);
-          inconv(k, rp_Atemp, Targ, Aarg1);
-          for (int i = 0; i < k; i++)
-            AARG2_INC += rp_Atemp[i];
+        for (int l = 0; l < p; l++)
+          if (0 == ARES) {
+            HOV_INC(Aarg, k1)
+            HOV_INC(Aarg1, k1)
+            HOV_INC(Aarg2, k1)
+            HOV_INC(Ares, k1)
+          } else {
+            double aTmp = ARES;
+            comp = (ARES > 2.0) ? ARES : 2.0;
+            ARES_INC = 0.0;
+            MAXDEC(AARG2, aTmp);
+            MAXDEC(AARG, comp);
+            MAXDEC(AARG1, comp);
+            AARG_INC_O;
+            AARG1_INC_O;
+            AARG2_INC_O;
+            copyAndZeroset(k, Ares, rp_Atemp);
+            inconv(k, rp_Atemp, Targ1, Aarg);
+            inconv(k, rp_Atemp, Targ, Aarg1);
+            for (int i = 0; i < k; i++)
+              AARG2_INC += rp_Atemp[i];
 
-          HOV_INC(Ares, k)
-          HOV_INC(Aarg, k)
-          HOV_INC(Aarg1, k)
-          HOS_OV_INC(Targ, k)
-          HOS_OV_INC(Targ1, k)
-        }
-        GET_TAYL(res + qq, k, p)
+            HOV_INC(Ares, k)
+            HOV_INC(Aarg, k)
+            HOV_INC(Aarg1, k)
+            HOS_OV_INC(Targ, k)
+            HOS_OV_INC(Targ1, k)
+          }
       }
       break;
 
-- 
2.43.0


From d919db7a9655ea516d931f3ad90e4c6f13ed3813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 10/85] fix: vector reverse of active subscripts clears the
 adjoint of every direction

---
 ADOL-C/src/fo_rev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 8dc9c08..4036999 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -2027,7 +2027,7 @@ int int_reverse_safe(
         ARES_INC = 0;
 #else
         AARG1_INC += *Ares;
-        *Ares = 0.0;
+        ARES_INC = 0.0;
 #endif
       }
       rp_T[res] = tape.get_taylor();
-- 
2.43.0


From 4c60878bf831ff4750f4d90ccadc4bb0517e883c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:41 +0000
Subject: [PATCH 11/85] fix: reverse sweeps keep the adjoint of an element
 assigned to itself through an active subscript

---
 ADOL-C/src/fo_rev.cpp | 14 ++++++++------
 ADOL-C/src/ho_rev.cpp |  3 ++-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 4036999..941ff0e 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -2163,15 +2163,17 @@ int int_reverse_safe(
       ASSIGN_A(Aarg, ADJOINT_BUFFER[arg])
       ASSIGN_A(Ares, ADJOINT_BUFFER[res])
 
-      FOR_0_LE_l_LT_p {
+      /* an element assigned to itself keeps its adjoint */
+      if (res != arg)
+        FOR_0_LE_l_LT_p {
 #if defined(_INT_REV_)
-        AARG_INC |= *Ares;
-        ARES_INC = 0;
+          AARG_INC |= *Ares;
+          ARES_INC = 0;
 #else
-        AARG_INC += *Ares;
-        ARES_INC = 0.0;
+          AARG_INC += *Ares;
+          ARES_INC = 0.0;
 #endif
-      }
+        }
 
       rp_T[res] = tape.get_taylor();
 #else
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index e4e2f6a..49d4874 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -2273,7 +2273,8 @@ int hov_ti_reverse(
       ASSIGN_A(Aarg, rpp_A[arg])
       ASSIGN_A(Ares, rpp_A[res])
 
-      for (int l = 0; l < p; l++)
+      /* an element assigned to itself keeps its adjoint */
+      for (int l = 0; l < p && res != arg; l++)
         if (0 == ARES) {
           HOV_INC(Aarg, k1)
           HOV_INC(Ares, k1)
-- 
2.43.0


From ef205a7c0b019d11f8390d5694a599c095f2139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:26 +0000
Subject: [PATCH 12/85] fix: frexp of a temporary returns the mantissa instead
 of changing its operand without a record

---
 ADOL-C/include/adolc/adtb_types.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ADOL-C/include/adolc/adtb_types.h b/ADOL-C/include/adolc/adtb_types.h
index 6459cbc..63b0dd5 100644
--- a/ADOL-C/include/adolc/adtb_types.h
+++ b/ADOL-C/include/adolc/adtb_types.h
@@ -1026,8 +1026,7 @@ ADOLC_API inline adouble frexp(const adouble &a, int *exp) {
 }
 ADOLC_API inline adouble frexp(adouble &&a, int *exp) {
   const double coval = std::frexp(a.value(), exp);
-  a.value(coval);
-  return a;
+  return adouble(coval);
 }
 
 /*---------------------------------------------------------------*/
-- 
2.43.0


From 6623984f35998842b0339192745cd64a971c95d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:49 +0000
Subject: [PATCH 13/85] fix: pow with a whole exponent has its Taylor
 coefficients and adjoints at zero

---
 ADOL-C/src/ho_rev.cpp   | 33 +++++++++++++--------------------
 ADOL-C/src/uni5_for.cpp | 31 ++++++++++++-------------------
 2 files changed, 25 insertions(+), 39 deletions(-)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 49d4874..465e0f7 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -1490,18 +1490,11 @@ int hov_ti_reverse(
               /* coval not a whole number */
               if (coval - floor(coval) != 0) {
                 for (int i = 0; i < k; i++) {
-                  if (coval - i > 1) {
-                    Aarg[i] = 0;
-                    Ares[i] = 0;
-                  }
-                  if ((coval - i < 1) && (coval - i > 0)) {
-                    Aarg[i] = tape.make_inf();
-                    Ares[i] = 0;
-                  }
-                  if (coval - i < 0) {
-                    Aarg[i] = tape.make_nan();
-                    Ares[i] = 0;
-                  }
+                  if ((coval - i < 1) && (coval - i > 0))
+                    Aarg[i] += tape.make_inf();
+                  if (coval - i < 0)
+                    Aarg[i] += tape.make_nan();
+                  Ares[i] = 0;
                 }
               } else {
                 if (coval == 1) {
@@ -1514,14 +1507,14 @@ int hov_ti_reverse(
                   /* the following is not efficient but at least it works */
                   /* it reformulates x^n into x* ... *x n times */
 
-                  copyAndZeroset(k, Ares, rp_Atemp);
-                  inconv(k, rp_Atemp, Targ, Aarg);
-                  inconv(k, rp_Atemp, Targ, Aarg);
-                  if (coval == 3) {
-                    conv(k, Aarg, Targ, rp_Atemp);
-                    for (int i = 0; i < k; i++)
-                      Aarg[i] = 2.0 * rp_Atemp[i];
-                  }
+                  for (int i = 0; i < k; i++)
+                    rp_Ttemp[i] = Targ[i];
+                  /* all coefficients vanish for more than k factors */
+                  for (int ii = 2; ii < coval && ii <= k; ii++)
+                    conv(k, rp_Ttemp, Targ, rp_Ttemp);
+                  for (int i = 0; i < k; i++)
+                    rp_Ttemp[i] *= coval;
+                  inconv0(k, Ares, rp_Ttemp, Aarg);
                 }
               }
             }
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 1e34389..e543dec 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -3409,7 +3409,7 @@ int hov_forward(
           FOR_0_LE_l_LT_pk TRES_INC = tape.make_nan();
         else {
           /* coval not a whole number */
-          if (coval - floor(coval != 0.0) != 0) {
+          if (coval - floor(coval) != 0) {
             FOR_0_LE_l_LT_p {
               FOR_0_LE_i_LT_k {
                 if (coval - i > 1)
@@ -3431,40 +3431,33 @@ int hov_forward(
               INC_pk_1(Targ) INC_pk_1(Tres)
 
                   FOR_p_GT_l_GE_0 {
+#if defined(_HIGHER_ORDER_)
+                zOP = dp_z + k - 1;
+                for (int j = k - 1; j >= 0; j--)
+                  (*zOP--) = (*Targ--);
+#endif /* _HIGHER_ORDER_ */
                 FOR_k_GT_i_GE_0 {
                   *Tres = 0;
                   DEC_TRES_FO
 #if defined(_HIGHER_ORDER_)
-                  if (i == k - 1) {
-                    zOP = dp_z + k - 1;
-                    for (int j = k - 1; j >= 0; j--) {
-                      (*zOP--) = (*Targ--);
-                    }
-                  }
-                  for (int j = 0; j < i; j++) {
+                  for (int j = 0; j < i; j++)
                     *Tres += dp_z[j] * dp_z[i - j - 1];
-                  }
                   Tres--;
 #endif /* _HIGHER_ORDER_ */
                 }
-              }
-              for (int ii = 3; ii <= coval; ii++) {
-                ASSIGN_T(Tres, TAYLOR_BUFFER[res])
-                ASSIGN_T(Targ, TAYLOR_BUFFER[arg])
-                INC_pk_1(Targ) INC_pk_1(Tres)
-
-                    FOR_p_GT_l_GE_0 {
+#if defined(_HIGHER_ORDER_)
+                /* all coefficients vanish for more than k factors */
+                for (int ii = 3; ii <= coval && ii <= k + 1; ii++) {
+                  Tres += k;
                   FOR_k_GT_i_GE_0 {
                     *Tres = 0;
-                    DEC_TRES_FO
-#if defined(_HIGHER_ORDER_)
                     TresOP = Tres - i;
                     for (int j = 0; j < i; j++)
                       *Tres += TresOP[j] * dp_z[i - j - 1];
                     Tres--;
-#endif /* _HIGHER_ORDER_ */
                   }
                 }
+#endif /* _HIGHER_ORDER_ */
               }
             }
           }
-- 
2.43.0


From 974d5911ac04609d3311cc1af75517cfba44d188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:32 +0000
Subject: [PATCH 14/85] fix: hos_ov reverse of += and -= of a product advances
 all directions when an adjoint is zero

---
 ADOL-C/src/ho_rev.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 465e0f7..689fa65 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -1003,6 +1003,9 @@ int hov_ti_reverse(
           HOV_INC(Aarg1, k1)
           HOV_INC(Aarg2, k1)
           HOV_INC(Ares, k1)
+          HOS_OV_INC(Targ1, k)
+          HOS_OV_INC(Targ2, k)
+          HOS_OV_INC(Tres, k)
         } else {
           comp = (ARES > 2.0) ? ARES : 2.0;
           ARES_INC = comp;
@@ -1052,6 +1055,9 @@ int hov_ti_reverse(
           HOV_INC(Aarg1, k1)
           HOV_INC(Aarg2, k1)
           HOV_INC(Ares, k1)
+          HOS_OV_INC(Targ1, k)
+          HOS_OV_INC(Targ2, k)
+          HOS_OV_INC(Tres, k)
         } else {
           comp = (ARES > 2.0) ? ARES : 2.0;
           ARES_INC = comp;
-- 
2.43.0


From f8304744f5aaa87e6416a5a36e511e899ad8f331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:32 +0000
Subject: [PATCH 15/85] fix: higher order reverse of floor clears the adjoint
 of the result

---
 ADOL-C/src/ho_rev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 689fa65..c236c8b 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -1855,7 +1855,7 @@ int hov_ti_reverse(
           HOV_INC(Aarg, k1)
           HOV_INC(Ares, k1)
         } else {
-          ARES = 0.0;
+          ARES_INC = 0.0;
           AARG_INC = 5.0;
           for (int i = 0; i < k; i++) {
             if ((coval != 0.0) && (ARES != 0.0))
-- 
2.43.0


From 8cd0b6dd5dab39fc7af37165090edc7d67665373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:32 +0000
Subject: [PATCH 16/85] fix: higher order reverse of ceil writes to its own
 argument

---
 ADOL-C/src/ho_rev.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index c236c8b..5f1af94 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -1820,6 +1820,7 @@ int hov_ti_reverse(
       coval = (coval != ceil(*rpp_T[arg]));
 
       ASSIGN_A(Ares, rpp_A[res])
+      ASSIGN_A(Aarg, rpp_A[arg])
 
       for (int l = 0; l < p; l++)
         if (0 == ARES) {
-- 
2.43.0


From 9bee27210d8ed563462174d218d9fd100dbe2784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:32 +0000
Subject: [PATCH 17/85] fix: hov_ti_reverse keeps the sign of fabs for every
 weight

---
 ADOL-C/src/ho_rev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 5f1af94..ccf80f8 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -350,7 +350,7 @@ int hov_ti_reverse(
 #ifdef _HOV_
   const int p = nrows;
   const int pk1 = p * k1;
-  const int q = 1;
+  const int q = p;
 #elif _HOS_OV_
   const int p = nrows;
   const int pk1 = p * k1;
-- 
2.43.0


From e4bcb3a2193e5e566e4d231db7de0e051e250852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:32 +0000
Subject: [PATCH 18/85] fix: higher order reverse of vec_copy keeps the adjoint
 of a vector copied onto itself

---
 ADOL-C/src/ho_rev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index ccf80f8..90a878f 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -2449,7 +2449,7 @@ int hov_ti_reverse(
         ASSIGN_A(Ares, rpp_A[res + qq])
 
         for (int l = 0; l < p; l++)
-          if (0 == ARES) {
+          if (0 == ARES || res == arg) { /* a copy onto itself changes nothing */
             HOV_INC(Aarg, k1)
             HOV_INC(Ares, k1)
           } else {
-- 
2.43.0


From ea5c3d5c68fb6edf55ca6876b94dddc33feaf791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:32 +0000
Subject: [PATCH 19/85] fix: traceless atan2(a,b) had derivative zero for b ==
 0

---
 ADOL-C/include/adolc/adtl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl.h b/ADOL-C/include/adolc/adtl.h
index 45ac5ed..08dddea 100644
--- a/ADOL-C/include/adolc/adtl.h
+++ b/ADOL-C/include/adolc/adtl.h
@@ -572,11 +572,11 @@ ADOLC_API inline adouble atan2(const adouble &a, const adouble &b) {
   tmp.PRIMAL_VALUE = ADOLC_MATH_NSP::atan2(a.PRIMAL_VALUE, b.PRIMAL_VALUE);
   double tmp2 = a.PRIMAL_VALUE * a.PRIMAL_VALUE;
   double tmp3 = b.PRIMAL_VALUE * b.PRIMAL_VALUE;
-  double tmp4 = tmp3 / (tmp2 + tmp3);
+  double tmp4 = tmp2 + tmp3;
   if (tmp4 != 0)
     FOR_I_EQ_1_LTEQ_NUMDIR
   tmp.ADVAL_I =
-      (a.ADVAL_I * b.PRIMAL_VALUE - a.PRIMAL_VALUE * b.ADVAL_I) / tmp3 * tmp4;
+      (a.ADVAL_I * b.PRIMAL_VALUE - a.PRIMAL_VALUE * b.ADVAL_I) / tmp4;
   else FOR_I_EQ_1_LTEQ_NUMDIR tmp.ADVAL_I = 0.0;
   return tmp;
 }
-- 
2.43.0


From 600364e49f0dcfd1ef35b821aa3baa53c1da97b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:32 +0000
Subject: [PATCH 20/85] fix: adtl_indo: assigning a variable to itself lost its
 index pattern

---
 ADOL-C/include/adolc/adtl_indo.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_indo.h b/ADOL-C/include/adolc/adtl_indo.h
index 14c8699..4b82753 100644
--- a/ADOL-C/include/adolc/adtl_indo.h
+++ b/ADOL-C/include/adolc/adtl_indo.h
@@ -726,9 +726,7 @@ inline adouble &adouble::operator=(const double v) {
 
 inline adouble &adouble::operator=(const adouble &a) {
   val = a.val;
-  if (!pattern.empty())
-    pattern.clear();
-  add_to_pattern(a.get_pattern());
+  pattern = a.get_pattern();
   return *this;
 }
 
-- 
2.43.0


From 1da18ca4fd1da3ed2a04671cbe21a83dc3cfef79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:55 +0000
Subject: [PATCH 21/85] fix: reverse sweeps left the adjoint in place at an
 independent assignment

---
 ADOL-C/src/fo_rev.cpp | 30 ++++++++++++++++++++++++------
 ADOL-C/src/ho_rev.cpp | 16 ++++++++++------
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 941ff0e..4b97b1b 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -711,17 +711,29 @@ int int_reverse_safe(
       // Nested reverse calls for ext_diff use the public fov_reverse layout
       // [q][n], so they must not transpose result access here.
       if (tape.nestedReverseEval()) {
-        FOR_0_LE_l_LT_p RESULTS(l, indexi) += static_cast<bitword_t>(ARES_INC);
+        FOR_0_LE_l_LT_p {
+          RESULTS(l, indexi) += static_cast<bitword_t>(*Ares);
+          ARES_INC = 0;
+        }
       } else {
-        FOR_0_LE_l_LT_p RESULTS(l, indexi) = static_cast<bitword_t>(ARES_INC);
+        FOR_0_LE_l_LT_p {
+          RESULTS(l, indexi) = static_cast<bitword_t>(*Ares);
+          ARES_INC = 0;
+        }
       }
 #else
       // Nested reverse calls for ext_diff use the public fov_reverse layout
       // [q][n], so they must not transpose result access here.
       if (tape.nestedReverseEval()) {
-        FOR_0_LE_l_LT_p RESULTS(l, indexi) += ARES_INC;
+        FOR_0_LE_l_LT_p {
+          RESULTS(l, indexi) += *Ares;
+          ARES_INC = 0.0;
+        }
       } else {
-        FOR_0_LE_l_LT_p RESULTS(l, indexi) = ARES_INC;
+        FOR_0_LE_l_LT_p {
+          RESULTS(l, indexi) = *Ares;
+          ARES_INC = 0.0;
+        }
       }
 #endif
 #if !defined(_NTIGHT_)
@@ -2190,9 +2202,15 @@ int int_reverse_safe(
 
       ASSIGN_A(Ares, ADJOINT_BUFFER[res])
 #if defined(_INT_REV_)
-      FOR_0_LE_l_LT_p RESULTS(l, indexi) = static_cast<bitword_t>(ARES_INC);
+      FOR_0_LE_l_LT_p {
+        RESULTS(l, indexi) = static_cast<bitword_t>(*Ares);
+        ARES_INC = 0;
+      }
 #else
-      FOR_0_LE_l_LT_p RESULTS(l, indexi) = ARES_INC;
+      FOR_0_LE_l_LT_p {
+        RESULTS(l, indexi) = *Ares;
+        ARES_INC = 0.0;
+      }
 #endif
 
       rp_T[res] = tape.get_taylor();
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 90a878f..f2699c2 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -617,9 +617,11 @@ int hov_ti_reverse(
         if (nonzero) /* ??? question: why here? */
           nonzero[l][indexi] = static_cast<short>(ARES);
 #endif /* _HOV_ */
-        ARES_INC_O;
-        for (int i = 0; i < k; i++)
-          RESULTS(l, indexi, i) = ARES_INC;
+        ARES_INC = 0.0;
+        for (int i = 0; i < k; i++) {
+          RESULTS(l, indexi, i) = ARES;
+          ARES_INC = 0.0;
+        }
       }
 
       GET_TAYL(res, k, p)
@@ -2303,9 +2305,11 @@ int hov_ti_reverse(
         if (nonzero) /* ??? question: why here? */
           nonzero[l][indexi] = static_cast<short>(ARES);
 #endif /* _HOV_ */
-        ARES_INC_O;
-        for (int i = 0; i < k; i++)
-          RESULTS(l, indexi, i) = ARES_INC;
+        ARES_INC = 0.0;
+        for (int i = 0; i < k; i++) {
+          RESULTS(l, indexi, i) = ARES;
+          ARES_INC = 0.0;
+        }
       }
 
       GET_TAYL(res, k, p)
-- 
2.43.0


From 7c2375a2d39a7ef0a2dbd45fa6d11f099795ce03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:19 +0000
Subject: [PATCH 22/85] fix: reverse sweeps dropped the adjoint a dependent
 variable had from later uses

---
 ADOL-C/src/fo_rev.cpp | 6 +++++-
 ADOL-C/src/ho_rev.cpp | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 4b97b1b..b2faf8f 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -751,7 +751,11 @@ int int_reverse_safe(
 
       // Nested reverse calls for ext_diff use the public fov_reverse layout
       // [q][m], so they must not transpose incoming adjoint access here.
-      FOR_0_LE_l_LT_p ARES_INC = LAGRANGE(l, indexd);
+#if defined(_INT_REV_)
+      FOR_0_LE_l_LT_p ARES_INC |= LAGRANGE(l, indexd);
+#else
+      FOR_0_LE_l_LT_p ARES_INC += LAGRANGE(l, indexd);
+#endif
       indexd--;
       break;
 
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index f2699c2..67d3d17 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -640,11 +640,11 @@ int hov_ti_reverse(
         ARES_INC_O;
         dc = -1;
         for (int i = 0; i < k; i++) {
-          ARES_INC = LAGRANGE(l, indexd, i);
+          ARES_INC += LAGRANGE(l, indexd, i);
           if (LAGRANGE(l, indexd, i) != 0.0)
             dc = i;
         }
-        AARG = (dc < 0) ? 0.0 : (dc > 0) ? 2.0 : 1.0;
+        MAXDEC(AARG, ((dc < 0) ? 0.0 : (dc > 0) ? 2.0 : 1.0));
         HOV_INC(Aarg, k1)
       }
       indexd--;
-- 
2.43.0


From bb7a4231be67522dc4f5c6a72c336109276cf520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:44 +0000
Subject: [PATCH 23/85] fix: safe bit-pattern propagation of min handled the
 first word only

---
 ADOL-C/src/uni5_for.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index e543dec..3140e68 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -3820,7 +3820,7 @@ int hov_forward(
       dp_T0[res] = MIN_ADOLC(dp_T0[arg1], dp_T0[arg2]);
 #endif /* _TIGHT_ */
 #ifdef _NTIGHT_
-      TRES_INC = TARG1_INC | TARG2_INC;
+      FOR_0_LE_l_LT_p TRES_INC = TARG1_INC | TARG2_INC;
 #endif /* _NTIGHT_ */
 #else
       Tqo = nullptr;
-- 
2.43.0


From 0800c67c11b1763e102364f79488c18ad6d0cace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:44 +0000
Subject: [PATCH 24/85] fix: safe bit-pattern sweeps lost dependencies at
 one-armed conditional assignments

---
 ADOL-C/src/fo_rev.cpp   | 12 ++++--------
 ADOL-C/src/uni5_for.cpp |  8 ++++++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index b2faf8f..33b03eb 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1933,11 +1933,9 @@ int int_reverse_safe(
       } else if (TARG == 0.0) /* we are at the tie */
         FOR_0_LE_l_LT_p if (ARES_INC != 0) MINDEC(ret_c, 0);
 #else
+      /* res keeps its value when the condition fails */
       if (res != arg1)
-        FOR_0_LE_l_LT_p {
-          AARG1 |= *Ares;
-          ARES_INC = 0;
-        }
+        FOR_0_LE_l_LT_p AARG1_INC |= ARES_INC;
 #endif /* !_NTIGHT_ */
       break;
 
@@ -1974,11 +1972,9 @@ int int_reverse_safe(
               MINDEC(ret_c, 2);
       }
 #else
+      /* res keeps its value when the condition fails */
       if (res != arg1)
-        FOR_0_LE_l_LT_p {
-          AARG1 |= *Ares;
-          ARES_INC = 0;
-        }
+        FOR_0_LE_l_LT_p AARG1_INC |= ARES_INC;
 #endif /* !_NTIGHT_ */
       break;
 
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 3140e68..b52ddc7 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -4328,8 +4328,10 @@ int hov_forward(
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
       if (dp_T0[arg] > 0)
-#endif /* _TIGHT_ */
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
+#else
+      FOR_0_LE_l_LT_pk TRES_INC |= TARG1_INC;
+#endif /* _TIGHT_ */
 
 #ifdef _TIGHT_
       if (dp_T0[arg] > 0) {
@@ -4396,8 +4398,10 @@ int hov_forward(
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
       if (dp_T0[arg] >= 0)
-#endif /* _TIGHT_ */
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
+#else
+      FOR_0_LE_l_LT_pk TRES_INC |= TARG1_INC;
+#endif /* _TIGHT_ */
 
 #ifdef _TIGHT_
       if (dp_T0[arg] >= 0) {
-- 
2.43.0


From ab19a6ddb3a62b2322c90cbe723d6308072a1b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:58 +0000
Subject: [PATCH 25/85] fix: tight bit-pattern propagation ran past the row at
 conditional assignments through active subscripts

---
 ADOL-C/src/uni5_for.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index b52ddc7..e22cc33 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -5231,7 +5231,6 @@ int hov_forward(
             MINDEC(ret_c, 0);
           dp_T0[res] = dp_T0[arg2];
         }
-        FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC | TARG2_INC;
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
         if (dp_T0[arg] > 0)
@@ -5326,7 +5325,6 @@ int hov_forward(
             MINDEC(ret_c, 2);
           dp_T0[res] = dp_T0[arg2];
         }
-        FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC | TARG2_INC;
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
         if (dp_T0[arg] >= 0)
-- 
2.43.0


From d3a4f7eea830ad8c7017d76c617713fc6ea69de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:15 +0000
Subject: [PATCH 26/85] fix: forodec_ frees its work array as it was allocated
 and passes the given coefficients

---
 ADOL-C/src/drivers/odedriversf.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ADOL-C/src/drivers/odedriversf.cpp b/ADOL-C/src/drivers/odedriversf.cpp
index da26887..3cd8a4e 100644
--- a/ADOL-C/src/drivers/odedriversf.cpp
+++ b/ADOL-C/src/drivers/odedriversf.cpp
@@ -39,15 +39,12 @@ fint forodec_(fint *ftag,    /* tape identifier */
   short tag = static_cast<short>(*ftag);
   int n = static_cast<int>(*fn), dol = static_cast<int>(*fdol),
       deg = static_cast<int>(*fdeg);
-  int i;
   double tau = *ftau;
   double **Y = myalloc2(n, deg + 1);
-  for (i = 0; i < n; i++)
-    *Y[i] = fy[i];
+  spread2(n, dol + 1, fy, Y);
   rc = forodec(tag, n, tau, dol, deg, Y);
   pack2(n, deg + 1, Y, fy);
-  free((char *)*Y);
-  free((char *)Y);
+  myfree2(Y);
   return rc;
 }
 
-- 
2.43.0


From 59316839679e0a05bf20b68d5cc39bca989aeae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:15 +0000
Subject: [PATCH 27/85] fix: accodec_ passes all degrees and frees its work
 arrays as they were allocated

---
 ADOL-C/src/drivers/odedriversf.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/ADOL-C/src/drivers/odedriversf.cpp b/ADOL-C/src/drivers/odedriversf.cpp
index 3cd8a4e..535b6b8 100644
--- a/ADOL-C/src/drivers/odedriversf.cpp
+++ b/ADOL-C/src/drivers/odedriversf.cpp
@@ -60,17 +60,13 @@ fint accodec_(fint *fn,      /* space dimension */
   int rc = 1;
   int n = static_cast<int>(*fn), deg = static_cast<int>(*fdeg);
   double tau = *ftau;
-  double ***A = myalloc3(n, n, deg);
-  double ***B = myalloc3(n, n, deg);
-  spread3(n, n, deg, fa, A);
+  double ***A = myalloc3(n, n, deg + 1);
+  double ***B = myalloc3(n, n, deg + 1);
+  spread3(n, n, deg + 1, fa, A);
   accodec(n, tau, deg, A, B, 0);
-  pack3(n, n, deg, B, fb);
-  free((char *)**A);
-  free((char *)*A);
-  free((char *)A);
-  free((char *)**B);
-  free((char *)*B);
-  free((char *)B);
+  pack3(n, n, deg + 1, B, fb);
+  myfree3(A);
+  myfree3(B);
   return rc;
 }
 
-- 
2.43.0


From 7e4d214cf96fb00f54047d497d7da298e8709111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:15 +0000
Subject: [PATCH 28/85] fix: vec_jac with repeat returns the code of the
 reverse sweep

---
 ADOL-C/src/drivers/drivers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/drivers/drivers.cpp b/ADOL-C/src/drivers/drivers.cpp
index af6178e..ddbdd5f 100644
--- a/ADOL-C/src/drivers/drivers.cpp
+++ b/ADOL-C/src/drivers/drivers.cpp
@@ -54,7 +54,7 @@ int gradient(short tag, int n, const double *argument, double *result) {
 /* vec_jac(tag, m, n, repeat, x[n], u[m], v[n])                             */
 int vec_jac(short tag, int m, int n, int repeat, const double *argument,
             const double *lagrange, double *row) {
-  int rc = -1;
+  int rc = 3;
   double *y = NULL;
 
   if (!repeat) {
-- 
2.43.0


From f284ba6cdee6c5a88b17337fb029bb071b8396e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:15 +0000
Subject: [PATCH 29/85] fix: vec_jac, jacobian and lagra_hess_vec release their
 work arrays when the sweep fails

---
 ADOL-C/src/drivers/drivers.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/src/drivers/drivers.cpp b/ADOL-C/src/drivers/drivers.cpp
index ddbdd5f..d62973f 100644
--- a/ADOL-C/src/drivers/drivers.cpp
+++ b/ADOL-C/src/drivers/drivers.cpp
@@ -60,8 +60,10 @@ int vec_jac(short tag, int m, int n, int repeat, const double *argument,
   if (!repeat) {
     y = myalloc1(m);
     rc = zos_forward(tag, m, n, 1, argument, y);
-    if (rc < 0)
+    if (rc < 0) {
+      myfree1(y);
       return rc;
+    }
   }
   MINDEC(rc, fos_reverse(tag, m, n, lagrange, row));
   if (!repeat)
@@ -87,8 +89,11 @@ int jacobian(short tag, int depen, int indep, const double *argument,
   } else {
     I = myallocI2(depen);
     rc = zos_forward(tag, depen, indep, 1, argument, result);
-    if (rc < 0)
+    if (rc < 0) {
+      myfreeI2(depen, I);
+      myfree1(result);
       return rc;
+    }
     MINDEC(rc, fov_reverse(tag, depen, indep, depen, I, jacobian));
     myfreeI2(depen, I);
   }
@@ -278,8 +283,12 @@ int lagra_hess_vec(short tag, int m, int n, const double *argument,
 
   rc = fos_forward(tag, m, n, keep, argument, tangent, y, y_tangent);
 
-  if (rc < 0)
+  if (rc < 0) {
+    myfree1(y_tangent);
+    myfree1(y);
+    myfree2(X);
     return rc;
+  }
 
   MINDEC(rc, hos_reverse(tag, m, n, degree, lagrange, X));
 
-- 
2.43.0


From 57421822b4a6bb93ab6ca0a032ab0f58f9779e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:15 +0000
Subject: [PATCH 30/85] fix: large_jacobian stays within the directions and
 returns the smallest code of its runs

---
 ADOL-C/src/drivers/drivers.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ADOL-C/src/drivers/drivers.cpp b/ADOL-C/src/drivers/drivers.cpp
index d62973f..8849bd5 100644
--- a/ADOL-C/src/drivers/drivers.cpp
+++ b/ADOL-C/src/drivers/drivers.cpp
@@ -109,7 +109,7 @@ int jacobian(short tag, int depen, int indep, const double *argument,
 
 int large_jacobian(short tag, int depen, int indep, int runns, double *argument,
                    double *result, double **jacobian) {
-  int rc, dirs, i;
+  int rc = 3, dirs, i;
   double **I;
 
   I = myallocI2(indep);
@@ -120,13 +120,16 @@ int large_jacobian(short tag, int depen, int indep, int runns, double *argument,
   dirs = indep / runns;
   if (indep % runns)
     ++dirs;
+  /* the rounded-up number of directions may need fewer runs */
+  if (dirs > 0)
+    runns = (indep + dirs - 1) / dirs;
   for (i = 0; i < runns - 1; ++i) {
-    rc = fov_offset_forward(tag, depen, indep, dirs, i * dirs, argument, I,
-                            result, jacobian);
+    MINDEC(rc, fov_offset_forward(tag, depen, indep, dirs, i * dirs, argument,
+                                  I, result, jacobian));
   }
   dirs = indep - (runns - 1) * dirs;
-  rc = fov_offset_forward(tag, depen, indep, dirs, indep - dirs, argument, I,
-                          result, jacobian);
+  MINDEC(rc, fov_offset_forward(tag, depen, indep, dirs, indep - dirs, argument,
+                                I, result, jacobian));
   myfreeI2(indep, I);
   return rc;
 }
-- 
2.43.0


From d63b790a2a4632eed5d034fbeb49f7b2c4004138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:40 +0000
Subject: [PATCH 31/85] fix: tensor_address and tensor_value accept
 multi-indices in any order

---
 ADOL-C/src/drivers/taylor.cpp | 52 ++++-------------------------------
 1 file changed, 6 insertions(+), 46 deletions(-)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index 8f95566..f961caa 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -18,6 +18,7 @@
 #include <adolc/tape_interface.h>
 #include <adolc/valuetape/valuetape.h>
 
+#include <algorithm>
 #include <math.h>
 
 BEGIN_C_DECLS
@@ -275,37 +276,18 @@ void convert(int p, int d, int *im, int *multi) {
 
 /*--------------------------------------------------------------------------*/
 size_t tensor_address(int d, int *multi) {
-  int i, j, max, ind;
+  int i;
   size_t add = 0;
   int *im = (int *)malloc(d * sizeof(int));
-  int *mymulti = (int *)malloc(d * sizeof(int));
-
-  max = 0;
-  ind = d - 1;
-  for (i = 0; i < d; i++) {
-    mymulti[i] = multi[i];
-    if (mymulti[i] > max)
-      max = mymulti[i];
-    im[i] = 0;
-  }
 
-  for (i = 0; i < d; i++) {
-    if (mymulti[i] == max) {
-      im[ind] = mymulti[i];
-      mymulti[i] = 0;
-      max = 0;
-      ind -= 1;
-      for (j = 0; j < d; j++)
-        if (mymulti[j] > max)
-          max = mymulti[j];
-    }
-  }
+  for (i = 0; i < d; i++)
+    im[i] = multi[i];
+  std::sort(im, im + d);
 
   for (i = 0; i < d; i++) {
     add += binomi(im[i] + i, i + 1);
   }
   free((char *)im);
-  free((char *)mymulti);
 
   return add;
 }
@@ -844,31 +826,9 @@ int tensor_eval(short tag, int m, int n, int d, int p, double *x,
 
 /****************************************************************************/
 void tensor_value(int d, int m, double *y, double **tensor, int *multi) {
-  int *im = (int *)malloc(d * sizeof(int));
-
-  int max = 0;
-  int ind = d - 1;
-  for (int i = 0; i < d; i++) {
-    if (multi[i] > max)
-      max = multi[i];
-    im[i] = 0;
-  }
-  for (int i = 0; i < d; i++) {
-    if (multi[i] == max) /* olvo 980728 == instead of = */
-    {
-      im[ind] = multi[i];
-      multi[i] = 0;
-      max = 0;
-      ind -= 1;
-      for (int j = 0; j < d; j++)
-        if (multi[j] > max)
-          max = multi[j];
-    }
-  }
-  size_t add = tensor_address(d, im);
+  size_t add = tensor_address(d, multi);
   for (int i = 0; i < m; i++)
     y[i] = tensor[i][add];
-  free((char *)im);
 }
 
 END_C_DECLS
-- 
2.43.0


From 17ba238618667d5960ffc7cddefde0094046b2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:40 +0000
Subject: [PATCH 32/85] fix: inverse_tensor_eval allocates for the new degree
 when it changes between calls

---
 ADOL-C/src/drivers/taylor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index f961caa..e003e40 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -627,8 +627,8 @@ int inverse_tensor_eval(short tag, int n, int d, int p, double *x,
     dim = binomi(p + d - 1, d);
     if ((d != dold) || (p != pold)) {
       if (pold) { /* olvo 980728 */
-        dim = binomi(pold + dold - 1, dold);
-        freecoefflist(dim, coeff_list);
+        auto oldDim = binomi(pold + dold - 1, dold);
+        freecoefflist(oldDim, coeff_list);
         free((char *)coeff_list);
       }
       coeff_list = (struct item *)malloc(sizeof(struct item) * dim);
-- 
2.43.0


From 778cf7197ea57a2322fd873f5b18a31ab2c17297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:40 +0000
Subject: [PATCH 33/85] fix: jac_solv factors the Jacobian again after a call
 that left it unfactored

---
 ADOL-C/src/drivers/taylor.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index e003e40..1930a23 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -442,8 +442,11 @@ int jac_solv(unsigned short tag, int n, const double *x, double *b,
       tape.jacSolv_xold()[i] = x[i];
       newX = 1;
     }
+  if (newX == 1)
+    tape.jacSolv_modeold(0);
   switch (mode) {
   case 0:
+    tape.jacSolv_modeold(0); /* leaves the Jacobian unfactored */
     MINDEC(rc, zos_forward(tag, n, n, 1, x, y));
     MINDEC(rc, fov_reverse(tag, n, n, n, tape.jacSolv_I(), tape.jacSolv_J()));
     break;
@@ -452,13 +455,14 @@ int jac_solv(unsigned short tag, int n, const double *x, double *b,
     MINDEC(rc, fov_reverse(tag, n, n, n, tape.jacSolv_I(), tape.jacSolv_J()));
     if (LUFactorization(tape.jacSolv_J(), n, tape.jacSolv_ri(),
                         tape.jacSolv_ci()) < 0) {
+      tape.jacSolv_modeold(0);
       rc = -3;
       break;
     }
     tape.jacSolv_modeold(1);
     break;
   case 2:
-    if ((tape.jacSolv_modeold() < 1) || (newX == 1)) {
+    if (tape.jacSolv_modeold() < 1) {
       MINDEC(rc, zos_forward(tag, n, n, 1, x, y));
       MINDEC(rc, fov_reverse(tag, n, n, n, tape.jacSolv_I(), tape.jacSolv_J()));
       if (LUFactorization(tape.jacSolv_J(), n, tape.jacSolv_ri(),
-- 
2.43.0


From bfed1420779367f15a93abd79ad64399e6dbd004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:01 +0000
Subject: [PATCH 34/85] fix: inverse_tensor_eval releases its work arrays when
 the Jacobian is singular

---
 ADOL-C/src/drivers/taylor.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index 1930a23..9de3920 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -661,8 +661,14 @@ int inverse_tensor_eval(short tag, int n, int d, int p, double *x,
         ptr = &coeff_list[i];
         multma2vec1(n, p, d, Y, S, jm);
         MINDEC(rc, inverse_Taylor_prop(tag, n, d, Y, X));
-        if (rc == -3)
+        if (rc == -3) {
+          free((char *)jm);
+          myfree2(X);
+          myfree2(Y);
+          free((char *)y);
+          free((char *)it);
           return -3;
+        }
         do {
           for (int j = 0; j < n; j++)
             tensor[j][ptr->a] += static_cast<double>(X[j][ptr->b] * ptr->c);
@@ -685,8 +691,14 @@ int inverse_tensor_eval(short tag, int n, int d, int p, double *x,
         convert(p, d, it, jm);
         multma2vec1(n, p, d, Y, S, jm); /* Store S*jm in Y */
         MINDEC(rc, inverse_Taylor_prop(tag, n, d, Y, X));
-        if (rc == -3)
+        if (rc == -3) {
+          free((char *)jm);
+          myfree2(X);
+          myfree2(Y);
+          free((char *)y);
+          free((char *)it);
           return -3;
+        }
         ptr = &coeff_list[i];
         do {
           for (int j = 0; j < n; j++) {
-- 
2.43.0


From 2d60458694a64808df573fc0272581526b04bcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:46 +0000
Subject: [PATCH 35/85] fix: opening a tape file for writing closes the
 leftover file only once

---
 ADOL-C/include/adolc/valuetape/tapeinfos.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/include/adolc/valuetape/tapeinfos.h b/ADOL-C/include/adolc/valuetape/tapeinfos.h
index 64ce268..86c2efe 100644
--- a/ADOL-C/include/adolc/valuetape/tapeinfos.h
+++ b/ADOL-C/include/adolc/valuetape/tapeinfos.h
@@ -194,9 +194,8 @@ struct TapeInfos {
     using ADOLCError::ErrorType::CANNOT_REMOVE_FILE;
     if (Info::file(*this) == nullptr) {
       if constexpr (!std::is_same_v<Info, TayInfo<TapeInfos, ErrorType>>) {
-        Info::openFile(*this, fileName);
-        if (Info::file(*this) != nullptr) {
-          fclose(Info::file(*this));
+        if (FILE *oldFile = fopen(fileName, "rb")) {
+          fclose(oldFile);
           if (Info::removeFile(fileName)) {
             fail(CANNOT_REMOVE_FILE, CURRENT_LOCATION);
           }
-- 
2.43.0


From 659328bace842d8c00e5e87b62a021304d5a1023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:46 +0000
Subject: [PATCH 36/85] fix: re-recording a tape forgets which parts of the old
 recording were on disk

---
 ADOL-C/src/valuetape/valuetape.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index c9ea082..9b3316a 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -82,7 +82,10 @@ int ValueTape::initNewTape() {
   tapestats(TapeInfos::LOC_BUFFER_SIZE, locationBufferSize());
   tapestats(TapeInfos::VAL_BUFFER_SIZE, valueBufferSize());
   tapestats(TapeInfos::TAY_BUFFER_SIZE, taylorBufferSize());
-  ;
+  // nothing of the new recording is on disk yet
+  tapestats(TapeInfos::OP_FILE_ACCESS, 0);
+  tapestats(TapeInfos::LOC_FILE_ACCESS, 0);
+  tapestats(TapeInfos::VAL_FILE_ACCESS, 0);
   return 0;
 }
 
-- 
2.43.0


From 9eb39ccb7cbfdf9cf19c428ec0cda424cb08822c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:46 +0000
Subject: [PATCH 37/85] fix: get_op_block_f counts all operations of the block
 it read

---
 ADOL-C/src/valuetape/tapeinfos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/valuetape/tapeinfos.cpp b/ADOL-C/src/valuetape/tapeinfos.cpp
index 7324e78..a1b0e94 100644
--- a/ADOL-C/src/valuetape/tapeinfos.cpp
+++ b/ADOL-C/src/valuetape/tapeinfos.cpp
@@ -359,7 +359,7 @@ void TapeInfos::get_op_block_f() {
               remain * sizeof(unsigned char), 1, opBuffer_.file()) != 1)
       ADOLCError::fail(ADOLCError::ErrorType::EVAL_OP_TAPE_READ_FAILED,
                        CURRENT_LOCATION);
-  opBuffer_.numOnTape(opBuffer_.numOnTape() - remain);
+  opBuffer_.numOnTape(opBuffer_.numOnTape() - number);
   opBuffer_.position(0);
 }
 
-- 
2.43.0


From 75abb47fc9180690450550d1fa3dedb8a46bb4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:46 +0000
Subject: [PATCH 38/85] fix: get_taylors fills the right coefficients across
 blocks

---
 ADOL-C/src/valuetape/tapeinfos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/valuetape/tapeinfos.cpp b/ADOL-C/src/valuetape/tapeinfos.cpp
index a1b0e94..579a18f 100644
--- a/ADOL-C/src/valuetape/tapeinfos.cpp
+++ b/ADOL-C/src/valuetape/tapeinfos.cpp
@@ -144,7 +144,7 @@ void TapeInfos::get_taylors(double *taylorCoefficients, std::ptrdiff_t degree) {
   while (tayBuffer_.position() < static_cast<size_t>(degree)) {
     std::span<double> taySpan(tayBuffer_.begin(), tayBuffer_.current());
     for (auto tay = taySpan.rbegin(); tay != taySpan.rend(); tay++) {
-      *(T--) = *tay;
+      *(--T) = *tay;
     }
     degree -= tayBuffer_.position();
     get_tay_block_r();
-- 
2.43.0


From 86994ddab629d49680d2ac6ef1b1d5ce3559cd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:46 +0000
Subject: [PATCH 39/85] fix: write_taylor(s) of more coefficients than the
 buffer holds

---
 ADOL-C/src/valuetape/tapeinfos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/valuetape/tapeinfos.cpp b/ADOL-C/src/valuetape/tapeinfos.cpp
index 579a18f..0c52529 100644
--- a/ADOL-C/src/valuetape/tapeinfos.cpp
+++ b/ADOL-C/src/valuetape/tapeinfos.cpp
@@ -83,7 +83,7 @@ void TapeInfos::freeTapeResources() {
 /****************************************************************************/
 void TapeInfos::write_taylor(double *taylorCoefficientPos, std::ptrdiff_t keep,
                              const char *tay_fileName) {
-  while (tayBuffer_.position() > tayBuffer_.capacity() - keep) {
+  while (static_cast<size_t>(keep) > tayBuffer_.remainingCapacity()) {
     for (auto i = tayBuffer_.position(); i < tayBuffer_.capacity(); ++i) {
       tayBuffer_[i] = *taylorCoefficientPos;
       ++taylorCoefficientPos;
@@ -120,7 +120,7 @@ void TapeInfos::write_taylors(double *taylorCoefficientPos, int keep,
 void TapeInfos::write_scaylors(const double *taylorCoefficientPos,
                                std::ptrdiff_t size, const char *tay_fileName) {
   size_t pos = 0;
-  while (tayBuffer_.position() > tayBuffer_.capacity() - size) {
+  while (static_cast<size_t>(size) > tayBuffer_.remainingCapacity()) {
     std::span<double> taySpan(tayBuffer_.current(),
                               tayBuffer_.begin() + tayBuffer_.capacity());
     for (double &tay : taySpan) {
-- 
2.43.0


From 5ab0766f76e5bc59b5cc313d238a3bcf7b36d0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:46 +0000
Subject: [PATCH 40/85] fix: save_params with more parameters than the value
 buffer holds

---
 ADOL-C/src/valuetape/valuetape.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 9b3316a..74c5949 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -338,8 +338,8 @@ void ValueTape::save_params() {
            tapestats(TapeInfos::NUM_PARAM) * sizeof(double));
 
   free_all_taping_params();
-  if (tapeInfos_.valBuffer_.position() <
-      tapeInfos_.valBuffer_.capacity() - tapestats(TapeInfos::NUM_PARAM))
+  if (tapestats(TapeInfos::NUM_PARAM) <
+      tapeInfos_.valBuffer_.remainingCapacity())
     put_vals_notWriteBlock(paramstore(), tapestats(TapeInfos::NUM_PARAM));
   else {
     size_t np = tapestats(TapeInfos::NUM_PARAM);
-- 
2.43.0


From 10e889a4223a5bb8ada1b88f05dfbf6e3a398b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:46 +0000
Subject: [PATCH 41/85] fix: discard_params_r reads blocks of the size they
 were written with

---
 ADOL-C/src/valuetape/valuetape.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 74c5949..e6217b7 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -628,6 +628,7 @@ void ValueTape::end_sweep() {
 /****************************************************************************/
 void ValueTape::discard_params_r(void) {
   constexpr size_t chunkSize = ADOLC_IO_CHUNK_SIZE / sizeof(double);
+  const size_t bufferSize = tapestats(TapeInfos::VAL_BUFFER_SIZE);
   size_t ip = tapestats(TapeInfos::NUM_PARAM);
   size_t rsize = 0;
   size_t remain = 0;
@@ -639,28 +640,27 @@ void ValueTape::discard_params_r(void) {
     if (ip > 0) {
       fseek(tapeInfos_.valBuffer_.file(),
             static_cast<long>(sizeof(double) *
-                              (tapeInfos_.valBuffer_.numOnTape() -
-                               TapeInfos::VAL_BUFFER_SIZE)),
+                              (tapeInfos_.valBuffer_.numOnTape() - bufferSize)),
             SEEK_SET);
 
-      for (size_t i = 0; i < to_size_t(TapeInfos::VAL_BUFFER_SIZE / chunkSize);
-           ++i)
+      const size_t chunks = bufferSize / chunkSize;
+      for (size_t i = 0; i < chunks; ++i)
         if (fread(tapeInfos_.valBuffer_.begin() + i * chunkSize,
                   chunkSize * sizeof(double), 1,
                   tapeInfos_.valBuffer_.file()) != 1)
           ADOLCError::fail(ADOLCError::ErrorType::EVAL_VAL_TAPE_READ_FAILED,
                            CURRENT_LOCATION);
 
-      remain = TapeInfos::VAL_BUFFER_SIZE % chunkSize;
+      remain = bufferSize % chunkSize;
       if (remain != 0)
-        if (fread(tapeInfos_.valBuffer_.begin() + TapeInfos::VAL_BUFFER_SIZE,
+        if (fread(tapeInfos_.valBuffer_.begin() + chunks * chunkSize,
                   remain * sizeof(double), 1,
                   tapeInfos_.valBuffer_.file()) != 1)
           ADOLCError::fail(ADOLCError::ErrorType::EVAL_VAL_TAPE_READ_FAILED,
                            CURRENT_LOCATION);
 
       tapeInfos_.valBuffer_.numOnTape(tapeInfos_.valBuffer_.numOnTape() -
-                                      TapeInfos::VAL_BUFFER_SIZE);
+                                      bufferSize);
       tapeInfos_.valBuffer_.position(tapeInfos_.valBuffer_.capacity());
     }
   }
-- 
2.43.0


From 9dcbb8be915a367dc41b7c625e65def0337d4fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:46 +0000
Subject: [PATCH 42/85] fix: an exactly full Taylor buffer can be read back

---
 ADOL-C/src/valuetape/valuetape.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index e6217b7..f96c73d 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -218,7 +218,10 @@ void ValueTape::finish_tay_file() {
 }
 
 void ValueTape::taylor_close() {
-  if (tapeInfos_.tayBuffer_.file() != nullptr) {
+  /* a buffer that is exactly full is written to disk, too: the reverse sweep
+   * expects only incomplete blocks in core */
+  if (tapeInfos_.tayBuffer_.file() != nullptr ||
+      tapeInfos_.tayBuffer_.position() == tapeInfos_.tayBuffer_.capacity()) {
     if (keepTaylors())
       tapeInfos_.put_block<TayInfo<TapeInfos, ErrorType>>(
           perTapeInfos_.tay_fileName, tapeInfos_.tayBuffer_.position());
-- 
2.43.0


From 096d9d40ceed68721a77357f0a5e89317004dc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:46 +0000
Subject: [PATCH 43/85] fix: trace_on with explicit buffer sizes starts the
 trace

---
 ADOL-C/src/tape_interface.cpp | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/ADOL-C/src/tape_interface.cpp b/ADOL-C/src/tape_interface.cpp
index e680731..bdb52ee 100644
--- a/ADOL-C/src/tape_interface.cpp
+++ b/ADOL-C/src/tape_interface.cpp
@@ -68,26 +68,23 @@ int trace_on(short tapeId, int keepTaylors, size_t obs, size_t lbs, size_t vbs,
   setCurrentTape(tapeId);
 
   int retval = tape.initNewTape();
-  if (retval) {
 #ifdef ADOLC_MEDIPACK_SUPPORT
-    tape.mediInitTape(tapeId);
+  tape.mediInitTape(tapeId);
 #endif
-    // reset the tape buffers
-    tape.freeTapeResources();
-    tape.tapestats(TapeInfos::OP_BUFFER_SIZE, obs);
-    tape.tapestats(TapeInfos::LOC_BUFFER_SIZE, lbs);
-    tape.tapestats(TapeInfos::VAL_BUFFER_SIZE, vbs);
-    tape.tapestats(TapeInfos::TAY_BUFFER_SIZE, tbs);
-    tape.keepTaylors(keepTaylors);
-    tape.tapestats(TapeInfos::NO_MIN_MAX, tape.nominmaxFlag());
-    tape.skipFileCleanup(skipFileCleanup);
-    if (keepTaylors != 0)
-      tape.deg_save(1);
-    tape.start_trace();
-    tape.take_stock(); /* record all existing adoubles on the tape */
-    return retval;
-  } else
-    return -1;
+  // reset the tape buffers
+  tape.freeTapeResources();
+  tape.tapestats(TapeInfos::OP_BUFFER_SIZE, obs);
+  tape.tapestats(TapeInfos::LOC_BUFFER_SIZE, lbs);
+  tape.tapestats(TapeInfos::VAL_BUFFER_SIZE, vbs);
+  tape.tapestats(TapeInfos::TAY_BUFFER_SIZE, tbs);
+  tape.keepTaylors(keepTaylors);
+  tape.tapestats(TapeInfos::NO_MIN_MAX, tape.nominmaxFlag());
+  tape.skipFileCleanup(skipFileCleanup);
+  if (keepTaylors != 0)
+    tape.deg_save(1);
+  tape.start_trace();
+  tape.take_stock(); /* record all existing adoubles on the tape */
+  return retval;
 }
 
 void trace_off(int flag) {
-- 
2.43.0


From eae7923deb7288aaff1852507323b3cec2f3459d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:46 +0000
Subject: [PATCH 44/85] fix: readRemaining reads only the remainder of the
 block

---
 ADOL-C/include/adolc/valuetape/valuetape.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index 3d70d30..9c34a5c 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -617,7 +617,7 @@ public:
     const size_t remain = lengthBlock % Info::chunkSize;
     if (remain > 0) {
       auto returnCode =
-          read<TapeInfos, ErrorType, Info>(tapeInfos_, numChunks, lengthBlock);
+          read<TapeInfos, ErrorType, Info>(tapeInfos_, numChunks, remain);
       if (returnCode != 1)
         fail(Info::error, CURRENT_LOCATION);
     }
-- 
2.43.0


From d12e0b4b044fe5ad126bdcfb17371d2c3ae172c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:57 +0000
Subject: [PATCH 45/85] fix: a sweep over a tape on disk keeps the parameters
 set by set_param_vec

---
 ADOL-C/src/valuetape/valuetape.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index f96c73d..2ee1ccb 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -612,7 +612,8 @@ void ValueTape::read_tape_stats() {
 
   compare_adolc_ids(get_adolc_id(), tape_ADOLC_ID);
   fclose(loc_file);
-  if (tapestats(TapeInfos::NUM_PARAM) > 0)
+  // parameters in memory are current: set_param_vec may have changed them
+  if (tapestats(TapeInfos::NUM_PARAM) > 0 && !paramstore())
     read_params();
 }
 
-- 
2.43.0


From 4e056e66ef7fde709d43847ca77af726a6aaf20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:21 +0000
Subject: [PATCH 46/85] fix: buffers of another size are not used again for a
 new recording

---
 ADOL-C/src/valuetape/valuetape.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 2ee1ccb..5cc13ca 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -82,6 +82,16 @@ int ValueTape::initNewTape() {
   tapestats(TapeInfos::LOC_BUFFER_SIZE, locationBufferSize());
   tapestats(TapeInfos::VAL_BUFFER_SIZE, valueBufferSize());
   tapestats(TapeInfos::TAY_BUFFER_SIZE, taylorBufferSize());
+  // buffers of another size, from a recording with sizes of its own, can not be
+  // used again
+  if (tapeInfos_.opBuffer_.capacity() != operationBufferSize())
+    tapeInfos_.opBuffer_ = {};
+  if (tapeInfos_.locBuffer_.capacity() != locationBufferSize())
+    tapeInfos_.locBuffer_ = {};
+  if (tapeInfos_.valBuffer_.capacity() != valueBufferSize())
+    tapeInfos_.valBuffer_ = {};
+  if (tapeInfos_.tayBuffer_.capacity() != taylorBufferSize())
+    tapeInfos_.tayBuffer_ = {};
   // nothing of the new recording is on disk yet
   tapestats(TapeInfos::OP_FILE_ACCESS, 0);
   tapestats(TapeInfos::LOC_FILE_ACCESS, 0);
-- 
2.43.0


From 10d7965c872fcfee71984378edf9976ba0120725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:37 +0000
Subject: [PATCH 47/85] fix: forward bit patterns give every dependent a row

extract() left the row of a dependent without nonzeros in the first strip
unallocated: jac_pat returned a null row, sparse_jac and any later strip
dereferenced it.
---
 ADOL-C/src/sparse/sparsedrivers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/sparse/sparsedrivers.cpp b/ADOL-C/src/sparse/sparsedrivers.cpp
index 20d775f..b0e0904 100644
--- a/ADOL-C/src/sparse/sparsedrivers.cpp
+++ b/ADOL-C/src/sparse/sparsedrivers.cpp
@@ -44,7 +44,8 @@ void extract(size_t wordIdx, size_t stripIdx, size_t currentStripWordIdx,
   size_t numNonzeros = std::accumulate(data.indepWordHasNonzero_.begin(),
                                        data.indepWordHasNonzero_.end(), 0UL);
 
-  if (numNonzeros > 0) {
+  // the first strip provides the row, even if it has no nonzeros
+  if (numNonzeros > 0 || stripIdx == 0) {
     uint *row = nullptr;
     if (stripIdx == 0) {
       row = new uint[numNonzeros + 1];
-- 
2.43.0


From de67a7df98900f53d0b15f9006fd7ba1ed2b0ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:31 +0000
Subject: [PATCH 48/85] fix: bit patterns stop when a sweep reports another
 branch

---
 ADOL-C/include/adolc/sparse/sparsedrivers.h | 26 ++++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/ADOL-C/include/adolc/sparse/sparsedrivers.h b/ADOL-C/include/adolc/sparse/sparsedrivers.h
index aebf718..981f19b 100644
--- a/ADOL-C/include/adolc/sparse/sparsedrivers.h
+++ b/ADOL-C/include/adolc/sparse/sparsedrivers.h
@@ -58,7 +58,7 @@ static constexpr bitword_t MOST_SIGNIFICANT_BIT = static_cast<bitword_t>(1)
  *         Direction of bit pattern propagation — Forward or Reverse.
  */
 template <BitPatternPropagationDirection BPPD> struct BvpData {
-  int rc_{0};            ///< Return code from ADOL-C drivers.
+  int rc_{3};            ///< Return code from ADOL-C drivers.
   int depen_{-1};        ///< Number of dependent (output) variables.
   int indep_{-1};        ///< Number of independent (input) variables.
   int wordsPerBatch_{0}; ///< Number of bit words per batch.
@@ -376,24 +376,28 @@ void ADCalls(short tapeId, const double *basepoint, BvpData<BPPD> &data) {
   if constexpr (BPPD == BitPatternPropagationDirection::Forward) {
     if constexpr (CFM == ControlFlowMode::Tight) {
       data.valuepoint_.resize(data.depen_);
-      data.rc_ = int_forward_tight(tapeId, data.depen_, data.indep_,
+      MINDEC(data.rc_,
+             int_forward_tight(tapeId, data.depen_, data.indep_,
                                    data.wordsPerBatch_, basepoint,
                                    data.seed_.data(), data.valuepoint_.data(),
-                                   data.jacobianBitPattern_.data());
+                                   data.jacobianBitPattern_.data()));
     } else if constexpr (CFM == ControlFlowMode::Safe)
-      data.rc_ = int_forward_safe(tapeId, data.depen_, data.indep_,
+      MINDEC(data.rc_,
+             int_forward_safe(tapeId, data.depen_, data.indep_,
                                   data.wordsPerBatch_, data.seed_.data(),
-                                  data.jacobianBitPattern_.data());
+                                  data.jacobianBitPattern_.data()));
 
   } else if constexpr (BPPD == BitPatternPropagationDirection::Reverse) {
     if constexpr (CFM == ControlFlowMode::Tight)
-      data.rc_ = int_reverse_tight(tapeId, data.depen_, data.indep_,
+      MINDEC(data.rc_,
+             int_reverse_tight(tapeId, data.depen_, data.indep_,
                                    data.wordsPerBatch_, data.seed_.data(),
-                                   data.jacobianBitPattern_.data());
+                                   data.jacobianBitPattern_.data()));
     else if constexpr (CFM == ControlFlowMode::Safe)
-      data.rc_ = int_reverse_safe(tapeId, data.depen_, data.indep_,
+      MINDEC(data.rc_,
+             int_reverse_safe(tapeId, data.depen_, data.indep_,
                                   data.wordsPerBatch_, data.seed_.data(),
-                                  data.jacobianBitPattern_.data());
+                                  data.jacobianBitPattern_.data()));
   }
 }
 
@@ -420,9 +424,13 @@ int bitVectorPropagation(short tapeId, int depen, int indep,
   checkBVPInput<CFM>(basepoint);
   BvpData<BPPD> data{depen, indep};
   prepareADCalls<BPPD, CFM>(tapeId, basepoint, data);
+  if (data.rc_ < 0)
+    return data.rc_;
   for (int stripIdx = 0; stripIdx < data.numStripmineBatches_; stripIdx++) {
     prepareSeedMatrix(stripIdx, data);
     ADCalls<BPPD, CFM>(tapeId, basepoint, data);
+    if (data.rc_ < 0)
+      return data.rc_;
     extractCompressedRowStorage(stripIdx, compressedRowStorage, data);
   }
   return data.rc_;
-- 
2.43.0


From 77da5a0a8e15714b8d81a09ae68f43f89c6f42e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:32 +0000
Subject: [PATCH 49/85] fix: declare the specialisations of the sparse helpers

generateSeedJac and checkBVPInput<Tight> are specialised in source files
only; a program that instantiates the drivers got the empty primary
templates: generate_seed_jac delivered no seed matrix, and a tight bit
pattern without a base point was not refused.
---
 ADOL-C/include/adolc/sparse/sparsedrivers.h  | 2 ++
 ADOL-C/include/adolc/valuetape/sparseinfos.h | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/ADOL-C/include/adolc/sparse/sparsedrivers.h b/ADOL-C/include/adolc/sparse/sparsedrivers.h
index 981f19b..f61bb34 100644
--- a/ADOL-C/include/adolc/sparse/sparsedrivers.h
+++ b/ADOL-C/include/adolc/sparse/sparsedrivers.h
@@ -148,6 +148,8 @@ template <BitPatternPropagationDirection BPPD> struct BvpData {
  * Safe mode).
  */
 template <ControlFlowMode CFM> void checkBVPInput(const double *) {};
+template <>
+ADOLC_API void checkBVPInput<ControlFlowMode::Tight>(const double *basepoint);
 
 /**
  * @brief Resets all entries in the compressed row storage pointer array to
diff --git a/ADOL-C/include/adolc/valuetape/sparseinfos.h b/ADOL-C/include/adolc/valuetape/sparseinfos.h
index c0b6899..9cb2db3 100644
--- a/ADOL-C/include/adolc/valuetape/sparseinfos.h
+++ b/ADOL-C/include/adolc/valuetape/sparseinfos.h
@@ -11,6 +11,14 @@
 namespace ADOLC::Sparse {
 template <CompressionMode CM>
 void generateSeedJac(int, int, const std::span<uint *>, double ***, int *) {};
+
+template <>
+ADOLC_API void generateSeedJac<CompressionMode::Column>(
+    int dimOut, int dimIn, const std::span<uint *> JP, double ***Seed, int *p);
+template <>
+ADOLC_API void generateSeedJac<CompressionMode::Row>(
+    int dimOut, int dimIn, const std::span<uint *> JP, double ***Seed, int *p);
+
 /**
  * @brief Cached sparse Jacobian recovery data stored on a tape.
  *
-- 
2.43.0


From c432beb04c7fa99bf04029e4866d8daeb1fefee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:13 +0000
Subject: [PATCH 50/85] fix: index domain of a binary operation whose result
 overwrites its second operand keeps that operand

---
 ADOL-C/src/uni5_for.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index e22cc33..76687bc 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -6031,6 +6031,11 @@ void merge_2_index_domains(size_t res, size_t arg, uint **ind_dom) {
 void combine_2_index_domains(size_t res, size_t arg1, size_t arg2,
                              uint **ind_dom) {
 
+  if (res == arg2) {
+    merge_2_index_domains(res, arg1, ind_dom);
+    return;
+  }
+
   if (res != arg1)
     copy_index_domain(res, arg1, ind_dom);
 
-- 
2.43.0


From 315c4c2c38b95ef89e4b412368373c03e7c7c1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:13 +0000
Subject: [PATCH 51/85] fix: index domains of vec_axpy onto its addend keep the
 addend

---
 ADOL-C/src/uni5_for.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 76687bc..98dd258 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -5104,8 +5104,12 @@ int hov_forward(
         IF_KEEP_WRITE_TAYLOR(res + qq, keep, k, p);
 #if defined(_INDO_)
 #if defined(_INDOPRO_)
-        combine_2_index_domains(res + qq, arg, arg1 + qq, ind_dom);
-        merge_2_index_domains(res + qq, arg2 + qq, ind_dom);
+        if (res == arg2) {
+          merge_3_index_domains(res + qq, arg, arg1 + qq, ind_dom);
+        } else {
+          combine_2_index_domains(res + qq, arg, arg1 + qq, ind_dom);
+          merge_2_index_domains(res + qq, arg2 + qq, ind_dom);
+        }
 #endif
 #if defined(_NONLIND_)
         // operation: v = u*w + y
-- 
2.43.0


From 76aaab6b404af9c5a3210c480357fa5ea1874c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:13 +0000
Subject: [PATCH 52/85] fix: safe Hessian index domains of cond_assign and
 cond_eq_assign use both alternatives

---
 ADOL-C/src/uni5_for.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 98dd258..f0c09d1 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -4128,6 +4128,9 @@ int hov_forward(
       }
 
 #else
+      fod[opind].entry = maxopind + 2;
+      fod[opind].left = &fod[arg_index[arg1]];
+      fod[opind].right = &fod[arg_index[arg2]];
       arg_index[res] = opind++;
 #endif
 #endif
@@ -4233,6 +4236,9 @@ int hov_forward(
       }
 
 #else
+      fod[opind].entry = maxopind + 2;
+      fod[opind].left = &fod[arg_index[arg1]];
+      fod[opind].right = &fod[arg_index[arg2]];
       arg_index[res] = opind++;
 #endif
 #endif
-- 
2.43.0


From 2d1e8ad6be931bd3d71763a1c6786fa18cac1a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:13 +0000
Subject: [PATCH 53/85] fix: safe Hessian index domains of conditional
 assignments without else keep the old value

---
 ADOL-C/src/uni5_for.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index f0c09d1..a2decf2 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -4322,7 +4322,10 @@ int hov_forward(
       merge_2_index_domains(res, arg1, ind_dom);
 #endif
 #if defined(_NONLIND_)
-      arg_index[res] = arg_index[arg1];
+      fod[opind].entry = maxopind + 2;
+      fod[opind].left = &fod[arg_index[res]];
+      fod[opind].right = &fod[arg_index[arg1]];
+      arg_index[res] = opind++;
 #endif
 #endif
 #else
@@ -4392,7 +4395,10 @@ int hov_forward(
       merge_2_index_domains(res, arg1, ind_dom);
 #endif
 #if defined(_NONLIND_)
-      arg_index[res] = arg_index[arg1];
+      fod[opind].entry = maxopind + 2;
+      fod[opind].left = &fod[arg_index[res]];
+      fod[opind].right = &fod[arg_index[arg1]];
+      arg_index[res] = opind++;
 #endif
 #endif
 #else
-- 
2.43.0


From 65b05bc74b9105b17b651579d5e6d9574bc4ad93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:13 +0000
Subject: [PATCH 54/85] fix: safe Hessian index domains of min_op use the node
 they have set up

---
 ADOL-C/src/uni5_for.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index a2decf2..e474111 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -3778,7 +3778,6 @@ int hov_forward(
       fod[opind].left = &fod[arg_index[arg1]];
       fod[opind].right = &fod[arg_index[arg2]];
       arg_index[res] = opind++;
-      arg_index[res] = opind++;
 #endif
 #endif
 #else
-- 
2.43.0


From fda5428ab34915641faafbeb4692589b2b2632a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:13 +0000
Subject: [PATCH 55/85] fix: a nonlinearity domain that outgrows its first
 block is stored, and blocks are released as arrays

---
 ADOL-C/src/uni5_for.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index e474111..6a4e66c 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -5978,7 +5978,7 @@ short ext_firstsign2(double sigbase, int p, double *u, double *du) {
 #if defined(_TIGHT_)
 void copy_index_domain(size_t res, size_t arg, uint **ind_dom) {
   if (ind_dom[arg][0] > ind_dom[res][1]) {
-    delete ind_dom[res];
+    delete[] ind_dom[res];
     ind_dom[res] = new uint[2 * (ind_dom[arg][0] + 1)];
     ind_dom[res][1] = 2 * ind_dom[arg][0];
   }
@@ -6180,8 +6180,9 @@ void extend_nonlinearity_domain_binary_step(size_t arg1, size_t arg2,
     if (index_nonl_dom[0] == 0) /* empty list */
     {
       if (index_nonl_dom[1] < num) {
-        delete index_nonl_dom;
+        delete[] index_nonl_dom;
         index_nonl_dom = new uint[2 * (num + 1)];
+        nonl_dom[index] = index_nonl_dom;
         index_nonl_dom[1] = 2 * num;
       }
       for (i = 2; i < num + 2; i++) /* append index domain list of "arg" */
-- 
2.43.0


From 02667102aae98c5dce686d3c33ba1bb22e184314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:16 +0000
Subject: [PATCH 56/85] fix: index domain sweeps take the values of all live
 variables, Hessian domains know them as constants

---
 ADOL-C/src/uni5_for.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 6a4e66c..1cddb22 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -5501,23 +5501,36 @@ int hov_forward(
 #endif
           tape.get_val_v_f(size);
 
+#if defined(_NONLIND_)
+      // all values are constants: one node without independents
+      fod[opind].entry = maxopind + 2;
+      fod[opind].left = nullptr;
+      fod[opind].right = nullptr;
+#endif
       for (size_t ls = 0; ls < size; ls++) {
 #if !defined(_NTIGHT_)
         dp_T0[res] = *d;
 #endif /* !_NTIGHT_ */
-#if !defined(_INDO_)
+#if defined(_INDO_)
+#if defined(_NONLIND_)
+        arg_index[res] = opind;
+#endif
+#else
 #if !defined(_ZOS_) /* BREAK_ZOS */
         ASSIGN_T(Tres, TAYLOR_BUFFER[res])
 
         FOR_0_LE_l_LT_pk TRES_INC = 0;
 
 #endif /* ALL_TOGETHER_AGAIN */
+#endif
         res++;
 #if !defined(_NTIGHT_)
         d++;
 #endif /* !_NTIGHT_ */
-#endif
       }
+#if defined(_NONLIND_)
+      opind++;
+#endif
       break;
 
       /*--------------------------------------------------------------------------*/
-- 
2.43.0


From 86e9b32423139129c8f1956a82a7666602ed6eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:38 +0000
Subject: [PATCH 57/85] fix: a comparison at a tie does not overwrite a smaller
 return code

---
 ADOL-C/src/fo_rev.cpp   | 4 ++--
 ADOL-C/src/ho_rev.cpp   | 4 ++--
 ADOL-C/src/uni5_for.cpp | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 33b03eb..b8ce4b4 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -588,7 +588,7 @@ int int_reverse_safe(
       arg = tape.get_locint_r();
 
 #if !defined(_NTIGHT_)
-      ret_c = 0;
+      MINDEC(ret_c, 0);
 #endif /* !_NTIGHT_ */
       break;
 
@@ -606,7 +606,7 @@ int int_reverse_safe(
 
 #if !defined(_NTIGHT_)
       if (TARG == 0)
-        ret_c = 0;
+        MINDEC(ret_c, 0);
 #endif /* !_NTIGHT_ */
       break;
 
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 67d3d17..d3d5c01 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -519,7 +519,7 @@ int hov_ti_reverse(
     case eq_zero: /* eq_zero */
       arg = tape.get_locint_r();
 
-      ret_c = 0;
+      MINDEC(ret_c, 0);
       break;
 
       /*----------------------------------------------------------*/
@@ -535,7 +535,7 @@ int hov_ti_reverse(
       arg = tape.get_locint_r();
 
       if (*rpp_T[arg] == 0)
-        ret_c = 0;
+        MINDEC(ret_c, 0);
       break;
 
       /************************************************************/
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 1cddb22..f1a0200 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -1324,7 +1324,7 @@ int hov_forward(
         operation = end_of_tape;
         continue;
       }
-      ret_c = 0;
+      MINDEC(ret_c, 0);
 #endif /* !_NTIGHT_ */
       break;
 
@@ -1362,7 +1362,7 @@ int hov_forward(
         continue;
       }
       if (dp_T0[arg] == 0)
-        ret_c = 0;
+        MINDEC(ret_c, 0);
 #endif /* !_NTIGHT_ */
       break;
 
@@ -1400,7 +1400,7 @@ int hov_forward(
         continue;
       }
       if (dp_T0[arg] == 0)
-        ret_c = 0;
+        MINDEC(ret_c, 0);
 #endif /* !_NTIGHT_ */
       break;
 
-- 
2.43.0


From ffbd8e59eda95150ea9ba592fa4e46c462a2be88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:45 +0000
Subject: [PATCH 58/85] fix: reverse sweeps report a switched conditional
 assignment, not the branch taken at taping

---
 ADOL-C/src/fo_rev.cpp | 16 ++++++++--------
 ADOL-C/src/ho_rev.cpp | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index b8ce4b4..2a0754e 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1806,7 +1806,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval <= 0.0) && (*Ares != 0))
+            if ((coval > 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -1817,7 +1817,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval <= 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval > 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
@@ -1870,7 +1870,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval < 0.0) && (*Ares != 0))
+            if ((coval >= 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -1881,7 +1881,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval < 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval >= 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
@@ -2467,7 +2467,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval <= 0.0) && (*Ares != 0))
+            if ((coval > 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -2478,7 +2478,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval <= 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval > 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
@@ -2525,7 +2525,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval < 0.0) && (*Ares != 0))
+            if ((coval >= 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -2536,7 +2536,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval < 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval >= 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index d3d5c01..6bce559 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -1927,7 +1927,7 @@ int hov_ti_reverse(
                 AARG1 = 5.0;
                 AARG2_INC = 5.0;
               } else {
-                if (coval <= 0.0)
+                if (coval > 0.0)
                   MINDEC(ret_c, 2);
                 MAXDEC(AARG2, ARES);
                 AARG2_INC_O;
@@ -1949,7 +1949,7 @@ int hov_ti_reverse(
                 MINDEC(ret_c, 0);
                 AARG1 = 5.0;
                 AARG2 = 5.0;
-              } else if (coval <= 0.0)
+              } else if (coval > 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
@@ -2006,7 +2006,7 @@ int hov_ti_reverse(
               HOV_INC(Ares, k1)
               HOV_INC(Aarg2, k1)
             } else {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
               MAXDEC(AARG2, ARES);
               AARG2_INC_O;
@@ -2022,7 +2022,7 @@ int hov_ti_reverse(
         else
           for (int l = 0; l < p; l++) {
             if (ARES != 0.0) {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
@@ -2615,7 +2615,7 @@ int hov_ti_reverse(
                 AARG1 = 5.0;
                 AARG2_INC = 5.0;
               } else {
-                if (coval <= 0.0)
+                if (coval > 0.0)
                   MINDEC(ret_c, 2);
                 MAXDEC(AARG2, ARES);
                 AARG2_INC_O;
@@ -2637,7 +2637,7 @@ int hov_ti_reverse(
                 MINDEC(ret_c, 0);
                 AARG1 = 5.0;
                 AARG2 = 5.0;
-              } else if (coval <= 0.0)
+              } else if (coval > 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
@@ -2698,7 +2698,7 @@ int hov_ti_reverse(
               HOV_INC(Ares, k1)
               HOV_INC(Aarg2, k1)
             } else {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
               MAXDEC(AARG2, ARES);
               AARG2_INC_O;
@@ -2714,7 +2714,7 @@ int hov_ti_reverse(
         else
           for (int l = 0; l < p; l++) {
             if (ARES != 0.0) {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
-- 
2.43.0


From e2da154ca442bb1b7881c5c9528e536df0ff29cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:45 +0000
Subject: [PATCH 59/85] fix: a conditional assignment that is no longer
 performed is reported like one that is

---
 ADOL-C/src/fo_rev.cpp   | 14 ++++++++++----
 ADOL-C/src/ho_rev.cpp   | 24 ++++++++++++++++++++++++
 ADOL-C/src/uni5_for.cpp | 30 ++++++++++++++++++++++++------
 3 files changed, 58 insertions(+), 10 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 2a0754e..0339724 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1930,8 +1930,10 @@ int int_reverse_safe(
         else
           FOR_0_LE_l_LT_p if ((coval <= 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
-      } else if (TARG == 0.0) /* we are at the tie */
+      } else if (TARG == 0.0) { /* we are at the tie */
         FOR_0_LE_l_LT_p if (ARES_INC != 0) MINDEC(ret_c, 0);
+      } else if (coval > 0.0)
+        FOR_0_LE_l_LT_p if (ARES_INC != 0) MINDEC(ret_c, 2);
 #else
       /* res keeps its value when the condition fails */
       if (res != arg1)
@@ -1970,7 +1972,8 @@ int int_reverse_safe(
         else
           FOR_0_LE_l_LT_p if ((coval < 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
-      }
+      } else if (coval >= 0.0)
+        FOR_0_LE_l_LT_p if (ARES_INC != 0) MINDEC(ret_c, 2);
 #else
       /* res keeps its value when the condition fails */
       if (res != arg1)
@@ -2573,8 +2576,10 @@ int int_reverse_safe(
         else
           FOR_0_LE_l_LT_p if ((coval <= 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
-      } else if (TARG == 0.0) /* we are at the tie */
+      } else if (TARG == 0.0) { /* we are at the tie */
         FOR_0_LE_l_LT_p if (ARES_INC != 0) MINDEC(ret_c, 0);
+      } else if (coval > 0.0)
+        FOR_0_LE_l_LT_p if (ARES_INC != 0) MINDEC(ret_c, 2);
 #else
       ADOLCError::fail(ADOLCError::ErrorType::ADUBREF_VE_REF, CURRENT_LOCATION);
 #endif /* !_NTIGHT_ */
@@ -2609,7 +2614,8 @@ int int_reverse_safe(
         else
           FOR_0_LE_l_LT_p if ((coval < 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
-      }
+      } else if (coval >= 0.0)
+        FOR_0_LE_l_LT_p if (ARES_INC != 0) MINDEC(ret_c, 2);
 #else
       ADOLCError::fail(ADOLCError::ErrorType::ADUBREF_VE_REF, CURRENT_LOCATION);
 #endif /* !_NTIGHT_ */
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 6bce559..4949cf0 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -2079,6 +2079,12 @@ int hov_ti_reverse(
               MINDEC(ret_c, 2);
             HOV_INC(Ares, k1)
           }
+      } else if (coval > 0.0) {
+        for (int l = 0; l < p; l++) {
+          if (ARES != 0.0)
+            MINDEC(ret_c, 2);
+          HOV_INC(Ares, k1)
+        }
       }
       break;
     case cond_eq_assign_s: /* cond_eq_assign_s */
@@ -2118,6 +2124,12 @@ int hov_ti_reverse(
               MINDEC(ret_c, 2);
             HOV_INC(Ares, k1)
           }
+      } else if (coval >= 0.0) {
+        for (int l = 0; l < p; l++) {
+          if (ARES != 0.0)
+            MINDEC(ret_c, 2);
+          HOV_INC(Ares, k1)
+        }
       }
       break;
       /*--------------------------------------------------------------------------*/
@@ -2773,6 +2785,12 @@ int hov_ti_reverse(
               MINDEC(ret_c, 2);
             HOV_INC(Ares, k1)
           }
+      } else if (coval > 0.0) {
+        for (int l = 0; l < p; l++) {
+          if (ARES != 0.0)
+            MINDEC(ret_c, 2);
+          HOV_INC(Ares, k1)
+        }
       }
       break;
 
@@ -2816,6 +2834,12 @@ int hov_ti_reverse(
               MINDEC(ret_c, 2);
             HOV_INC(Ares, k1)
           }
+      } else if (coval >= 0.0) {
+        for (int l = 0; l < p; l++) {
+          if (ARES != 0.0)
+            MINDEC(ret_c, 2);
+          HOV_INC(Ares, k1)
+        }
       }
       break;
 
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index f1a0200..1df92f3 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -4316,6 +4316,8 @@ int hov_forward(
 #endif
       } else if (dp_T0[arg] == 0)
         MINDEC(ret_c, 0);
+      else if (coval > 0.0)
+        MINDEC(ret_c, 2);
 #else
 #if defined(_INDOPRO_)
       merge_2_index_domains(res, arg1, ind_dom);
@@ -4348,6 +4350,8 @@ int hov_forward(
         dp_T0[res] = dp_T0[arg1];
       } else if (dp_T0[arg] == 0)
         MINDEC(ret_c, 0);
+      else if (coval > 0.0)
+        MINDEC(ret_c, 2);
 #endif /* _TIGHT_ */
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
@@ -4360,6 +4364,8 @@ int hov_forward(
         dp_T0[res] = dp_T0[arg1];
       } else if (dp_T0[arg] == 0)
         MINDEC(ret_c, 0);
+      else if (coval > 0.0)
+        MINDEC(ret_c, 2);
 #endif
 #endif /* ALL_TOGETHER_AGAIN */
       break;
@@ -4388,7 +4394,8 @@ int hov_forward(
 #if defined(_NONLIND_)
         arg_index[res] = arg_index[arg1];
 #endif
-      }
+      } else if (coval >= 0.0)
+        MINDEC(ret_c, 2);
 #else
 #if defined(_INDOPRO_)
       merge_2_index_domains(res, arg1, ind_dom);
@@ -4419,7 +4426,8 @@ int hov_forward(
         if (coval < 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      }
+      } else if (coval >= 0.0)
+        MINDEC(ret_c, 2);
 #endif /* _TIGHT_ */
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
@@ -4430,7 +4438,8 @@ int hov_forward(
         if (coval < 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      }
+      } else if (coval >= 0.0)
+        MINDEC(ret_c, 2);
 #endif
 #endif /* ALL_TOGETHER_AGAIN */
       break;
@@ -5394,6 +5403,8 @@ int hov_forward(
 #endif
       } else if (dp_T0[arg] == 0)
         MINDEC(ret_c, 0);
+      else if (coval > 0.0)
+        MINDEC(ret_c, 2);
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
       ASSIGN_T(Tres, TAYLOR_BUFFER[res])
@@ -5410,6 +5421,8 @@ int hov_forward(
         dp_T0[res] = dp_T0[arg1];
       } else if (dp_T0[arg] == 0)
         MINDEC(ret_c, 0);
+      else if (coval > 0.0)
+        MINDEC(ret_c, 2);
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
       if (dp_T0[arg] > 0)
@@ -5421,6 +5434,8 @@ int hov_forward(
         dp_T0[res] = dp_T0[arg1];
       } else if (dp_T0[arg] == 0)
         MINDEC(ret_c, 0);
+      else if (coval > 0.0)
+        MINDEC(ret_c, 2);
 #endif
 #endif
 #else
@@ -5454,7 +5469,8 @@ int hov_forward(
 #if defined(_NONLIND_)
         arg_index[res] = arg_index[arg1];
 #endif
-      }
+      } else if (coval >= 0.0)
+        MINDEC(ret_c, 2);
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
       ASSIGN_T(Tres, TAYLOR_BUFFER[res])
@@ -5469,7 +5485,8 @@ int hov_forward(
         if (coval < 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      }
+      } else if (coval >= 0.0)
+        MINDEC(ret_c, 2);
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
       if (dp_T0[arg] >= 0)
@@ -5479,7 +5496,8 @@ int hov_forward(
         if (coval < 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      }
+      } else if (coval >= 0.0)
+        MINDEC(ret_c, 2);
 #endif
 #endif
 #else
-- 
2.43.0


From 25af59042307a0c3fa055acf2b8c8b84f358cb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:57 +0000
Subject: [PATCH 60/85] fix: first order reverse sweeps compare floor with the
 floor of its own argument

---
 ADOL-C/src/fo_rev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 0339724..01a4eb1 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1749,7 +1749,7 @@ int int_reverse_safe(
       ASSIGN_A(Aarg, ADJOINT_BUFFER[arg])
 
 #if !defined(_NTIGHT_)
-      coval = (coval != floor(TARG1));
+      coval = (coval != floor(TARG));
 #endif /* !_NTIGHT_ */
 
       FOR_0_LE_l_LT_p {
-- 
2.43.0


From 1ec1ad3fec880ff3534e3e627a482b6f2053f783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:24 +0000
Subject: [PATCH 61/85] fix: work arrays of forward, reverse, tensor and Lie
 drivers were shared between threads

---
 ADOL-C/src/drivers/taylor.cpp  | 30 +++++++++++++++---------------
 ADOL-C/src/interfaces.cpp      |  8 ++++----
 ADOL-C/src/lie/adolc_lie_c.cpp | 16 ++++++++--------
 3 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index 9de3920..bedb1b9 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -53,7 +53,7 @@ void freecoefflist(size_t dim, struct item *coeff_list) {
 
 /****************************************************************************/
 /*                                            ALLOCATE/DEALLOCATE COEFFLIST */
-double *tensoriglob;
+static thread_local double *tensoriglob;
 
 /*--------------------------------------------------------------------------*/
 /* Allocate space for symmetric derivative tensors
@@ -482,17 +482,17 @@ int jac_solv(unsigned short tag, int n, const double *x, double *b,
 /****************************************************************************/
 int inverse_Taylor_prop(short tag, int n, int d, double **Y, double **X) {
   int i, j, l, q;
-  static double **I;
+  static thread_local double **I;
   double bi;
-  static double **Xhelp;
-  static double **W;
-  static double *xold;
-  static double ***A;
-  static double *w;
-  static int *dd;
-  static double *b;
-  static int nax, dax, bd, cgd;
-  static short **nonzero;
+  static thread_local double **Xhelp;
+  static thread_local double **W;
+  static thread_local double *xold;
+  static thread_local double ***A;
+  static thread_local double *w;
+  static thread_local int *dd;
+  static thread_local double *b;
+  static thread_local int nax, dax, bd, cgd;
+  static thread_local short **nonzero;
   short *nz;
   double *Aij;
   double *Xj;
@@ -611,8 +611,8 @@ int inverse_Taylor_prop(short tag, int n, int d, double **Y, double **X) {
 /****************************************************************************/
 int inverse_tensor_eval(short tag, int n, int d, int p, double *x,
                         double **tensor, double **S) {
-  static int dold, pold;
-  static struct item *coeff_list;
+  static thread_local int dold, pold;
+  static thread_local struct item *coeff_list;
   int *it = (int *)malloc(d * sizeof(int));
   double **X;
   double **Y;
@@ -722,8 +722,8 @@ int inverse_tensor_eval(short tag, int n, int d, int p, double *x,
 /****************************************************************************/
 int tensor_eval(short tag, int m, int n, int d, int p, double *x,
                 double **tensor, double **S) {
-  static int dold, pold;
-  static struct item *coeff_list;
+  static thread_local int dold, pold;
+  static thread_local struct item *coeff_list;
   int **jm;
   int *it = (int *)malloc(d * sizeof(int));
   double *y = (double *)malloc(m * sizeof(double));
diff --git a/ADOL-C/src/interfaces.cpp b/ADOL-C/src/interfaces.cpp
index 45873d7..71765c5 100644
--- a/ADOL-C/src/interfaces.cpp
+++ b/ADOL-C/src/interfaces.cpp
@@ -92,8 +92,8 @@ int forward(short tag, int m, int n, int d, int keep, double **X, double **Y)
 int forward(short tag, int m, int n, int d, int keep, double **X, double *Y)
 /* forward(tag, 1, n, d, keep, X[n][d+1], Y[d+1]), m=1                      */
 { /* olvo 980729 general ec */
-  static double *x, *xp;
-  static int maxn;
+  static thread_local double *x, *xp;
+  static thread_local int maxn;
   double y;
   int rc = -1, i, k;
 
@@ -349,8 +349,8 @@ int reverse(short tag, int m, int n, int d, double ***Z, short **nz)
 /* reverse(tag, m, n, d, Z[p][n][d+1], nz[p][n]),
            If p and U are omitted they default to m and I                   */
 {
-  static int depax;
-  static double **I;
+  static thread_local int depax;
+  static thread_local double **I;
   if (m adolc_compsize depax) {
     if (depax)
       myfreeI2(depax, I);
diff --git a/ADOL-C/src/lie/adolc_lie_c.cpp b/ADOL-C/src/lie/adolc_lie_c.cpp
index 42e81ba..6ba5d5c 100644
--- a/ADOL-C/src/lie/adolc_lie_c.cpp
+++ b/ADOL-C/src/lie/adolc_lie_c.cpp
@@ -275,9 +275,9 @@ int lie_gradientcv(short Tape_F, short Tape_H, short n, short m, double *x0,
   double *xp = myalloc1(n);
   double *yp = myalloc1(m);
 
-  static int depax_m, depax_n;
-  static double **In;
-  static double **Im;
+  static thread_local int depax_m, depax_n;
+  static thread_local double **In;
+  static thread_local double **Im;
 
   int i = 0, j = 0, l = 0, k = 0, rc = -1;
   double Fak = 1.0;
@@ -399,9 +399,9 @@ int lie_covector(short int Tape_F, short int Tape_W, short int n, double *x0,
 
   int i = 0, k = 0;
 
-  static int depax_m, depax_n;
-  static double **In;
-  static double **Im;
+  static thread_local int depax_m, depax_n;
+  static thread_local double **In;
+  static thread_local double **Im;
 
   for (i = 0; i < n; i++)
     X[i][0] = x0[i];
@@ -482,8 +482,8 @@ int lie_bracket(short int Tape_F, short int Tape_G, short int n, double *x0,
   int i, k;
 
   /* static identity matrix for hov_reverse  */
-  static int depax_n = 0;
-  static double **In = NULL;
+  static thread_local int depax_n = 0;
+  static thread_local double **In = NULL;
 
   for (i = 0; i < n; i++) {
     X[i][0] = x0[i];
-- 
2.43.0


From c223b96dd332cd3e31036a77eb46b93c9db1ea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:24 +0000
Subject: [PATCH 62/85] fix: tape_doc kept its state in variables shared
 between threads

---
 ADOL-C/src/tapedoc/tapedoc.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ADOL-C/src/tapedoc/tapedoc.cpp b/ADOL-C/src/tapedoc/tapedoc.cpp
index d86992e..218c4c5 100644
--- a/ADOL-C/src/tapedoc/tapedoc.cpp
+++ b/ADOL-C/src/tapedoc/tapedoc.cpp
@@ -36,12 +36,12 @@ BEGIN_C_DECLS
 /*                                                         STATIC VARIABLES */
 
 /*--------------------------------------------------------------------------*/
-static short tag;
+static thread_local short tag;
 
-static int op_cnt;
-static size_t rev_op_cnt;
-static int pagelength;
-static FILE *fp;
+static thread_local int op_cnt;
+static thread_local size_t rev_op_cnt;
+static thread_local int pagelength;
+static thread_local FILE *fp;
 
 static constexpr std::string_view baseName{"tape_"};
 static constexpr std::string_view extension{".tex"};
-- 
2.43.0


From 77c7603e987b7f7437f551c930d5be8717dafbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:24 +0000
Subject: [PATCH 63/85] fix: fixpoint iterations were registered in a list
 shared between threads

---
 ADOL-C/src/fixpoint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/fixpoint.cpp b/ADOL-C/src/fixpoint.cpp
index 003438b..b194bc5 100644
--- a/ADOL-C/src/fixpoint.cpp
+++ b/ADOL-C/src/fixpoint.cpp
@@ -40,7 +40,7 @@ struct fpi_data {
   size_t N_max_deriv;
 };
 
-static std::vector<fpi_data> fpi_stack;
+static thread_local std::vector<fpi_data> fpi_stack;
 
 static int iteration(short, int dim_x, int dim_xu, double *xu, double *x_fix) {
   double err;
-- 
2.43.0


From 9bc7234dac1b08f7da90ec60f2117b75da459b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:24 +0000
Subject: [PATCH 64/85] fix: the state of revolve was shared between threads

---
 ADOL-C/include/adolc/revolve.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/revolve.h b/ADOL-C/include/adolc/revolve.h
index 7295d87..59de893 100644
--- a/ADOL-C/include/adolc/revolve.h
+++ b/ADOL-C/include/adolc/revolve.h
@@ -29,7 +29,7 @@ struct revolve_nums {
   int oldfine{0};
 };
 
-inline revolve_nums revolve_numbers;
+inline thread_local revolve_nums revolve_numbers;
 
 inline revolve_nums &get_revolve_numbers() { return revolve_numbers; }
 
-- 
2.43.0


From 5d6495521b6bd3bc1f72f6c012676ca2bb076510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:58 +0000
Subject: [PATCH 65/85] fix: the workspace of the traceless sparse Jacobian was
 shared between threads

---
 ADOL-C/src/sparse/sparsedrivers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/sparse/sparsedrivers.cpp b/ADOL-C/src/sparse/sparsedrivers.cpp
index b0e0904..eba7803 100644
--- a/ADOL-C/src/sparse/sparsedrivers.cpp
+++ b/ADOL-C/src/sparse/sparsedrivers.cpp
@@ -95,7 +95,7 @@ void extract(size_t wordIdx, size_t,
 } // namespace detail
 
 #include <adolc/adtl_indo.h>
-SparseJacInfos sJInfos;
+thread_local SparseJacInfos sJInfos;
 namespace adtl_indo {
 
 int ADOLC_get_sparse_jacobian(func_ad<::adtl::adouble> *const fun,
-- 
2.43.0


From c8b7ad0c2b0df25eef263d6884293e6e19b47d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:10 +0000
Subject: [PATCH 66/85] fix: external function calls record the locations of
 their arguments

A second call of the same ext_diff_fct on one tape replaced the locations
of x and y of the first one: sweeps evaluated every call with the variables
of the last.
---
 ADOL-C/src/checkpointing.cpp   |  2 ++
 ADOL-C/src/externfcts.cpp      |  5 ++++-
 ADOL-C/src/fo_rev.cpp          | 11 ++++++++++-
 ADOL-C/src/ho_rev.cpp          |  4 ++++
 ADOL-C/src/tapedoc/tapedoc.cpp |  4 ++++
 ADOL-C/src/uni5_for.cpp        |  4 ++++
 6 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index bcddb6b..efa35c7 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -657,6 +657,8 @@ int Context::checkpointing(short tapeId) {
   tape.put_loc(cpInfos->dim);
   edf->firstIndLocation = cpInfos->adp_x[0].loc();
   edf->firstDepLocation = cpInfos->adp_y[0].loc();
+  tape.put_loc(edf->firstIndLocation);
+  tape.put_loc(edf->firstDepLocation);
 
   std::vector<double> vals(tape.store(), tape.store() + tape.storeSize());
 
diff --git a/ADOL-C/src/externfcts.cpp b/ADOL-C/src/externfcts.cpp
index 4461b88..e929f7c 100644
--- a/ADOL-C/src/externfcts.cpp
+++ b/ADOL-C/src/externfcts.cpp
@@ -72,9 +72,12 @@ void call_ext_fct_commonPrior(ext_diff_fct *edfct, int n, adouble *xa, int m,
 
   // store the index of the first location of input and output variables to
   // later find the right position to read (write) from (to) the taylor
-  // coefficient buffers
+  // coefficient buffers. Like the shape they belong to the taped operation:
+  // every call may use other variables.
   edfct->firstDepLocation = ya->loc();
   edfct->firstIndLocation = xa->loc();
+  tape.put_loc(edfct->firstIndLocation);
+  tape.put_loc(edfct->firstDepLocation);
 
   if (edfct->nestedAdolc) {
     vals = new double[tape.storeSize()];
diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 01a4eb1..b83834a 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -2662,10 +2662,14 @@ int int_reverse_safe(
 #if !defined(_INT_REV_)
       /*--------------------------------------------------------------------------*/
     case ext_diff: { /* extern differntiated function */
+      const size_t firstDep = tape.get_locint_r();
+      const size_t firstInd = tape.get_locint_r();
       m = static_cast<int>(tape.get_locint_r());
       n = static_cast<int>(tape.get_locint_r());
       tape.ext_diff_fct_index(tape.get_locint_r());
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstDepLocation = firstDep;
+      edfct->firstIndLocation = firstInd;
       edfct->q = nrows;
 
       if (edfct->ADOLC_EXT_FCT_POINTER == NULL)
@@ -2740,7 +2744,9 @@ int int_reverse_safe(
 #endif
       break;
     }
-    case ext_diff_iArr: /* extern differntiated function */
+    case ext_diff_iArr: { /* extern differntiated function */
+      const size_t firstDep = tape.get_locint_r();
+      const size_t firstInd = tape.get_locint_r();
       m = static_cast<int>(tape.get_locint_r());
       n = static_cast<int>(tape.get_locint_r());
       tape.ext_diff_fct_index(tape.get_locint_r());
@@ -2750,6 +2756,8 @@ int int_reverse_safe(
         iArr[loop - 1] = tape.get_locint_r();
       tape.get_locint_r(); /* get it again */
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstDepLocation = firstDep;
+      edfct->firstIndLocation = firstInd;
       edfct->q = nrows;
 
       if (edfct->ADOLC_EXT_FCT_IARR_POINTER == NULL)
@@ -2816,6 +2824,7 @@ int int_reverse_safe(
       delete[] iArr;
       iArr = nullptr;
       break;
+    }
     case ext_diff_v2: {
       nout = tape.get_locint_r();
       nin = tape.get_locint_r();
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 4949cf0..6e094e5 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -2891,10 +2891,14 @@ int hov_ti_reverse(
              "TODO: add nestedReverseEval accumulation semantics to ho_rev.cpp "
              "before supporting nested higher-order reverse passes.");
 
+      const size_t firstDep = tape.get_locint_r();
+      const size_t firstInd = tape.get_locint_r();
       m = static_cast<int>(tape.get_locint_r());
       n = static_cast<int>(tape.get_locint_r());
       tape.ext_diff_fct_index(tape.get_locint_r());
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstDepLocation = firstDep;
+      edfct->firstIndLocation = firstInd;
       edfct->q = nrows;
       /* degree is not known when registering external functions,
          so do memory allocation here (at least for now) */
diff --git a/ADOL-C/src/tapedoc/tapedoc.cpp b/ADOL-C/src/tapedoc/tapedoc.cpp
index 218c4c5..8893c72 100644
--- a/ADOL-C/src/tapedoc/tapedoc.cpp
+++ b/ADOL-C/src/tapedoc/tapedoc.cpp
@@ -1278,6 +1278,8 @@ void tape_doc(short tnum,     /* tape id */
       loc_a[0] = tape.get_locint_f() + 1; /* index */
       loc_a[1] = tape.get_locint_f();     /* n */
       loc_a[2] = tape.get_locint_f();     /* m */
+      tape.get_locint_f();                /* first location of x */
+      tape.get_locint_f();                /* first location of y */
       filewrite(operation, "extern diff", 3, loc_a, 0, cst_d);
       break;
 
@@ -1289,6 +1291,8 @@ void tape_doc(short tnum,     /* tape id */
       loc_a[0] = tape.get_locint_f() + 1; /* index */
       loc_a[1] = tape.get_locint_f();     /* n */
       loc_a[2] = tape.get_locint_f();     /* m */
+      tape.get_locint_f();                /* first location of x */
+      tape.get_locint_f();                /* first location of y */
       filewrite(operation, "extern diff iArr", 3, loc_a, 0, cst_d);
       break;
     case ext_diff_v2:
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 1df92f3..f9231b2 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -5572,6 +5572,8 @@ int hov_forward(
       n = static_cast<int>(tape.get_locint_f());
       m = static_cast<int>(tape.get_locint_f());
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstIndLocation = tape.get_locint_f();
+      edfct->firstDepLocation = tape.get_locint_f();
       edfct->p = p;
       if (edfct->ADOLC_EXT_FCT_POINTER == nullptr)
         ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_NULLPOINTER_DIFFFUNC,
@@ -5618,6 +5620,8 @@ int hov_forward(
       n = static_cast<int>(tape.get_locint_f());
       m = static_cast<int>(tape.get_locint_f());
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstIndLocation = tape.get_locint_f();
+      edfct->firstDepLocation = tape.get_locint_f();
       edfct->p = p;
       if (edfct->ADOLC_EXT_FCT_IARR_POINTER == nullptr)
         ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_NULLPOINTER_DIFFFUNC,
-- 
2.43.0


From 6ed1b57a1429fa8a4ac959ecc6724ada27d0cc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:17 +0000
Subject: [PATCH 67/85] fix: buffers of ext_diff_fct_v2 hold every call on the
 tape

The block was too small for the directions of a single output, and a call
with fewer but longer inputs shrank it below what an earlier call on the
same tape needs: vector sweeps wrote past its end.
---
 ADOL-C/src/externfcts2.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/ADOL-C/src/externfcts2.cpp b/ADOL-C/src/externfcts2.cpp
index 3e1db36..ba4d737 100644
--- a/ADOL-C/src/externfcts2.cpp
+++ b/ADOL-C/src/externfcts2.cpp
@@ -42,21 +42,23 @@ static void update_ext_fct_memory(ext_diff_fct_v2 *edfct, size_t nin,
     m_isz = (m_isz < insz[i]) ? insz[i] : m_isz;
   for (size_t i = 0; i < nout; i++)
     m_osz = (m_osz < outsz[i]) ? outsz[i] : m_osz;
+  // the buffers serve all calls that are on the tape: they never shrink
+  nin = (edfct->max_nin < nin) ? nin : edfct->max_nin;
+  nout = (edfct->max_nout < nout) ? nout : edfct->max_nout;
+  m_isz = (edfct->max_insz < m_isz) ? m_isz : edfct->max_insz;
+  m_osz = (edfct->max_outsz < m_osz) ? m_osz : edfct->max_outsz;
   if (edfct->x == nullptr || edfct->y == nullptr || edfct->xp == nullptr ||
       edfct->yp == nullptr || edfct->up == nullptr || edfct->zp == nullptr ||
       edfct->Xp == nullptr || edfct->Yp == nullptr || edfct->Up == nullptr ||
       edfct->Zp == nullptr || edfct->max_nin < nin || edfct->max_nout < nout ||
       edfct->max_insz < m_isz || edfct->max_outsz < m_osz) {
     char *tmp;
-    size_t q = nout * m_osz;
+    // x, xp, zp, y, yp, up with data; Xp, Zp, Yp, Up without
     size_t totalmem =
-        (3 * nin * m_isz + 3 * nout * m_osz
-         // + nin*m_isz*p + nout*m_osz*p
-         // + q*nout*m_osz + q*nin*m_isz
-         ) * sizeof(double) +
-        (3 * nin + 3 * nout + nin * m_isz + nout * m_osz + q * nout + q * nin) *
+        (3 * nin * m_isz + 3 * nout * m_osz) * sizeof(double) +
+        (3 * nin + 3 * nout + 2 * nin * m_isz + 2 * nout * m_osz) *
             sizeof(double *) +
-        (nin + nout + 2 * q) * sizeof(double **);
+        (2 * nin + 2 * nout) * sizeof(double **);
     if (edfct->allmem != NULL)
       free(edfct->allmem);
     edfct->allmem = (char *)malloc(totalmem);
@@ -73,10 +75,10 @@ static void update_ext_fct_memory(ext_diff_fct_v2 *edfct, size_t nin,
     tmp = populate_dppp_nodata(&edfct->Up, tmp, nout, m_osz);
     tmp = populate_dppp_nodata(&edfct->Zp, tmp, nin, m_isz);
   }
-  edfct->max_nin = (edfct->max_nin < nin) ? nin : edfct->max_nin;
-  edfct->max_nout = (edfct->max_nout < nout) ? nout : edfct->max_nout;
-  edfct->max_insz = (edfct->max_insz < m_isz) ? m_isz : edfct->max_insz;
-  edfct->max_outsz = (edfct->max_outsz < m_osz) ? m_osz : edfct->max_outsz;
+  edfct->max_nin = nin;
+  edfct->max_nout = nout;
+  edfct->max_insz = m_isz;
+  edfct->max_outsz = m_osz;
 }
 
 int call_ext_fct(ext_diff_fct_v2 *edfct, size_t iArrLen, size_t *iArr,
-- 
2.43.0


From 40951c527849cb892b868f64dd93ba236bffadbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:17 +0000
Subject: [PATCH 68/85] fix: EDFobject_iArr registers its function for the tape
 it is created on

call() uses function_iArr, which was never set, and tape id 0.
---
 ADOL-C/src/externfcts.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ADOL-C/src/externfcts.cpp b/ADOL-C/src/externfcts.cpp
index e929f7c..607d2c3 100644
--- a/ADOL-C/src/externfcts.cpp
+++ b/ADOL-C/src/externfcts.cpp
@@ -282,9 +282,9 @@ void EDFobject::init_edf(EDFobject *ebase, short outerTapeId, short extTapeId) {
   edf->fov_reverse = edfoo_wrapper_fov_reverse;
 }
 
-[[maybe_unused]] static int
-edfoo_iarr_wrapper_function(short tapeId, size_t iArrLength, size_t *iArr,
-                            int m, int n, double *x, double *y) {
+static int edfoo_iarr_wrapper_function(short tapeId, size_t iArrLength,
+                                       size_t *iArr, int m, int n, double *x,
+                                       double *y) {
   ext_diff_fct *edf;
   EDFobject_iArr *ebase;
 
@@ -364,8 +364,10 @@ static int edfoo_iarr_wrapper_fov_reverse(short tapeId, size_t iArrLength,
 void EDFobject_iArr::init_edf(EDFobject_iArr *ebase) {
   ValueTape &tape = currentTape();
   edf = tape.ext_diff_append();
+  edf->tapeId = tape.tapeId();
+  edf->extTapeId = tape.tapeId();
   edf->obj = reinterpret_cast<void *>(ebase);
-  edf->function = edfoo_wrapper_function;
+  edf->function_iArr = edfoo_iarr_wrapper_function;
   edf->zos_forward_iArr = edfoo_iarr_wrapper_zos_forward;
   edf->fos_forward_iArr = edfoo_iarr_wrapper_fos_forward;
   edf->fov_forward_iArr = edfoo_iarr_wrapper_fov_forward;
-- 
2.43.0


From 0c51500e36d85b2dbc8c33f491af9d6647edaa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:41 +0000
Subject: [PATCH 69/85] fix: EDFobject calls its own function when the inner
 tape differs

While recording, the wrapper searched the object on the inner tape, where
it is not registered: another object's function ran, or none was found.
---
 ADOL-C/src/externfcts.cpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/ADOL-C/src/externfcts.cpp b/ADOL-C/src/externfcts.cpp
index 607d2c3..5c9d5df 100644
--- a/ADOL-C/src/externfcts.cpp
+++ b/ADOL-C/src/externfcts.cpp
@@ -194,18 +194,6 @@ ext_diff_fct *get_ext_diff_fct(short tapeId, size_t index) {
  *
  */
 
-static int edfoo_wrapper_function(short tapeId, int m, int n, double *x,
-                                  double *y) {
-  ext_diff_fct *edf;
-  EDFobject *ebase;
-
-  ValueTape &tape = findTape(tapeId);
-  // figure out which edf
-  edf = get_ext_diff_fct(tapeId, tape.ext_diff_fct_index());
-  ebase = reinterpret_cast<EDFobject *>(edf->obj);
-  return ebase->function(tapeId, m, n, x, y);
-}
-
 static int edfoo_wrapper_zos_forward(short tapeId, int m, int n, int keep,
                                      double *x, double *y) {
   ext_diff_fct *edf;
@@ -274,7 +262,10 @@ void EDFobject::init_edf(EDFobject *ebase, short outerTapeId, short extTapeId) {
   edf->tapeId = outerTapeId;
   edf->extTapeId = extTapeId;
   edf->obj = reinterpret_cast<void *>(ebase);
-  edf->function = edfoo_wrapper_function;
+  // called with extTapeId, on which the object is not registered
+  edf->function = [ebase](short tapeId, int m, int n, double *x, double *y) {
+    return ebase->function(tapeId, m, n, x, y);
+  };
   edf->zos_forward = edfoo_wrapper_zos_forward;
   edf->fos_forward = edfoo_wrapper_fos_forward;
   edf->fov_forward = edfoo_wrapper_fov_forward;
-- 
2.43.0


From bdd9bd961af520342b50c1d0efc5ecfa4cfef15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:41 +0000
Subject: [PATCH 70/85] fix: the reverse fixed-point iteration starts from zero

It started from uninitialised memory; a NaN there never leaves.
---
 ADOL-C/src/fixpoint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/fixpoint.cpp b/ADOL-C/src/fixpoint.cpp
index b194bc5..37bf2d9 100644
--- a/ADOL-C/src/fixpoint.cpp
+++ b/ADOL-C/src/fixpoint.cpp
@@ -169,7 +169,7 @@ static int fp_fos_reverse(short tapeId, int dim_x, int dim_xu,
   if (current == fpi_stack.end())
     ADOLCError::fail(ADOLCError::ErrorType::FP_NO_EDF, CURRENT_LOCATION);
 
-  double *U = new double[dim_xu];
+  double *U = new double[dim_xu]{};
   double *xi = new double[dim_x];
 
   for (size_t k = 1; k < current->N_max_deriv; ++k) {
-- 
2.43.0


From 9ac6aa06738722d9d016e8dc30d10f061ecf7e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:08 +0000
Subject: [PATCH 71/85] fix: a fixed-point iteration is looked up by its tape
 as well

Indices of external functions start at zero on every tape: the iterations
of a second tape ran those of the first.
---
 ADOL-C/src/fixpoint.cpp | 49 +++++++++++++++--------------------------
 1 file changed, 18 insertions(+), 31 deletions(-)

diff --git a/ADOL-C/src/fixpoint.cpp b/ADOL-C/src/fixpoint.cpp
index 37bf2d9..e2499bc 100644
--- a/ADOL-C/src/fixpoint.cpp
+++ b/ADOL-C/src/fixpoint.cpp
@@ -28,6 +28,7 @@
 /* F(x,u,y,dim_x,dim_u) */
 /* norm(x,dim_x)        */
 struct fpi_data {
+  short tapeId;
   size_t edf_index;
   short sub_tape_num;
   double_F double_func;
@@ -42,6 +43,19 @@ struct fpi_data {
 
 static thread_local std::vector<fpi_data> fpi_stack;
 
+// The index of an external function is only unique within its tape; a later
+// entry replaces an earlier one of a removed tape with the same id.
+static const fpi_data *findFpi(short tapeId) {
+  const size_t edf_index = findTape(tapeId).ext_diff_fct_index();
+  auto current = std::find_if(
+      fpi_stack.rbegin(), fpi_stack.rend(), [&](const fpi_data &v) {
+        return v.tapeId == tapeId && v.edf_index == edf_index;
+      });
+  if (current == fpi_stack.rend())
+    ADOLCError::fail(ADOLCError::ErrorType::FP_NO_EDF, CURRENT_LOCATION);
+  return &*current;
+}
+
 static int iteration(short, int dim_x, int dim_xu, double *xu, double *x_fix) {
   double err;
   const fpi_data &current = fpi_stack.back();
@@ -71,17 +85,8 @@ static int iteration(short, int dim_x, int dim_xu, double *xu, double *x_fix) {
 static int fp_zos_forward(short tapeId, int dim_x, int dim_xu, int, double *xu,
                           double *x_fix) {
 
-  ValueTape &tape = findTape(tapeId);
   double err;
-  const size_t edf_index = tape.ext_diff_fct_index();
-
-  // Find fpi_stack element with index 'edf_index'.
-  auto current =
-      std::find_if(fpi_stack.begin(), fpi_stack.end(),
-                   [&](auto &&v) { return v.edf_index == edf_index; });
-
-  if (current == fpi_stack.end())
-    ADOLCError::fail(ADOLCError::ErrorType::FP_NO_EDF, CURRENT_LOCATION);
+  const fpi_data *current = findFpi(tapeId);
 
   for (int i = 0; i < dim_x; ++i)
     x_fix[i] = xu[i];
@@ -110,17 +115,7 @@ static int fp_fos_forward(short tapeId, int dim_x, int dim_xu, int keep,
 
   // Piggy back
   double err, err_deriv;
-  ValueTape &tape = findTape(tapeId);
-
-  const size_t edf_index = tape.ext_diff_fct_index();
-
-  // Find fpi_stack element with index 'edf_index'.
-  auto current =
-      std::find_if(fpi_stack.begin(), fpi_stack.end(),
-                   [&](auto &&v) { return v.edf_index == edf_index; });
-
-  if (current == fpi_stack.end())
-    ADOLCError::fail(ADOLCError::ErrorType::FP_NO_EDF, CURRENT_LOCATION);
+  const fpi_data *current = findFpi(tapeId);
   for (size_t k = 1; (k < current->N_max_deriv) || (k < current->N_max); ++k) {
     if (k > 1) {
       for (int i = 0; i < dim_x; ++i)
@@ -158,16 +153,7 @@ static int fp_fos_reverse(short tapeId, int dim_x, int dim_xu,
   // (d x_fix) / (d x_0) = 0 (!)
 
   double err = 0.0;
-  ValueTape &tape = findTape(tapeId);
-  const size_t edf_index = tape.ext_diff_fct_index();
-
-  // Find fpi_stack element with index 'edf_index'.
-  auto current =
-      std::find_if(fpi_stack.begin(), fpi_stack.end(),
-                   [&](auto &&v) { return v.edf_index == edf_index; });
-
-  if (current == fpi_stack.end())
-    ADOLCError::fail(ADOLCError::ErrorType::FP_NO_EDF, CURRENT_LOCATION);
+  const fpi_data *current = findFpi(tapeId);
 
   double *U = new double[dim_xu]{};
   double *xi = new double[dim_x];
@@ -223,6 +209,7 @@ int fp_iteration(short tapeId, short sub_tape_num, double_F double_func,
 
   // add new fp information
   fpi_stack.emplace_back(fpi_data{
+      tapeId,
       edf_iteration->index,
       sub_tape_num,
       double_func,
-- 
2.43.0


From f8a57a84d830fdd95f8e0f51c7008769565df344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:08 +0000
Subject: [PATCH 72/85] fix: a keeping zero order sweep of a fixed-point
 iteration updates the sub tape

The reverse sweep behind it used the values of the recording.
---
 ADOL-C/src/fixpoint.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/src/fixpoint.cpp b/ADOL-C/src/fixpoint.cpp
index e2499bc..d139b8d 100644
--- a/ADOL-C/src/fixpoint.cpp
+++ b/ADOL-C/src/fixpoint.cpp
@@ -82,8 +82,8 @@ static int iteration(short, int dim_x, int dim_xu, double *xu, double *x_fix) {
   return -1;
 }
 
-static int fp_zos_forward(short tapeId, int dim_x, int dim_xu, int, double *xu,
-                          double *x_fix) {
+static int fp_zos_forward(short tapeId, int dim_x, int dim_xu, int keep,
+                          double *xu, double *x_fix) {
 
   double err;
   const fpi_data *current = findFpi(tapeId);
@@ -101,10 +101,19 @@ static int fp_zos_forward(short tapeId, int dim_x, int dim_xu, int, double *xu,
       xu[i] = x_fix[i] - xu[i];
 
     err = current->norm_func(xu, dim_x);
-    if (err < current->epsilon)
+    if (err < current->epsilon) {
+      // the reverse sweep needs the sub tape at the new fixed point
+      if (keep) {
+        std::vector<double> arg(xu, xu + dim_xu);
+        std::vector<double> res(dim_x);
+        std::copy(x_fix, x_fix + dim_x, arg.begin());
+        zos_forward(current->sub_tape_num, dim_x, dim_xu, keep, arg.data(),
+                    res.data());
+      }
       // this is bad... but the return type of all functions is fixed to "int"
       // so it is converted implicitly anyway
       return static_cast<int>(k);
+    }
   }
   return -1;
 }
-- 
2.43.0


From 24597647c9ae6874c30255138d737b629cb35b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:37 +0000
Subject: [PATCH 73/85] fix: checkpointing restores the overwritten outputs in
 reverse

The recording pushes the previous values of y, but the external function
was registered as not needing them: reverse sweeps did not pop them and
differentiated what happened before with the new values.
---
 ADOL-C/src/checkpointing.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index efa35c7..9475269 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -646,7 +646,8 @@ int Context::checkpointing(short tapeId) {
   initExternalDiffFunction(edf);
   edf->cp_index = cpInfos->index;
   edf->dp_x_changes = 0;
-  edf->dp_y_priorRequired = 0;
+  // the previous values of y are pushed below
+  edf->dp_y_priorRequired = 1;
   ValueTape &tape = findTape(cpInfos->tapeId);
   // but we do not call it
   // we use direct taping to avoid unnecessary argument copying
-- 
2.43.0


From 74680119df4ec61071f8af7ad41673776c4966d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:23 +0000
Subject: [PATCH 74/85] fix: checkpointing adds to the adjoints of its inputs
 in reverse

The adjoint of x was replaced, which lost every use of x behind the
checkpointed part; with x and y in the same place u goes first.
---
 ADOL-C/src/checkpointing.cpp | 10 ++++++----
 ADOL-C/src/fo_rev.cpp        | 35 ++++++++++++++++++-----------------
 2 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index 9475269..707daf3 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -404,8 +404,9 @@ int fos_reverse(size_t cpIndex, short tapeId, int m, int n, double *u,
   cpInfos->release(); // release first checkpoint if written
   tape.branchSwitchWarning(old_bsw);
 
-  // save results
-  std::copy(adjoint.begin(), adjoint.end(), z);
+  // add to the adjoints of other uses of x
+  for (int i = 0; i < n; ++i)
+    z[i] += adjoint[i];
 
   return 0;
 }
@@ -495,9 +496,10 @@ int fov_reverse(size_t cpIndex, short tapeId, int m, int n, int q, double **Uq,
   cpInfos->release();
   tape.branchSwitchWarning(old_bsw);
 
-  // save results
+  // add to the adjoints of other uses of x
   for (int row = 0; row < q; ++row)
-    std::copy(adjointRows[row], adjointRows[row] + n, Zq[row]);
+    for (int i = 0; i < n; ++i)
+      Zq[row][i] += adjointRows[row][i];
   return 0;
 }
 
diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index b83834a..3fa1d75 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -2676,27 +2676,34 @@ int int_reverse_safe(
         ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_NULLPOINTER_FUNCTION,
                          CURRENT_LOCATION);
 #ifdef _FOS_
-      // Checkpointing can use the same memory for input and output.
-      // Keep z in a temp so clearing u does not wipe it.
-      std::vector<double> ext_z_buffer(to_size_t(n));
-      ext_u = rp_A + edfct->firstDepLocation;
-      std::copy(rp_A + edfct->firstIndLocation,
-                rp_A + edfct->firstIndLocation + n, ext_z_buffer.begin());
-      ext_z = ext_z_buffer.data();
+      // Checkpointing can use the same memory for input and output: take u out
+      // first, what remains are the adjoints the callback adds to.
+      std::vector<double> ext_u_buffer(rp_A + edfct->firstDepLocation,
+                                       rp_A + edfct->firstDepLocation + m);
+      ext_u = ext_u_buffer.data();
 #elif defined _FOV_
       ext_Uq = myalloc2(edfct->q, m);
       ext_Zq = myalloc2(edfct->q, n);
-#endif
-      ext_x = rp_T + edfct->firstIndLocation;
-      ext_y = rp_T + edfct->firstDepLocation;
       arg = edfct->firstDepLocation;
-#if defined _FOV_
       for (int loop = 0; loop < m; ++loop, ++arg) {
         for (int l = 0; l < edfct->q; l++) {
           ext_Uq[l][loop] = rpp_A[arg][l];
         }
       }
 #endif
+      // Set u to zero
+      res = edfct->firstDepLocation;
+      for (int loop = 0; loop < m; ++loop) {
+        FOR_0_LE_l_LT_p { ADJOINT_BUFFER_RES_L = 0.; }
+        ++res;
+      }
+#ifdef _FOS_
+      std::vector<double> ext_z_buffer(rp_A + edfct->firstIndLocation,
+                                       rp_A + edfct->firstIndLocation + n);
+      ext_z = ext_z_buffer.data();
+#endif
+      ext_x = rp_T + edfct->firstIndLocation;
+      ext_y = rp_T + edfct->firstDepLocation;
 
       arg = edfct->firstIndLocation;
 #if defined _FOV_
@@ -2709,12 +2716,6 @@ int int_reverse_safe(
       ext_retc = edfct->ADOLC_EXT_FCT_COMPLETE;
       MINDEC(ret_c, ext_retc);
 
-      // Set u to zero
-      res = edfct->firstDepLocation;
-      for (int loop = 0; loop < m; ++loop) {
-        FOR_0_LE_l_LT_p { ADJOINT_BUFFER_RES_L = 0.; }
-        ++res;
-      }
       res = edfct->firstIndLocation;
 #ifdef _FOS_
       std::copy(ext_z_buffer.begin(), ext_z_buffer.end(), rp_A + res);
-- 
2.43.0


From a02150ee585b75837e8e4e62a5ab1ef7c4223bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:30 +0000
Subject: [PATCH 75/85] fix: every checkpointed part keeps its own place in the
 revolve schedule

The state of revolve was shared by all parts of a thread: the reverse sweep
of one resumed with that of another, with wrong results or an exception.
---
 ADOL-C/include/adolc/checkpointing.h |  6 ++++++
 ADOL-C/src/checkpointing.cpp         | 17 ++++++++++++-----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/ADOL-C/include/adolc/checkpointing.h b/ADOL-C/include/adolc/checkpointing.h
index 00c0631..ec64fe4 100644
--- a/ADOL-C/include/adolc/checkpointing.h
+++ b/ADOL-C/include/adolc/checkpointing.h
@@ -17,6 +17,7 @@
 
 #include <adolc/adolcexport.h>
 #include <adolc/internal/common.h>
+#include <adolc/revolve.h>
 #include <array>
 #include <stack>
 
@@ -93,6 +94,8 @@ struct Infos {
   int fine{0};
   int info{0};
   int currentCP{0};
+  // where revolve is in this schedule; other checkpointed parts have their own
+  revolve_nums revolveState;
   double *dp_internal_for{nullptr};
   size_t index{0};
   // unsued but required to be stored in our custom buffer type
@@ -114,6 +117,9 @@ struct Infos {
   /** @brief Tape one time step at the current internal state. */
   void tapeStep(int keep) const;
 
+  /** @brief Ask revolve for the next action of this schedule. */
+  revolve_action nextAction();
+
   /** @brief Run the forward checkpoint schedule for the current state. */
   void revolveForward(int keep);
 
diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index 707daf3..addab62 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -26,6 +26,7 @@
 #include <algorithm>
 #include <cassert>
 #include <cstring>
+#include <utility>
 #include <vector>
 
 namespace ADOLC::CP {
@@ -119,6 +120,14 @@ void detail::Infos::revolveError() {
   }
 }
 
+revolve_action detail::Infos::nextAction() {
+  std::swap(get_revolve_numbers(), revolveState);
+  const revolve_action action =
+      revolve(&check, &capo, &fine, checkpoints, &info);
+  std::swap(get_revolve_numbers(), revolveState);
+  return action;
+}
+
 void detail::Infos::revolveForward(int keep) {
   /* init revolve */
   check = -1;
@@ -129,7 +138,7 @@ void detail::Infos::revolveForward(int keep) {
   /* execute all time steps */
   enum revolve_action whattodo;
   do {
-    whattodo = revolve(&check, &capo, &fine, checkpoints, &info);
+    whattodo = nextAction();
 
     switch (whattodo) {
     case revolve_takeshot:
@@ -350,8 +359,7 @@ int fos_reverse(size_t cpIndex, short tapeId, int m, int n, double *u,
   // checkpointing
   enum revolve_action whattodo;
   do {
-    whattodo = revolve(&cpInfos->check, &cpInfos->capo, &cpInfos->fine,
-                       cpInfos->checkpoints, &cpInfos->info);
+    whattodo = cpInfos->nextAction();
     switch (whattodo) {
     case revolve_terminate:
       break;
@@ -440,8 +448,7 @@ int fov_reverse(size_t cpIndex, short tapeId, int m, int n, int q, double **Uq,
   // checkpointing
   enum revolve_action whattodo;
   do {
-    whattodo = revolve(&cpInfos->check, &cpInfos->capo, &cpInfos->fine,
-                       cpInfos->checkpoints, &cpInfos->info);
+    whattodo = cpInfos->nextAction();
     switch (whattodo) {
     case revolve_terminate:
       break;
-- 
2.43.0


From 92b16b68b87b3bcfa3a1e61620d558da21d707fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:16 +0000
Subject: [PATCH 76/85] fix: EDFobject_v2 runs its own function when the inner
 tape differs

---
 ADOL-C/src/externfcts2.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/externfcts2.cpp b/ADOL-C/src/externfcts2.cpp
index ba4d737..79ce401 100644
--- a/ADOL-C/src/externfcts2.cpp
+++ b/ADOL-C/src/externfcts2.cpp
@@ -177,9 +177,11 @@ static int edfoo_v2_wrapper_function(short tapeId, size_t iArrLen, size_t *iArr,
   ext_diff_fct_v2 *edf;
   EDFobject_v2 *ebase;
 
-  ValueTape &tape = findTape(tapeId);
+  // the object is registered on the tape being recorded, which need not be
+  // the tape of the function
+  ValueTape &tape = currentTape();
   // figure out which edf
-  edf = get_ext_diff_fct_v2(tapeId, tape.ext_diff_fct_index());
+  edf = get_ext_diff_fct_v2(tape.tapeId(), tape.ext_diff_fct_index());
   ebase = reinterpret_cast<EDFobject_v2 *>(edf->obj);
   return ebase->function(tapeId, iArrLen, iArr, nin, nout, insz, x, outsz, y,
                          ctx);
-- 
2.43.0


From 60e63613637c310d9d16ad80ca2fafb6b317a881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:13 +0000
Subject: [PATCH 77/85] fix: a forward sweep of a checkpointed part discards
 the snapshots of the last one

---
 ADOL-C/src/checkpointing.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index addab62..1849a6a 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -134,6 +134,8 @@ void detail::Infos::revolveForward(int keep) {
   capo = 0;
   info = 0;
   fine = steps;
+  // snapshots of a forward sweep without a reverse sweep are not needed any more
+  clearStack();
 
   /* execute all time steps */
   enum revolve_action whattodo;
-- 
2.43.0


From b746d11faa6b099b53859ce9b1dcd8f8ff9b9eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:10 +0000
Subject: [PATCH 78/85] fix: adtl_hov: operator*= multiplied its value by the
 right hand side more than once

---
 ADOL-C/include/adolc/adtl_hov.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 6f8757e..c5f08aa 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -2190,14 +2190,10 @@ inline adouble &adouble::operator*=(const adouble &a) {
   if (likely(adouble::_do_adval() && adouble::_do_val()))
     FOR_I_EQ_0_LT_NUMDIR
   ADVAL_I = ADVAL_I * a.val + val * a.ADVAL_I;
-  if (do_val())
-    val *= a.val;
-
-  adouble tmp;
-  tmp.val = val * a.val;
 
   if (do_hoval()) // ADTL_HOV
   {
+    adouble tmp;
     size_t i;
     double sum;
     for (size_t l = 0; l < adouble::numDir; l++) {
@@ -2209,11 +2205,12 @@ inline adouble &adouble::operator*=(const adouble &a) {
         tmp.ho_deriv[k][l] = sum;
         sum = 0.0;
       }
-      val = tmp.val;
       for (size_t k = 0; k < degree; k++)
         ho_deriv[k][l] = tmp.ho_deriv[k][l];
     }
   }
+  if (do_val())
+    val *= a.val;
 
   if (do_indo())
     add_to_pattern(a.get_pattern());
-- 
2.43.0


From ac1324cd23b6198fa0d72368f378c92d43045c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:10 +0000
Subject: [PATCH 79/85] fix: adtl_hov: operator/= left the value zero

---
 ADOL-C/include/adolc/adtl_hov.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index c5f08aa..81ff264 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -2242,12 +2242,11 @@ inline adouble &adouble::operator/=(const adouble &a) {
   if (likely(adouble::_do_adval() && adouble::_do_val()))
     FOR_I_EQ_0_LT_NUMDIR
   ADVAL_I = (ADVAL_I * a.val - val * a.ADVAL_I) / (a.val * a.val);
-  if (do_val())
-    val = val / a.val;
 
   if (do_hoval()) // ADTL_HOV
   {
     adouble tmp;
+    tmp.val = val / a.val;
     size_t i;
     double sum;
     for (size_t l = 0; l < adouble::numDir; l++) {
@@ -2259,11 +2258,12 @@ inline adouble &adouble::operator/=(const adouble &a) {
         tmp.ho_deriv[k][l] = (1.0 / a.val) * (ho_deriv[k][l] - sum);
         sum = 0.0;
       }
-      val = tmp.val;
       for (size_t k = 0; k < degree; k++)
         ho_deriv[k][l] = tmp.ho_deriv[k][l];
     }
   }
+  if (do_val())
+    val = val / a.val;
 
   if (do_indo())
     add_to_pattern(a.get_pattern());
-- 
2.43.0


From a4fd893725b4a5f079d6ff155484f81f36bfaf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:10 +0000
Subject: [PATCH 80/85] fix: adtl_hov: cos returned the helper with the
 negative sine

---
 ADOL-C/include/adolc/adtl_hov.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 81ff264..6a6df50 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -1070,7 +1070,7 @@ inline adouble cos(const adouble &a) {
 
   if (do_indo())
     tmp.add_to_pattern(a.get_pattern());
-  return tmp2;
+  return tmp;
 }
 
 inline adouble asin(const adouble &a) {
-- 
2.43.0


From eb09bb27e20bba3ff003e68b5b10b5c908b813b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:10 +0000
Subject: [PATCH 81/85] fix: adtl_hov: cosh overwrote its value

---
 ADOL-C/include/adolc/adtl_hov.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 6a6df50..1a44c32 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -1405,7 +1405,7 @@ inline adouble cosh(const adouble &a) {
   if (likely(adouble::_do_adval() && adouble::_do_val())) {
     tmp2 = ADOLC_MATH_NSP::sinh(a.val);
     FOR_I_EQ_0_LT_NUMDIR
-    tmp = a * tmp2;
+    tmp.ADVAL_I = a.ADVAL_I * tmp2.val;
   }
 
   if (do_hoval()) // ADTL_HOV
-- 
2.43.0


From 601508d8ebc7bde6286d1ceb10e68eaf98951cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:10 +0000
Subject: [PATCH 82/85] fix: adtl_hov: fabs used coefficients it had not set

---
 ADOL-C/include/adolc/adtl_hov.h | 52 +++++----------------------------
 1 file changed, 8 insertions(+), 44 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 1a44c32..9fc31a6 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -1575,51 +1575,15 @@ inline adouble fabs(const adouble &a) {
   }
   if (do_hoval()) // ADTL_HOV
   {
-    // find leading Taylor coefficient
-
-    // TODO: do not forget to check the function value. it is the zero-th taylor
-    // coefficient
-
-    int *leading_sgn = (int *)alloca(sizeof(int) * adouble::degree);
-    for (size_t l = 0; l < adouble::numDir; l++) // Init
-    {
-      leading_sgn[l] = 1;
-    }
-    bool found;
-
+    // the sign of the leading Taylor coefficient; the function value is the
+    // zero-th one
     for (size_t l = 0; l < adouble::numDir; l++) {
-      for (size_t k = 0; k < adouble::degree; k++) {
-        if (tmp.ho_deriv[k][l] > 0 && (!found)) {
-          leading_sgn[l] = 1;
-          found = true;
-          break;
-          // found leading coefficient for this direction. it is positive.
-          //  no need to do any further for this direction
-        }
-        if (tmp.ho_deriv[k][l] < 0 && (!found)) {
-          // found leading coefficient for this direction. it is negative.
-          found = true;
-          leading_sgn[l] = -1;
-          break;
-        }
-        /*
-        if(tmp.ho_deriv[k][l]=0 && (!found))
-        {
-                //not the leading Taylor coefficient
-                //continue searching
-        }
-        */
-      }
-      found = false;
-    }
-
-    // assume we found all leading Taylor coefficients
-
-    for (size_t l = 0; l < adouble::numDir; l++) {
-      for (size_t k = 0; k < adouble::degree; k++) {
-        tmp.ho_deriv[k][l] *= leading_sgn[l];
-        // TODO do not forget zero-th Taylor coefficient
-      }
+      double leading = a.val;
+      for (size_t k = 0; k < adouble::degree; k++)
+        if (leading == 0.0)
+          leading = a.ho_deriv[k][l];
+      for (size_t k = 0; k < adouble::degree; k++)
+        tmp.ho_deriv[k][l] = leading < 0 ? -a.ho_deriv[k][l] : a.ho_deriv[k][l];
     }
   }
   if (do_indo())
-- 
2.43.0


From 045e30dd63a029e2d5bb02ae13c72186767dd6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:10 +0000
Subject: [PATCH 83/85] fix: adtl_hov: erf and erfc did not set the
 coefficients

---
 ADOL-C/include/adolc/adtl_hov.h | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 9fc31a6..0a7eedf 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -1962,6 +1962,21 @@ inline adouble erf(const adouble &a) {
     FOR_I_EQ_0_LT_NUMDIR
     tmp.ADVAL_I = tmp2 * a.ADVAL_I;
   }
+  if (do_hoval()) // ADTL_HOV
+  {
+    const adouble tmp3 = exp(-(a * a));
+    const double c =
+        2.0 / ADOLC_MATH_NSP_ERF::sqrt(ADOLC_MATH_NSP::acos(-1.0));
+    for (size_t l = 0; l < adouble::numDir; l++) {
+      for (size_t k = 0; k < adouble::degree; k++) {
+        double sum = tmp3.val * to_double(k + 1) * a.ho_deriv[k][l];
+        for (size_t j = 0; j < k; j++)
+          sum +=
+              to_double(j + 1) * a.ho_deriv[j][l] * tmp3.ho_deriv[k - 1 - j][l];
+        tmp.ho_deriv[k][l] = c / to_double(k + 1) * sum;
+      }
+    }
+  }
   if (do_indo())
     tmp.add_to_pattern(a.get_pattern());
   return tmp;
@@ -1982,6 +1997,21 @@ inline adouble erfc(const adouble &a) {
     FOR_I_EQ_0_LT_NUMDIR
     tmp.ADVAL_I = tmp2 * a.ADVAL_I;
   }
+  if (do_hoval()) // ADTL_HOV
+  {
+    const adouble tmp3 = exp(-(a * a));
+    const double c =
+        -2.0 / ADOLC_MATH_NSP_ERF::sqrt(ADOLC_MATH_NSP::acos(-1.0));
+    for (size_t l = 0; l < adouble::numDir; l++) {
+      for (size_t k = 0; k < adouble::degree; k++) {
+        double sum = tmp3.val * to_double(k + 1) * a.ho_deriv[k][l];
+        for (size_t j = 0; j < k; j++)
+          sum +=
+              to_double(j + 1) * a.ho_deriv[j][l] * tmp3.ho_deriv[k - 1 - j][l];
+        tmp.ho_deriv[k][l] = c / to_double(k + 1) * sum;
+      }
+    }
+  }
   if (do_indo())
     tmp.add_to_pattern(a.get_pattern());
   return tmp;
-- 
2.43.0


From 16b46958057fd01cb7f7e1b55bd4c445c2e16100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:10 +0000
Subject: [PATCH 84/85] fix: adtl_hov: assigning a variable to itself lost its
 index pattern

---
 ADOL-C/include/adolc/adtl_hov.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 0a7eedf..0a2bd64 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -2093,6 +2093,8 @@ inline adouble &adouble::operator=(const double v) {
 }
 
 inline adouble &adouble::operator=(const adouble &a) {
+  if (this == &a)
+    return *this;
   if (do_val())
     val = a.val;
   if (do_adval())
-- 
2.43.0


From 4db4e98772ad2acfb4519706426baf7e673f40c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:06 +0000
Subject: [PATCH 85/85] fix: adtl_hov: adding a constant ended the program

---
 ADOL-C/include/adolc/adtl_hov.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 0a2bd64..85105df 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -515,9 +515,8 @@ inline adouble adouble::operator+() const { return *this; }
 
 // addition
 inline adouble adouble::operator+(const double v) const {
-  adouble tmp(val + v, adval);
-  if (do_indo())
-    tmp.add_to_pattern(get_pattern());
+  adouble tmp(*this);
+  tmp.val += v;
   return tmp;
 }
 
-- 
2.43.0

