From 53d75128a45f5af3ed63ff2e3e89d238c5ea1770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:37 +0000
Subject: [PATCH 01/30] fix: itv: evaluation of a constant equality modulo
 tested its modulus the wrong way round

A zero modulus was divided by (GMP division by zero), and constraints with a
non-zero modulus were never decided.
---
 itv/itv_linexpr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itv/itv_linexpr.c b/itv/itv_linexpr.c
index 1231e22..9eb2e98 100644
--- a/itv/itv_linexpr.c
+++ b/itv/itv_linexpr.c
@@ -562,7 +562,7 @@ tbool_t ITVFUN(itv_eval_cstlincons)(itv_internal_t* intern,
       if (bound_sgn(cst->sup)==0){
 	res = tbool_true;
       }
-      else if (num_cmp_int(lincons->num,0)){
+      else if (num_cmp_int(lincons->num,0)==0){
 	res = (bound_sgn(cst->sup)==0) ? tbool_true : tbool_top;
       }
       else {
-- 
2.43.0


From 74742870568a8fb945f47de1a8dd0da31c177429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:37 +0000
Subject: [PATCH 02/30] fix: box: generators of half-bounded boxes

The finite bound of a half-bounded dimension was written into its ray instead
of the vertices.
---
 box/box_constructor.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/box/box_constructor.c b/box/box_constructor.c
index 36e5be7..4779759 100644
--- a/box/box_constructor.c
+++ b/box/box_constructor.c
@@ -473,7 +473,7 @@ ap_generator0_array_t box_to_generator_array(ap_manager_t* man, box_t* a)
 	for (j=nblines+nbrays; j<nblines+nbrays+v; j++){
 	  ap_scalar_set_bound(&scalar,itv->inf);
 	  ap_scalar_neg(&scalar,&scalar);
-	  ap_linexpr0_set_coeff_scalar(expr,i,&scalar);
+	  ap_linexpr0_set_coeff_scalar(array.p[j].linexpr0,i,&scalar);
 	}	   
       }
       else if (iinf){
@@ -482,7 +482,7 @@ ap_generator0_array_t box_to_generator_array(ap_manager_t* man, box_t* a)
 	r++;
 	for (j=nblines+nbrays; j<nblines+nbrays+v; j++){
 	  ap_scalar_set_bound(&scalar,itv->sup);
-	  ap_linexpr0_set_coeff_scalar(expr,i,&scalar);
+	  ap_linexpr0_set_coeff_scalar(array.p[j].linexpr0,i,&scalar);
 	}	   
       }
     }
-- 
2.43.0


From c352b71cac5ae4d78c86011fe6420543b5aaee3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:59 +0000
Subject: [PATCH 03/30] fix: ap_lincons0_is_unsat: equality modulo and
 disequality

A non-null constant was reported incongruent to 0 whatever the modulus
(4 = 0 mod 2), and an interval containing 0 but also other values was
reported never different from 0.
---
 apron/ap_lincons0.c | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/apron/ap_lincons0.c b/apron/ap_lincons0.c
index 5dfd70f..8e11899 100644
--- a/apron/ap_lincons0.c
+++ b/apron/ap_lincons0.c
@@ -46,6 +46,33 @@ ap_lincons0_t ap_lincons0_make_unsat()
   return ap_lincons0_make(AP_CONS_SUPEQ,expr,NULL);
 }
 
+/* Is there no multiple of mod in [inf,sup] ?
+   A missing or null modulus stands for equality. */
+static bool eqmod_is_unsat(ap_scalar_t* inf, ap_scalar_t* sup, ap_scalar_t* mod)
+{
+  mpq_t a,b,m;
+  bool res;
+
+  if (ap_scalar_sgn(inf)<=0 && ap_scalar_sgn(sup)>=0)
+    return false;
+  if (mod==NULL || ap_scalar_sgn(mod)==0)
+    return true;
+  if (ap_scalar_infty(inf) || ap_scalar_infty(sup) || ap_scalar_infty(mod))
+    return false;
+  mpq_init(a); mpq_init(b); mpq_init(m);
+  ap_mpq_set_scalar(a,inf,GMP_RNDD);
+  ap_mpq_set_scalar(b,sup,GMP_RNDU);
+  ap_mpq_set_scalar(m,mod,GMP_RNDN);
+  mpq_abs(m,m);
+  mpq_div(a,a,m);
+  mpq_div(b,b,m);
+  mpz_cdiv_q(mpq_numref(a),mpq_numref(a),mpq_denref(a));
+  mpz_fdiv_q(mpq_numref(b),mpq_numref(b),mpq_denref(b));
+  res = mpz_cmp(mpq_numref(a),mpq_numref(b))>0;
+  mpq_clear(a); mpq_clear(b); mpq_clear(m);
+  return res;
+}
+
 bool ap_lincons0_is_unsat(ap_lincons0_t* cons)
 {
   size_t i,nbcoeffs;
@@ -67,8 +94,9 @@ bool ap_lincons0_is_unsat(ap_lincons0_t* cons)
       sgn = ap_scalar_sgn(expr->cst.val.scalar);
       switch(cons->constyp){
       case AP_CONS_EQ:
-      case AP_CONS_EQMOD:
 	return (sgn!=0);
+      case AP_CONS_EQMOD:
+	return eqmod_is_unsat(expr->cst.val.scalar,expr->cst.val.scalar,cons->scalar);
       case AP_CONS_DISEQ:
 	return (sgn==0);
       case AP_CONS_SUPEQ:
@@ -82,14 +110,16 @@ bool ap_lincons0_is_unsat(ap_lincons0_t* cons)
       sgn = ap_scalar_sgn(expr->cst.val.interval->sup);
       switch(cons->constyp){
       case AP_CONS_EQ:
-      case AP_CONS_EQMOD:
 	return
 	  sgn < 0 ||
 	  ap_scalar_sgn(expr->cst.val.interval->inf)>0;
+      case AP_CONS_EQMOD:
+	return eqmod_is_unsat(expr->cst.val.interval->inf,
+			      expr->cst.val.interval->sup,cons->scalar);
       case AP_CONS_DISEQ:
 	return
-	  sgn>=0 &&
-	  ap_scalar_sgn(expr->cst.val.interval->inf)<=0;
+	  sgn==0 &&
+	  ap_scalar_sgn(expr->cst.val.interval->inf)==0;
       case AP_CONS_SUPEQ:
 	return sgn<0;
       case AP_CONS_SUP:
-- 
2.43.0


From a8e9d9317efcdc4f11b4593b425bcfe316adf45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:59 +0000
Subject: [PATCH 04/30] fix: ap_lincons0_is_sat: an interval is always
 different from 0 when it does not contain 0

[-1,1] != 0 was reported always satisfied.
---
 apron/ap_lincons0.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apron/ap_lincons0.c b/apron/ap_lincons0.c
index 8e11899..0fc2150 100644
--- a/apron/ap_lincons0.c
+++ b/apron/ap_lincons0.c
@@ -176,8 +176,8 @@ bool ap_lincons0_is_sat(ap_lincons0_t* cons)
           ap_scalar_sgn(expr->cst.val.interval->sup)==0;
       case AP_CONS_DISEQ:
         return
-          ap_scalar_sgn(expr->cst.val.interval->inf)<0 ||
-          ap_scalar_sgn(expr->cst.val.interval->sup)>0;
+          ap_scalar_sgn(expr->cst.val.interval->inf)>0 ||
+          ap_scalar_sgn(expr->cst.val.interval->sup)<0;
       case AP_CONS_SUPEQ:
 	return 
           ap_scalar_sgn(expr->cst.val.interval->inf)>=0;
-- 
2.43.0


From 7ebebb604b3c35ddc0d412550c0352e34c939fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 05/30] fix: ap_coeff_equal_int returned the negation of the
 equality

---
 apron/ap_coeff.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apron/ap_coeff.c b/apron/ap_coeff.c
index 001c055..92e1c11 100644
--- a/apron/ap_coeff.c
+++ b/apron/ap_coeff.c
@@ -312,9 +312,9 @@ bool ap_coeff_equal_int(ap_coeff_t* coeff, int i)
 {
   switch (coeff->discr){
   case AP_COEFF_SCALAR:
-    return ap_scalar_equal_int(coeff->val.scalar,i)==0;
+    return ap_scalar_equal_int(coeff->val.scalar,i);
   case AP_COEFF_INTERVAL:
-    return (ap_scalar_equal_int(coeff->val.interval->inf,i)==0) && (ap_scalar_equal_int(coeff->val.interval->sup,i)==0);
+    return ap_interval_equal_int(coeff->val.interval,i);
   default:
     abort();
   }
-- 
2.43.0


From edf5cf6d1557a3a6051d7bd714c2a67e20f51e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 06/30] fix: ap_scalar_set_infty with a null sign sets MPFR
 scalars to zero, as documented

---
 apron/ap_scalar.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apron/ap_scalar.c b/apron/ap_scalar.c
index 5f1ed9d..9a982d0 100644
--- a/apron/ap_scalar.c
+++ b/apron/ap_scalar.c
@@ -176,7 +176,8 @@ void ap_scalar_set_infty(ap_scalar_t* scalar, int sgn)
     scalar->val.dbl = sgn>0 ? (double)1.0/(double)0.0 : (sgn < 0 ? -(double)1.0/(double)0.0 : 0.0);
     break;
   case AP_SCALAR_MPFR:
-    mpfr_set_inf(scalar->val.mpfr,sgn);
+    if (sgn) mpfr_set_inf(scalar->val.mpfr,sgn);
+    else mpfr_set_zero(scalar->val.mpfr,1);
     break;
   default:
     abort();
-- 
2.43.0


From be55f4b4cd8bb2cbc4bf022e3fc858ae4c7e207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 07/30] fix: ap_double_set_scalar returned the opposite of the
 documented sign on MPFR scalars

---
 apron/ap_scalar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apron/ap_scalar.c b/apron/ap_scalar.c
index 9a982d0..c15bc51 100644
--- a/apron/ap_scalar.c
+++ b/apron/ap_scalar.c
@@ -237,7 +237,7 @@ int ap_double_set_scalar(double* k, ap_scalar_t* scalar, mp_rnd_t round)
     return 0;
   case AP_SCALAR_MPFR:
     *k = mpfr_get_d(scalar->val.mpfr,round);
-    return mpfr_cmp_d(scalar->val.mpfr,*k);
+    return -mpfr_cmp_d(scalar->val.mpfr,*k);
   default:
     abort();
   }
-- 
2.43.0


From 980de63b9b2a3b2518fbb9b344eb5ca16fe8e76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 08/30] fix: division by zero in ap_scalar_hash when the
 denominator is a multiple of 2^64

---
 apron/ap_scalar.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apron/ap_scalar.c b/apron/ap_scalar.c
index c15bc51..2bdf3e5 100644
--- a/apron/ap_scalar.c
+++ b/apron/ap_scalar.c
@@ -463,7 +463,11 @@ long ap_scalar_hash(ap_scalar_t* a)
   else {
     switch (a->discr){
     case AP_SCALAR_MPQ:
-      return mpz_get_si(mpq_numref(a->val.mpq))/mpz_get_ui(mpq_denref(a->val.mpq));
+      {
+	/* only the lowest bits are kept: may be 0 */
+	unsigned long den = mpz_get_ui(mpq_denref(a->val.mpq));
+	return den ? mpz_get_si(mpq_numref(a->val.mpq))/den : 0;
+      }
     case AP_SCALAR_DOUBLE:
       return (int)(a->val.dbl);
     case AP_SCALAR_MPFR:
-- 
2.43.0


From ca684de4234acded5e42cb8d069b444cd23ed72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 09/30] fix: ap_interval_cmp distinguished two empty intervals
 when their bounds are nested

---
 apron/ap_interval.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/apron/ap_interval.c b/apron/ap_interval.c
index c2d8990..e5eb8be 100644
--- a/apron/ap_interval.c
+++ b/apron/ap_interval.c
@@ -141,17 +141,15 @@ int ap_interval_cmp(ap_interval_t* itv1, ap_interval_t* itv2)
   int sinf = ap_scalar_cmp(itv1->inf,itv2->inf);
   int ssup = ap_scalar_cmp(itv1->sup,itv2->sup);
 
-  if (sinf==0 && ssup==0) return 0;
+  bool b1 = ap_interval_is_bottom(itv1);
+  bool b2 = ap_interval_is_bottom(itv2);
+
+  if ((b1 && b2) || (sinf==0 && ssup==0)) return 0;
+  else if (b1) return -1;
+  else if (b2) return 1;
   else if (sinf>=0 && ssup<=0) return -1;
   else if (sinf<=0 && ssup>=0) return 1;
-  else {
-    bool b1 = ap_interval_is_bottom(itv1);
-    bool b2 = ap_interval_is_bottom(itv2);
-    if (b1 && b2) return 0;
-    else if (b1) return -1;
-    else if (b2) return 1;
-    else return sinf > 0 ? 2 : -2;
-  }
+  else return sinf > 0 ? 2 : -2;
 }
 bool ap_interval_equal(ap_interval_t* itv1, ap_interval_t* itv2)
 {  
-- 
2.43.0


From 2a50a54abb6aa4932719a8d96dcfbdbd1e181b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 10/30] fix: ap_linexpr0_compare lost the sign of the
 comparison

---
 apron/ap_linexpr0.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apron/ap_linexpr0.c b/apron/ap_linexpr0.c
index 11d8e35..d44fb9b 100644
--- a/apron/ap_linexpr0.c
+++ b/apron/ap_linexpr0.c
@@ -824,7 +824,7 @@ bool ap_linexpr0_equal(ap_linexpr0_t* expr1,
 int ap_linexpr0_compare(ap_linexpr0_t* expr1,
 			ap_linexpr0_t* expr2)
 {
-  bool res;
+  int res;
   size_t i1,i2;
   ap_dim_t dim1,dim2;
   ap_coeff_t* coeff1;
-- 
2.43.0


From 3ce11ac64004bf1fa891e04e93f55e387113baab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 11/30] fix: null dereference when comparing sparse expressions
 with free slots

---
 apron/ap_linexpr0.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apron/ap_linexpr0.c b/apron/ap_linexpr0.c
index d44fb9b..5d522c4 100644
--- a/apron/ap_linexpr0.c
+++ b/apron/ap_linexpr0.c
@@ -805,6 +805,7 @@ bool ap_linexpr0_equal(ap_linexpr0_t* expr1,
       dim2 = AP_DIM_MAX;
       coeff2 = NULL;
     }
+    if (dim1==AP_DIM_MAX && dim2==AP_DIM_MAX) break; /* no term left */
     if (dim1==dim2){
       i1++; i2++;
       res = ap_coeff_equal(coeff1,coeff2);
@@ -860,6 +861,7 @@ int ap_linexpr0_compare(ap_linexpr0_t* expr1,
       dim2 = AP_DIM_MAX;
       coeff2 = NULL;
     }
+    if (dim1==AP_DIM_MAX && dim2==AP_DIM_MAX) break; /* no term left */
     if (dim1==dim2){
       i1++; i2++;
       res = ap_coeff_cmp(coeff1,coeff2);
-- 
2.43.0


From 1f539e4a2bb3b55c6aa502b7d0a91eddec0ded9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 12/30] fix: ap_linexpr0_hash modified sparse expressions and
 hashed equal expressions differently

---
 apron/ap_linexpr0.c | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/apron/ap_linexpr0.c b/apron/ap_linexpr0.c
index 5d522c4..dedcf0a 100644
--- a/apron/ap_linexpr0.c
+++ b/apron/ap_linexpr0.c
@@ -749,23 +749,20 @@ ap_linexpr0_permute_dimensions_with(ap_linexpr0_t* expr,
 
 long ap_linexpr0_hash(ap_linexpr0_t* expr)
 {
-  if (expr->size==0){
-    return ap_coeff_hash(&expr->cst);
-  }
-  else {
-    ap_coeff_t* pcoeff;
-    size_t i,dec;
-    long res,res1;
-    res = expr->size << 8;
-    dec = 0;
-    for (i=0; i<expr->size; i += (expr->size+7)/8){
-      pcoeff = ap_linexpr0_coeffref(expr,i);
-      res1 = (pcoeff==NULL) ? 0 : ap_coeff_hash(pcoeff);
-      res += res1<<dec;
-      dec++;
-    }
-    return res;
+  ap_coeff_t* coeff;
+  ap_dim_t dim;
+  size_t i;
+  long res;
+
+  /* compatible with ap_linexpr0_equal: null coefficients do not count */
+  ap_coeff_reduce(&expr->cst);
+  res = ap_coeff_hash(&expr->cst);
+  ap_linexpr0_ForeachLinterm(expr,i,dim,coeff){
+    ap_coeff_reduce(coeff);
+    if (!ap_coeff_zero(coeff))
+      res += (unsigned long)ap_coeff_hash(coeff) << (dim%8);
   }
+  return res;
 }
 bool ap_linexpr0_equal(ap_linexpr0_t* expr1,
 		       ap_linexpr0_t* expr2)
-- 
2.43.0


From d968b8ec2bf3ce5dea2bedf41ff98b6197023d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 13/30] fix: heap overflow in ap_environment_dimchange when the
 second environment is not a superset

---
 apron/ap_environment.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apron/ap_environment.c b/apron/ap_environment.c
index d679c0a..e4664b8 100644
--- a/apron/ap_environment.c
+++ b/apron/ap_environment.c
@@ -308,6 +308,7 @@ static bool env_lce_dimchange(env_t* e1, env_t* e,
       if (sgn<0) return true;
       if (sgn==0) break;
       /* here, a new dimension to insert */
+      if (k1>=e->size-e1->size) return true;
       dimchange1->dim[offsetwrite+k1] = offsetread+i1;
       k1++;
     }
-- 
2.43.0


From 3aee06b3d492837e129d1759e6d8522a62617f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 14/30] fix: ap_environment_rename left the permutation
 uninitialized on unknown variables

---
 apron/ap_environment.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apron/ap_environment.c b/apron/ap_environment.c
index e4664b8..7784953 100644
--- a/apron/ap_environment.c
+++ b/apron/ap_environment.c
@@ -1030,6 +1030,8 @@ ap_environment_t* ap_environment_rename(ap_environment_t* env,
     ap_dim_t dim = ap_environment_dim_of_var(env,tvar1[j]);
     if (dim==AP_DIM_MAX){
       ap_environment_free(res);
+      perm->dim = NULL;
+      perm->size = 0;
       return NULL;
     }
     res->var_of_dim[dim] = ap_var_operations->copy(tvar2[j]);
-- 
2.43.0


From d358c1ff97feb86e8fba7355c465fd655e2d683c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:17 +0000
Subject: [PATCH 15/30] fix: ap_environment_lce_array returned changes
 misaligned with its argument, or uninitialized

---
 apron/ap_environment.c | 36 ++----------------------------------
 1 file changed, 2 insertions(+), 34 deletions(-)

diff --git a/apron/ap_environment.c b/apron/ap_environment.c
index 7784953..cc97595 100644
--- a/apron/ap_environment.c
+++ b/apron/ap_environment.c
@@ -889,12 +889,6 @@ ap_environment_t* ap_environment_lce(ap_environment_t* env1,
   the array (*ptdimchange)[0] with malloc.
 
 */
-static int env_cmp(const void* a, const void* b)
-{
-  ap_environment_t* pa = *((ap_environment_t*const*)a);
-  ap_environment_t* pb = *((ap_environment_t*const*)b);
-  return (pa>pb ? 1 : (pa==pb ? 0 : -1));
-}
 
 ap_environment_t* ap_environment_lce_array(ap_environment_t** tenv,
 					   size_t size,
@@ -910,32 +904,6 @@ ap_environment_t* ap_environment_lce_array(ap_environment_t** tenv,
 
   assert(size>=1);
 
-  qsort(tenv,size,sizeof(ap_environment_t*),env_cmp);
-  /* remove doublons */
-  for(i=0;i<size-1;i++){
-    if (tenv[i]==tenv[i+1]){
-      if (i<size-2){
-	memmove(&tenv[i+1],&tenv[i+2],(size-i-2)*sizeof(ap_environment_t*));
-      }
-      size--;
-    }
-  }
-  if (size==1){
-    *ptdimchange = malloc(sizeof(ap_dim_t*));
-    (*ptdimchange)[0] = NULL;
-    return tenv[0];
-  }
-  if (size==2){
-    if (ap_environment_is_eq(tenv[0],tenv[1])){
-      *ptdimchange = NULL;
-      return tenv[0];
-    }
-    else {
-      *ptdimchange = malloc(2*sizeof(ap_dimchange_t*));
-      return ap_environment_lce(tenv[0],tenv[1],&(*ptdimchange)[0],&(*ptdimchange)[1]);
-    }
-  }
-
   /* Compute env */
   tdenv = malloc(size*sizeof(denv_t));
   for (i=0;i<size;i++){
@@ -979,7 +947,7 @@ ap_environment_t* ap_environment_lce_array(ap_environment_t** tenv,
     }
   }
   free(tdenv);
-  if (j>0){
+  if (j>=0){
     env_clear(&denv.envint);
     env_clear(&denv.envreal);
     if (!change){
@@ -992,7 +960,7 @@ ap_environment_t* ap_environment_lce_array(ap_environment_t** tenv,
     ap_environment_t* env = environment_of_denv(&denv);
     if (ap_environment_check(env)){
       for (i=0;i<size;i++){
-	if ((*ptdimchange)[i]) free((*ptdimchange)[i]);
+	if ((*ptdimchange)[i]) ap_dimchange_free((*ptdimchange)[i]);
       }
       free(*ptdimchange);
       *ptdimchange=NULL;
-- 
2.43.0


From 260c2e8059658d5074b050d6221b512d410e37d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:27 +0000
Subject: [PATCH 16/30] fix: itv_subst_ap_texpr0_array: confusion between
 dimensions and indices

The dimensions left unchanged were looked up through dim (reading out of its
bounds), and expression i was refined with the value of dimension i instead of
the dimension it is substituted to.
---
 itv/itv_linearize.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/itv/itv_linearize.c b/itv/itv_linearize.c
index 5864539..b92debb 100644
--- a/itv/itv_linearize.c
+++ b/itv/itv_linearize.c
@@ -2118,7 +2118,7 @@ ITVFUN(itv_subst_ap_texpr0_array)(itv_internal_t* intern,
     d[dim[i]] = 1;
   }
   for (i=0; i<intdim+realdim; i++) {
-    if (d[dim[i]]) continue;
+    if (d[i]) continue;
     itv_meet(intern, res[i], res[i], arg[i]);
   }
   free(d);
@@ -2130,7 +2130,7 @@ ITVFUN(itv_subst_ap_texpr0_array)(itv_internal_t* intern,
   for (n=0; n<max_iter; n++) {
     bool stable = true;
     for (i=0; i<size; i++) {
-      if (itv_refine_expr(intern, tab[i], arg[i], res, intdim)) {
+      if (itv_refine_expr(intern, tab[i], arg[dim[i]], res, intdim)) {
 	stable = false;
       }
     }
-- 
2.43.0


From 9dbb11cc5a1c4d320f114058f67b4d04ce1377dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:27 +0000
Subject: [PATCH 17/30] fix: backward evaluation of powers ignored the rounding
 of the result

---
 itv/itv_linearize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itv/itv_linearize.c b/itv/itv_linearize.c
index b92debb..8412871 100644
--- a/itv/itv_linearize.c
+++ b/itv/itv_linearize.c
@@ -1922,7 +1922,7 @@ itv_refine_ap_texpr0_node(itv_internal_t* intern,
     /* keep right argument */
     itv_set(arg2r, arg2);
     /* refine left argument */
-    itv_inv_pow(intern, arg1r, arg1, res, arg2);
+    itv_inv_pow(intern, arg1r, arg1, intern->eval_itv3, arg2);
     itv_meet(intern, arg1r, arg1r, arg1);
     break;
 
-- 
2.43.0


From ae9abe7d411a47238a0ae7c3e8497ed84f2de311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:27 +0000
Subject: [PATCH 18/30] fix: itv_untrunc: non-null values between -1 and 1 are
 truncated to 0

---
 itv/itv.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/itv/itv.h b/itv/itv.h
index a51d157..0737365 100644
--- a/itv/itv.h
+++ b/itv/itv.h
@@ -616,8 +616,9 @@ static inline void itv_untrunc(itv_t a, itv_t b)
   /* trunc(x) = ceil(x) if x < 0, floor(x) if x > 0 */
   bound_floor(a->inf,b->inf);
   bound_floor(a->sup,b->sup);
-  if (bound_sgn(a->inf) > 0) bound_add_uint(a->inf,a->inf,1);
-  if (bound_sgn(a->sup) > 0) bound_add_uint(a->sup,a->sup,1);
+  /* trunc(x) = 0 if -1 < x < 1 */
+  if (bound_sgn(a->inf) >= 0) bound_add_uint(a->inf,a->inf,1);
+  if (bound_sgn(a->sup) >= 0) bound_add_uint(a->sup,a->sup,1);
 }
 
 static inline void itv_from_int(itv_t a, itv_t b)
-- 
2.43.0


From 94da8a2abf11a067f32117c81d210f7b676c915c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:27 +0000
Subject: [PATCH 19/30] fix: itv_from_int: the values rounded to an integer are
 around it

---
 itv/itv.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/itv/itv.h b/itv/itv.h
index 0737365..12e9fbc 100644
--- a/itv/itv.h
+++ b/itv/itv.h
@@ -623,9 +623,11 @@ static inline void itv_untrunc(itv_t a, itv_t b)
 
 static inline void itv_from_int(itv_t a, itv_t b)
 {
-  /* [a,b] -> [floor(a),ceil(b)] */
-  bound_ceil(a->sup,b->sup);
-  bound_ceil(a->inf,b->inf);
+  /* [a,b] -> [ceil(a)-1,floor(b)+1], as the rounding is unknown */
+  bound_floor(a->sup,b->sup);
+  bound_floor(a->inf,b->inf);
+  bound_add_uint(a->sup,a->sup,1);
+  bound_add_uint(a->inf,a->inf,1);
 }
 
 static inline void itv_from_float(itv_t a, itv_t b)
-- 
2.43.0


From 816d2129ab524ea986a601f81d8e47c0fe7aece0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:27 +0000
Subject: [PATCH 20/30] fix: bound_pow, bound_root: odd powers and roots of -oo
 are -oo

---
 num/bound_def.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/num/bound_def.h b/num/bound_def.h
index 0769e56..c4ea8cf 100644
--- a/num/bound_def.h
+++ b/num/bound_def.h
@@ -364,8 +364,9 @@ static inline void bound_sqrt(bound_t up, bound_t down, bound_t b)
 static inline void bound_pow(bound_t up, bound_t down, bound_t b, unsigned long n)
 {
   if (bound_infty(b)) {
-    bound_set_infty(up, 1);
-    bound_set_infty(down, 1);
+    int sgn = (n & 1) ? bound_sgn(b) : 1;
+    bound_set_infty(up, sgn);
+    bound_set_infty(down, sgn);
   }
   else if (num_pow(bound_numref(up), bound_numref(down), bound_numref(b), n)) {
     bound_set_infty(up,1);
@@ -380,8 +381,9 @@ static inline void bound_pow(bound_t up, bound_t down, bound_t b, unsigned long
 static inline void bound_root(bound_t up, bound_t down, bound_t b, unsigned long n)
 {
   if (bound_infty(b)) {
-    bound_set_infty(up, 1);
-    bound_set_infty(down, 1);
+    int sgn = bound_sgn(b);
+    bound_set_infty(up, sgn);
+    bound_set_infty(down, sgn);
   }
   else {
     num_root(bound_numref(up), bound_numref(down), bound_numref(b), n);
-- 
2.43.0


From 03c8448317f118874a079bf61aceac237a87754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:27 +0000
Subject: [PATCH 21/30] fix: numrat_root: roots of negative rationals were
 rounded the wrong way

---
 num/numrat_mpq.h    | 4 +++-
 num/numrat_native.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/num/numrat_mpq.h b/num/numrat_mpq.h
index 6c2be77..bbb2c83 100644
--- a/num/numrat_mpq.h
+++ b/num/numrat_mpq.h
@@ -187,7 +187,9 @@ static inline int numrat_pow(numrat_t up, numrat_t down, numrat_t b, unsigned lo
 static inline void numrat_root(numrat_t up, numrat_t down, numrat_t b, unsigned long int n)
 {
   numint_root(numrat_numref(up), numrat_numref(down), numrat_numref(b), n);
-  numint_root(numrat_denref(down), numrat_denref(up), numrat_denref(b), n);
+  /* dividing a negative number by a larger one makes it larger */
+  if (mpq_sgn(b)<0) numint_root(numrat_denref(up), numrat_denref(down), numrat_denref(b), n);
+  else numint_root(numrat_denref(down), numrat_denref(up), numrat_denref(b), n);
   numrat_canonicalize(up);
   numrat_canonicalize(down);
 }
diff --git a/num/numrat_native.h b/num/numrat_native.h
index 7e564c0..fae62f1 100644
--- a/num/numrat_native.h
+++ b/num/numrat_native.h
@@ -240,7 +240,9 @@ static inline int numrat_pow(numrat_t up, numrat_t down, numrat_t b, unsigned lo
 static inline void numrat_root(numrat_t up, numrat_t down, numrat_t b, unsigned long int n)
 {
   numint_root(up->n, down->n, b->n, n);
-  numint_root(down->d, up->d, b->d, n);
+  /* dividing a negative number by a larger one makes it larger */
+  if (numint_sgn(b->n)<0) numint_root(up->d, down->d, b->d, n);
+  else numint_root(down->d, up->d, b->d, n);
   numrat_canonicalize(up);
   numrat_canonicalize(down);
 }
-- 
2.43.0


From 027f3a745ab716500a803377823ce1c2c80f70ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:13 +0000
Subject: [PATCH 22/30] fix: linearization of powers ignored the rounding of
 the result

---
 itv/itv_linearize.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/itv/itv_linearize.c b/itv/itv_linearize.c
index 8412871..68f172d 100644
--- a/itv/itv_linearize.c
+++ b/itv/itv_linearize.c
@@ -1440,6 +1440,7 @@ ap_texpr0_node_intlinearize(itv_internal_t* intern,
     }
     else {
       itv_pow(intern,ires,ires,i1);
+      itv_round(ires,ires,n->type,n->dir);
       itv_linexpr_reinit(lres,0);
       itv_set(lres->cst,ires);
       lres->equality = itv_is_point(intern,lres->cst);
-- 
2.43.0


From cc2d041483b64886a4988a6084edc099446157e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:01 +0000
Subject: [PATCH 23/30] fix: itv_lincons_reduce_integer: integer equalities
 with a fractional constant were rounded instead of found unsatisfiable

---
 itv/itv_linexpr.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/itv/itv_linexpr.c b/itv/itv_linexpr.c
index 9eb2e98..a9f2bf0 100644
--- a/itv/itv_linexpr.c
+++ b/itv/itv_linexpr.c
@@ -788,18 +788,15 @@ void ITVFUN(itv_lincons_reduce_integer)(itv_internal_t* intern,
   }
   if (cons->constyp == AP_CONS_EQ){
     if (!bound_infty(expr->cst->inf)){
-      if (expr->equality){
-	bound_neg(expr->cst->inf,
-		  expr->cst->sup);
-      }
-      else {
-	num_floor(bound_numref(expr->cst->inf),
-		  bound_numref(expr->cst->inf));
-      }
+      num_floor(bound_numref(expr->cst->inf),
+		bound_numref(expr->cst->inf));
     }
     if (itv_is_bottom(intern,expr->cst)){
       itv_lincons_set_bool(cons,false);
     }
+    else {
+      expr->equality = itv_is_point(intern,expr->cst);
+    }
   }
   else {
     if (!bound_infty(expr->cst->sup)){
-- 
2.43.0


From 472d3ca2c52494d46e17eafaadefb6ad28aea364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:01 +0000
Subject: [PATCH 24/30] fix: newpolka: lower bounds of integer dimensions were
 rounded outwards when building from a box

---
 newpolka/pk_user.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newpolka/pk_user.c b/newpolka/pk_user.c
index f7a2198..6261c70 100644
--- a/newpolka/pk_user.c
+++ b/newpolka/pk_user.c
@@ -53,7 +53,7 @@ bool vector_set_dim_bound(pk_internal_t* pk,
       numint_set_int(numrat_denref(bound),1);
     }
     else if (mode<0){
-      numint_cdiv_q(numrat_numref(bound),
+      numint_fdiv_q(numrat_numref(bound),
 		    numrat_numref(numrat),numrat_denref(numrat));
       numint_set_int(numrat_denref(bound),1);
     }
-- 
2.43.0


From 23bae7fbc079f948138ac3ba020453bf7a0174b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:01 +0000
Subject: [PATCH 25/30] fix: newpolka: pk_approximate(3) negated the upper
 octagonal bounds

---
 newpolka/pk_user.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newpolka/pk_user.c b/newpolka/pk_user.c
index 6261c70..f7dbd7f 100644
--- a/newpolka/pk_user.c
+++ b/newpolka/pk_user.c
@@ -118,7 +118,7 @@ bool vector_set_linexpr_bound(pk_internal_t* pk,
   numint_init(cst);
   numint_mul(cst,numrat_numref(numrat),vec[0]);
   if (mode>=0){
-    numint_sub(vec[polka_cst],vec[polka_cst],cst);
+    numint_sub(vec[polka_cst],cst,vec[polka_cst]);
     for (i=pk->dec; i<size; i++){
       numint_neg(vec[i],vec[i]);
     }
-- 
2.43.0


From 5cfb0aca91373be68891372c63c6c940d38aa31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:37 +0000
Subject: [PATCH 26/30] fix: ap_intlinearize_texpr0_intlinear used freed and
 uninitialised memory

---
 apron/ap_linearize_aux.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/apron/ap_linearize_aux.c b/apron/ap_linearize_aux.c
index 0e7e2e7..6ad7cf4 100644
--- a/apron/ap_linearize_aux.c
+++ b/apron/ap_linearize_aux.c
@@ -294,19 +294,16 @@ ITVFUN(ap_intlinearize_texpr0_intlinear)(ap_manager_t* man,
 {
   bool exc;
   itv_internal_t* intern;
-  ap_linexpr0_t* res;
+  ap_linexpr0_t* res = NULL;
   itv_linexpr_t linexpr;
 
   intern = itv_internal_alloc();
   itv_linexpr_init(&linexpr,0);
   exc = itv_intlinearize_ap_texpr0_intlinear(intern,&linexpr,expr);
-  itv_internal_free(intern);
-  if (exc){
-    itv_linexpr_clear(&linexpr);
-    return NULL;
-  }
-  ap_linexpr0_set_itv_linexpr(intern,&res,&linexpr);
+  if (!exc)
+    ap_linexpr0_set_itv_linexpr(intern,&res,&linexpr);
   itv_linexpr_clear(&linexpr);
+  itv_internal_free(intern);
   return res;
 }
 
-- 
2.43.0


From 9719be3634e7f5a24b96b67e2d46651f3b7e3eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:37 +0000
Subject: [PATCH 27/30] fix: generic meet with quasilinearization passed an
 unboxed value, exactness never returned

---
 apron/ap_generic.c       | 5 ++++-
 apron/ap_linearize_aux.c | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/apron/ap_generic.c b/apron/ap_generic.c
index 761a197..48e2db6 100644
--- a/apron/ap_generic.c
+++ b/apron/ap_generic.c
@@ -160,6 +160,7 @@ ap_generic_meet_quasilinearize_lincons_array(ap_manager_t* man,
   void* res;
   void* (*copy)(ap_manager_t*,void*) = man->funptr[AP_FUNID_COPY];
   bool (*is_bottom)(ap_manager_t*,void*) = man->funptr[AP_FUNID_IS_BOTTOM];
+  ap_abstract0_t a0;
 
   man->result.flag_exact = man->result.flag_best = true;
 
@@ -167,7 +168,9 @@ ap_generic_meet_quasilinearize_lincons_array(ap_manager_t* man,
     res = destructive ? abs : copy(man,abs);
   }
   else {
-    array2 = ap_quasilinearize_lincons0_array(man,abs,array,&exact,
+    a0.value = abs;
+    a0.man = man;
+    array2 = ap_quasilinearize_lincons0_array(man,&a0,array,&exact,
 					      discr,linearize,true);
     res = meet_lincons_array(man,destructive,abs,&array2);
     if (!exact){
diff --git a/apron/ap_linearize_aux.c b/apron/ap_linearize_aux.c
index 6ad7cf4..7d44ead 100644
--- a/apron/ap_linearize_aux.c
+++ b/apron/ap_linearize_aux.c
@@ -231,7 +231,7 @@ ITVFUN(ap_quasilinearize_lincons0_array)(ap_manager_t* man,
   exact = quasilinearize_alloc(man,abs,&intern,&lincons,&env,&dim);
   itv_lincons_array_init(&tlincons,array->size);
   exact = itv_lincons_array_set_ap_lincons0_array(intern,&tlincons,array) && exact;
-  exact = itv_quasilinearize_lincons_array(intern,&tlincons,env,meet);
+  exact = itv_quasilinearize_lincons_array(intern,&tlincons,env,meet) && exact;
   if (linearize) 
     itv_linearize_lincons_array(intern,&tlincons,meet);
   res = ap_lincons0_array_make(tlincons.size);
@@ -240,6 +240,7 @@ ITVFUN(ap_quasilinearize_lincons0_array)(ap_manager_t* man,
   }
   itv_lincons_array_clear(&tlincons);
   quasilinearize_free(intern,&lincons,env,dim);
+  *pexact = exact;
   return res;
 }
 
-- 
2.43.0


From 5ed17816e74669bebb6f6275920ce1e06d6fd223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:32 +0000
Subject: [PATCH 28/30] fix: ap_quasilinearize_lincons0_array returned
 quasilinear constraints when asked for linear ones

---
 apron/ap_linearize.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apron/ap_linearize.c b/apron/ap_linearize.c
index 2ce2dd3..6cb4f5a 100644
--- a/apron/ap_linearize.c
+++ b/apron/ap_linearize.c
@@ -149,8 +149,8 @@ ap_quasilinearize_lincons0_array(ap_manager_t* man,
 				 bool meet)
 {
   ap_linexpr_type_t type = ap_lincons0_array_type(array);
-  if ((linearize && type==AP_LINEXPR_LINEAR) ||
-      type==AP_LINEXPR_QUASILINEAR){
+  if (type==AP_LINEXPR_LINEAR ||
+      (!linearize && type==AP_LINEXPR_QUASILINEAR)){
     *pexact = true;
     return *array;
   }
-- 
2.43.0


From c94b76460de60f5b05be9060d623230eb5dc4b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:57 +0000
Subject: [PATCH 29/30] fix: ap_lincons0_array_type always answered linear

---
 apron/ap_lincons0.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apron/ap_lincons0.c b/apron/ap_lincons0.c
index 0fc2150..7615f4a 100644
--- a/apron/ap_lincons0.c
+++ b/apron/ap_lincons0.c
@@ -266,7 +266,7 @@ ap_linexpr_type_t ap_lincons0_array_type(ap_lincons0_array_t* array)
   for (i=0; i<array->size; i++){
     ap_linexpr_type_t type = ap_linexpr0_type(array->p[i].linexpr0);
     if (type < res)
-      type = res;
+      res = type;
     if (res==AP_LINEXPR_INTLINEAR)
       break;
   }
-- 
2.43.0


From 16fa5d3ab6f8cbcaba6df464f75503eb00182174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:42 +0000
Subject: [PATCH 30/30] fix: octagon assignment with one unbounded term read
 scratch memory as its coefficient

---
 octagons/oct_transfer.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/octagons/oct_transfer.c b/octagons/oct_transfer.c
index 84dab6c..e0c544c 100644
--- a/octagons/oct_transfer.c
+++ b/octagons/oct_transfer.c
@@ -700,11 +700,11 @@ static void hmat_assign(oct_internal_t* pr, uexpr u, bound_t* m, size_t dim,
     else if (Cinf==1) {
       /* exactly one bound is infinite, X_d+/-X_Cinf may still be finite */
       if (Ci!=d) {
-	if (!bound_cmp_int(pr->tmp[2*i+3],1) &&
-	    !bound_cmp_int(pr->tmp[2*i+2],-1))
+	if (!bound_cmp_int(pr->tmp[2*Ci+3],1) &&
+	    !bound_cmp_int(pr->tmp[2*Ci+2],-1))
 	  bound_div_2(m[matpos2(2*Ci,2*d)],Cb);
-	else if (!bound_cmp_int(pr->tmp[2*i+3],-1) &&
-		 !bound_cmp_int(pr->tmp[2*i+2],1))
+	else if (!bound_cmp_int(pr->tmp[2*Ci+3],-1) &&
+		 !bound_cmp_int(pr->tmp[2*Ci+2],1))
 	  bound_div_2(m[matpos2(2*Ci+1,2*d)],Cb);
       }
     }
@@ -732,11 +732,11 @@ static void hmat_assign(oct_internal_t* pr, uexpr u, bound_t* m, size_t dim,
     else if (cinf==1) {
       /* exactly one bound is infinite, -X_d+/-X_Cinf may still be finite */
       if (ci!=d) {
-	if (!bound_cmp_int(pr->tmp[2*i+3],1) &&
-	    !bound_cmp_int(pr->tmp[2*i+2],-1))
+	if (!bound_cmp_int(pr->tmp[2*ci+3],1) &&
+	    !bound_cmp_int(pr->tmp[2*ci+2],-1))
 	  bound_div_2(m[matpos2(2*d,2*ci)],cb);
-	else if (!bound_cmp_int(pr->tmp[2*i+3],-1) &&
-		 !bound_cmp_int(pr->tmp[2*i+2],1))
+	else if (!bound_cmp_int(pr->tmp[2*ci+3],-1) &&
+		 !bound_cmp_int(pr->tmp[2*ci+2],1))
 	  bound_div_2(m[matpos2(2*d,2*ci+1)],cb);
       }
     }
-- 
2.43.0

