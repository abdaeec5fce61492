From a873a8c4e47d84647539d4510bfa88793278e332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:21 +0000
Subject: [PATCH 01/83] fix: isl_set_lift: handle empty sets

A set without any basic sets has no first basic set from which
the number of lifted local variables can be derived.
---
 isl_map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_map.c b/isl_map.c
index 5cb7a56..0465aca 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -11376,7 +11376,7 @@ __isl_give isl_set *isl_set_lift(__isl_take isl_set *set)
 	if (!set)
 		return NULL;
 
-	n_div = set->p[0]->n_div;
+	n_div = set->n == 0 ? 0 : set->p[0]->n_div;
 	space = isl_set_get_space(set);
 	space = isl_space_lift(space, n_div);
 	if (!space)
-- 
2.43.0


From 76cbb25bf34e6cb7a568d7416dd54934babc6221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:57 +0000
Subject: [PATCH 02/83] fix: isl_multi_pw_aff order maps: handle
 zero-dimensional functions

An isl_multi_pw_aff without output dimensions has an explicit domain,
which was ignored by isl_map_eq_at_multi_pw_aff,
isl_map_lex_*_at_multi_pw_aff and isl_multi_pw_aff_eq_map.
Furthermore, the non-strict lexicographic orders hold between
the (equal) zero-dimensional values.
---
 isl_aff.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/isl_aff.c b/isl_aff.c
index 6f3e7d7..a3e0eb9 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -7439,6 +7439,9 @@ __isl_give isl_pw_aff *isl_pw_aff_pullback_multi_pw_aff(
  * of "mpa1" and "mpa2" live in the same space, construct map space
  * between the domain spaces of "mpa1" and "mpa2" and call "order"
  * with this map space as extract argument.
+ * If "mpa1" and "mpa2" have an explicit domain (because they have
+ * no base expressions), then the "order" callback does not take into account
+ * these domains and they are applied to the result.
  */
 static __isl_give isl_map *isl_multi_pw_aff_order_map(
 	__isl_take isl_multi_pw_aff *mpa1, __isl_take isl_multi_pw_aff *mpa2,
@@ -7467,6 +7470,14 @@ static __isl_give isl_map *isl_multi_pw_aff_order_map(
 	space1 = isl_space_map_from_domain_and_range(space1, space2);
 
 	res = order(mpa1, mpa2, space1);
+	if (isl_multi_pw_aff_has_explicit_domain(mpa1)) {
+		isl_set *dom;
+
+		dom = isl_multi_pw_aff_domain(isl_multi_pw_aff_copy(mpa1));
+		res = isl_map_intersect_domain(res, dom);
+		dom = isl_multi_pw_aff_domain(isl_multi_pw_aff_copy(mpa2));
+		res = isl_map_intersect_range(res, dom);
+	}
 	isl_multi_pw_aff_free(mpa1);
 	isl_multi_pw_aff_free(mpa2);
 	return res;
@@ -7554,6 +7565,8 @@ __isl_give isl_map *isl_map_eq_at_multi_pw_aff(__isl_take isl_map *map,
  * then they need to satisfy "base", while "strict_base" needs to be satisfied
  * for other values of i.
  * If "base" is a strict order, then "base" and "strict_base" are the same.
+ * If there are no elements, then the (empty) sequences are equal and
+ * they therefore only satisfy the order if it is not strict.
  */
 static __isl_give isl_map *isl_multi_pw_aff_lex_map_on_space(
 	__isl_keep isl_multi_pw_aff *mpa1, __isl_keep isl_multi_pw_aff *mpa2,
@@ -7570,6 +7583,8 @@ static __isl_give isl_map *isl_multi_pw_aff_lex_map_on_space(
 	n = isl_multi_pw_aff_dim(mpa1, isl_dim_out);
 	if (n < 0)
 		space = isl_space_free(space);
+	if (n == 0 && base != strict_base)
+		return isl_map_universe(space);
 	res = isl_map_empty(isl_space_copy(space));
 	rest = isl_map_universe(space);
 
-- 
2.43.0


From be6391bf9857465761e486c29bf47252fc727fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:57 +0000
Subject: [PATCH 03/83] fix: isl_map_preimage_pw_multi_aff: update space for
 function without cells

If the isl_pw_multi_aff does not have any cells, then the empty result
still needs to live in the space with the specified tuple
replaced by the domain of the isl_pw_multi_aff.
---
 isl_map.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/isl_map.c b/isl_map.c
index 0465aca..9c2a80e 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -14091,10 +14091,13 @@ static __isl_give isl_map *isl_map_preimage_pw_multi_aff_aligned(
 		goto error;
 
 	if (pma->n == 0) {
+		isl_space *space;
+
+		space = isl_pw_multi_aff_get_domain_space(pma);
+		space = isl_space_set(isl_map_get_space(map), type, space);
 		isl_pw_multi_aff_free(pma);
-		res = isl_map_empty(isl_map_get_space(map));
 		isl_map_free(map);
-		return res;
+		return isl_map_empty(space);
 	}
 
 	res = isl_map_preimage_multi_aff(isl_map_copy(map), type,
-- 
2.43.0


From 60a2919fe2a28579bbf540e3148aba0181a7bdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:21 +0000
Subject: [PATCH 04/83] fix: isl_basic_map_underlying_set: always return a set

In particular, a map without parameters, input dimensions,
integer divisions and tuple identifiers also needs to be converted
to a set space.  Otherwise, isl_basic_map_gist (for example) fails
on a map with a zero-dimensional anonymous domain
if the context involves integer divisions.
---
 isl_map.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/isl_map.c b/isl_map.c
index 9c2a80e..d1f5e72 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -5620,10 +5620,12 @@ __isl_give isl_basic_set *isl_basic_map_underlying_set(
 	__isl_take isl_basic_map *bmap)
 {
 	isl_space *space;
+	isl_bool is_set;
 
-	if (!bmap)
+	is_set = isl_space_is_set(isl_basic_map_peek_space(bmap));
+	if (is_set < 0)
 		goto error;
-	if (bmap->dim->nparam == 0 && bmap->dim->n_in == 0 &&
+	if (is_set && bmap->dim->nparam == 0 && bmap->dim->n_in == 0 &&
 	    bmap->n_div == 0 &&
 	    !isl_space_is_named_or_nested(bmap->dim, isl_dim_in) &&
 	    !isl_space_is_named_or_nested(bmap->dim, isl_dim_out))
-- 
2.43.0


From eadb3fc33353f43356175a42eb05774bfbde083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:20 +0000
Subject: [PATCH 05/83] fix: uset_gist_full: handle context with empty tableau

If the tableau of the context turns out to be empty, then not all
constraints were added to it and freezing the constraints accessed
memory outside of the allocated array.
---
 isl_map_simplify.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/isl_map_simplify.c b/isl_map_simplify.c
index 72e0e9b..f4463a7 100644
--- a/isl_map_simplify.c
+++ b/isl_map_simplify.c
@@ -2518,6 +2518,9 @@ static __isl_give isl_basic_set *update_ineq_free(
  *
  * If there are any inequalities left, we construct a tableau for
  * the context and then add the inequalities of "bset".
+ * If the tableau for the context turns out to be empty,
+ * then not all constraints may have been added to it and
+ * the result is the empty set.
  * Before adding these inequalities, we freeze all constraints such that
  * they won't be considered redundant in terms of the constraints of "bset".
  * Then we detect all redundant constraints (among the
@@ -2567,6 +2570,10 @@ static __isl_give isl_basic_set *uset_gist_full(__isl_take isl_basic_set *bset,
 	combined = isl_basic_set_cow(isl_basic_set_copy(context));
 	combined = isl_basic_set_extend_constraints(combined, 0, bset->n_ineq);
 	tab = isl_tab_from_basic_set(combined, 0);
+	if (tab && tab->empty) {
+		isl_basic_set_free(combined);
+		return update_ineq_free(bset, ineq, context, row, tab);
+	}
 	for (i = 0; i < context_ineq; ++i)
 		if (isl_tab_freeze_constraint(tab, n_eq + i) < 0)
 			goto error;
-- 
2.43.0


From ece083c567b214e98b5cf8c521d3846a266d4480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:33 +0000
Subject: [PATCH 06/83] fix: fix_constant_divs: prevent fixing constraint from
 being considered redundant

If an integer division attains a fixed value, then a pair of opposite
inequality constraints is added and the facet of one of them is selected
in the tableau.  The other constraint could then be considered redundant
and was not taken into account during wrapping, such that coalescing
could introduce extra elements.
---
 isl_coalesce.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/isl_coalesce.c b/isl_coalesce.c
index 5d0d173..8daf41c 100644
--- a/isl_coalesce.c
+++ b/isl_coalesce.c
@@ -3051,6 +3051,10 @@ struct isl_expanded {
  * The facet corresponding to one of these two constraints is selected
  * in the tableau to ensure that the pair of inequality constraints
  * is treated as an equality constraint.
+ * The other constraint is frozen to prevent it from being considered
+ * redundant with respect to this equality constraint.
+ * Otherwise, it would be ignored during the coalescing detection and
+ * only one of the two constraints would be taken into account.
  *
  * The information in info->ineq is thrown away because it was
  * computed in terms of div constraints, while some of those
@@ -3088,8 +3092,12 @@ static isl_stat fix_constant_divs(struct isl_coalesce_info *info,
 		}
 		if (copy_ineq(info->tab, info->bmap) < 0)
 			break;
-		if (expanded[i].cst &&
-		    isl_tab_select_facet(info->tab, info->tab->n_con - 1) < 0)
+		if (!expanded[i].cst)
+			continue;
+		if (isl_tab_freeze_constraint(info->tab,
+						info->tab->n_con - 2) < 0)
+			break;
+		if (isl_tab_select_facet(info->tab, info->tab->n_con - 1) < 0)
 			break;
 	}
 
-- 
2.43.0


From 39b7e309a03ec86d43813efa4b9534b65ec5225a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:58 +0000
Subject: [PATCH 07/83] fix: cut_to_hyperplane: look up variable again after
 extending tableau

The call to isl_tab_extend_cons may reallocate the array of constraints
the variable points into.
---
 isl_tab.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/isl_tab.c b/isl_tab.c
index 5f528f9..b8a0978 100644
--- a/isl_tab.c
+++ b/isl_tab.c
@@ -2684,12 +2684,16 @@ static isl_stat drop_last_con_in_row(struct isl_tab *tab, int r)
  * If the new variable cannot attain non-negative values, then
  * the resulting tableau is empty.
  * Otherwise, we know the value will be zero and we close the row.
+ *
+ * Note that extending the tableau may invalidate "var",
+ * so it needs to be looked up again.
  */
 static isl_stat cut_to_hyperplane(struct isl_tab *tab, struct isl_tab_var *var)
 {
 	unsigned r;
 	isl_int *row;
 	int sgn;
+	int is_row, index;
 	unsigned off = 2 + tab->M;
 
 	if (var->is_zero)
@@ -2699,8 +2703,12 @@ static isl_stat cut_to_hyperplane(struct isl_tab *tab, struct isl_tab_var *var)
 			"expecting non-redundant non-negative variable",
 			return isl_stat_error);
 
+	is_row = var->is_row;
+	index = var->index;
 	if (isl_tab_extend_cons(tab, 1) < 0)
 		return isl_stat_error;
+	var = is_row ? isl_tab_var_from_row(tab, index) :
+			var_from_col(tab, index);
 
 	r = tab->n_con;
 	tab->con[r].index = tab->n_row;
-- 
2.43.0


From d4c1d01f8dcef4afaffd1dc91a212de970c3391b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:44 +0000
Subject: [PATCH 08/83] fix: unshifted_simple_hull_from_set_list: handle
 emptiness revealed by div alignment

---
 isl_convex_hull.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/isl_convex_hull.c b/isl_convex_hull.c
index a15092e..3025436 100644
--- a/isl_convex_hull.c
+++ b/isl_convex_hull.c
@@ -2941,6 +2941,7 @@ error:
  * If the list is empty, then we can only describe the universe set.
  * If the input map is empty, then all constraints are valid, so
  * we return the intersection of the elements in "list".
+ * Note that the alignment of the divs may reveal that the map is empty.
  *
  * Otherwise, we align all divs and temporarily treat them
  * as regular variables, computing the unshifted simple hull in
@@ -2967,14 +2968,14 @@ static __isl_give isl_basic_map *map_unshifted_simple_hull_from_basic_map_list(
 		isl_basic_map_list_free(list);
 		return isl_basic_map_universe(space);
 	}
-	if (isl_map_plain_is_empty(map)) {
-		isl_map_free(map);
-		return isl_basic_map_list_intersect(list);
-	}
 
 	map = isl_map_align_divs_to_basic_map_list(map, list);
 	if (!map)
 		goto error;
+	if (isl_map_plain_is_empty(map)) {
+		isl_map_free(map);
+		return isl_basic_map_list_intersect(list);
+	}
 	list = isl_basic_map_list_align_divs_to_basic_map(list, map->p[0]);
 
 	model = isl_basic_map_list_get_basic_map(list, 0);
-- 
2.43.0


From 663123edcb910a35ebeb5437861b1d01b73bd21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:41 +0000
Subject: [PATCH 09/83] fix: common_constraints: only consider irredundant
 constraints to be facets

---
 isl_convex_hull.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/isl_convex_hull.c b/isl_convex_hull.c
index 3025436..289b972 100644
--- a/isl_convex_hull.c
+++ b/isl_convex_hull.c
@@ -1678,9 +1678,14 @@ static __isl_give isl_basic_set *common_constraints(
 
 	n = 0;
 	for (s = 0; s < set->n; ++s) {
+		isl_bool facets;
+
 		if (s == best)
 			continue;
 
+		facets = has_facets(set->p[s]);
+		if (facets < 0)
+			goto error;
 		for (i = 0; i < set->p[s]->n_eq; ++i) {
 			isl_int *eq = set->p[s]->eq[i];
 			for (j = 0; j < 2; ++j) {
@@ -1693,7 +1698,7 @@ static __isl_give isl_basic_set *common_constraints(
 		for (i = 0; i < set->p[s]->n_ineq; ++i) {
 			isl_int *ineq = set->p[s]->ineq[i];
 			if (update_constraint(hull->ctx, table, ineq, total, n,
-					set->p[s]->n_eq == 0) < 0)
+					facets) < 0)
 				goto error;
 		}
 		++n;
-- 
2.43.0


From 1e1253eff0123ac60edabf6e5e94d31b46c0dcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:48 +0000
Subject: [PATCH 10/83] fix: isl_set_opt: ignore value of empty first disjunct

---
 isl_ilp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/isl_ilp.c b/isl_ilp.c
index 2c004ef..3ea2d98 100644
--- a/isl_ilp.c
+++ b/isl_ilp.c
@@ -456,9 +456,10 @@ static enum isl_lp_result isl_set_opt_aligned(__isl_keep isl_set *set, int max,
 		}
 		if (res == isl_lp_empty)
 			continue;
-		empty = 0;
-		if (max ? isl_int_gt(opt_i, *opt) : isl_int_lt(opt_i, *opt))
+		if (empty || (max ? isl_int_gt(opt_i, *opt) :
+				    isl_int_lt(opt_i, *opt)))
 			isl_int_set(*opt, opt_i);
+		empty = 0;
 	}
 	isl_int_clear(opt_i);
 
-- 
2.43.0


From dbadfdc384c36a6def02417fa2ac7aff5f7c1f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:20 +0000
Subject: [PATCH 11/83] fix: isl_pw_aff_gt_set: compare rational values
 correctly

---
 isl_aff.c | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/isl_aff.c b/isl_aff.c
index a3e0eb9..faf54ab 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -2995,7 +2995,7 @@ __isl_give isl_set *isl_pw_aff_bind_id(__isl_take isl_pw_aff *pa,
  *
  * We compute the difference on the shared domain and then construct
  * the set of values where this difference is non-negative.
- * If strict is set, we first subtract 1 from the difference.
+ * If strict is set, the difference is required to be positive instead.
  * If equal is set, we only return the elements where pwaff1 and pwaff2
  * are equal.
  */
@@ -3008,20 +3008,13 @@ static __isl_give isl_set *pw_aff_gte_set(__isl_take isl_pw_aff *pwaff1,
 	set2 = isl_pw_aff_domain(isl_pw_aff_copy(pwaff2));
 	set1 = isl_set_intersect(set1, set2);
 	pwaff1 = isl_pw_aff_intersect_domain(pwaff1, isl_set_copy(set1));
-	pwaff2 = isl_pw_aff_intersect_domain(pwaff2, isl_set_copy(set1));
+	pwaff2 = isl_pw_aff_intersect_domain(pwaff2, set1);
 	pwaff1 = isl_pw_aff_add(pwaff1, isl_pw_aff_neg(pwaff2));
 
-	if (strict) {
-		isl_space *space = isl_set_get_space(set1);
-		isl_aff *aff;
-		aff = isl_aff_zero_on_domain(isl_local_space_from_space(space));
-		aff = isl_aff_add_constant_si(aff, -1);
-		pwaff1 = isl_pw_aff_add(pwaff1, isl_pw_aff_alloc(set1, aff));
-	} else
-		isl_set_free(set1);
-
 	if (equal)
 		return isl_pw_aff_zero_set(pwaff1);
+	if (strict)
+		return isl_pw_aff_pos_set(pwaff1);
 	return isl_pw_aff_nonneg_set(pwaff1);
 }
 
-- 
2.43.0


From b4c16a68560e6465e13e12a7dc6d7ba2e0468998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:10 +0000
Subject: [PATCH 12/83] fix: isl_val_gcd: return non-negative result for equal
 negative arguments

---
 isl_val.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_val.c b/isl_val.c
index 8b77622..c95d462 100644
--- a/isl_val.c
+++ b/isl_val.c
@@ -1022,7 +1022,7 @@ __isl_give isl_val *isl_val_gcd(__isl_take isl_val *v1, __isl_take isl_val *v2)
 			"expecting two integers", goto error);
 	if (isl_val_eq(v1, v2)) {
 		isl_val_free(v2);
-		return v1;
+		return isl_val_abs(v1);
 	}
 	if (isl_val_is_one(v1)) {
 		isl_val_free(v2);
-- 
2.43.0


From 19b0a71967072c6f2c40bcc0e13f53d9e36b92ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:50 +0000
Subject: [PATCH 13/83] fix: isl_mat_normalize: do not divide zero matrix by
 zero

---
 isl_mat.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/isl_mat.c b/isl_mat.c
index 37468ee..e630fc1 100644
--- a/isl_mat.c
+++ b/isl_mat.c
@@ -1994,7 +1994,8 @@ __isl_give isl_mat *isl_mat_normalize(__isl_take isl_mat *mat)
 
 	isl_int_init(gcd);
 	isl_mat_gcd(mat, &gcd);
-	mat = isl_mat_scale_down(mat, gcd);
+	if (!isl_int_is_zero(gcd))
+		mat = isl_mat_scale_down(mat, gcd);
 	isl_int_clear(gcd);
 
 	return mat;
-- 
2.43.0


From abd44529e5cb9e007545855459b2fe5a963616b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:50 +0000
Subject: [PATCH 14/83] fix: isl_vec_sort: do not modify other references

---
 isl_vec.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/isl_vec.c b/isl_vec.c
index 323015b..90fa328 100644
--- a/isl_vec.c
+++ b/isl_vec.c
@@ -524,9 +524,10 @@ static int qsort_int_cmp(const void *p1, const void *p2)
 
 __isl_give isl_vec *isl_vec_sort(__isl_take isl_vec *vec)
 {
+	vec = isl_vec_cow(vec);
 	if (!vec)
 		return NULL;
-	
+
 	qsort(vec->el, vec->size, sizeof(*vec->el), &qsort_int_cmp);
 
 	return vec;
-- 
2.43.0


From 158db7778a297fbb34efbe4bade0eae704a25faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:50 +0000
Subject: [PATCH 15/83] fix: isl_vec_normalize: do not modify other references

---
 isl_vec.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/isl_vec.c b/isl_vec.c
index 90fa328..5f4b20a 100644
--- a/isl_vec.c
+++ b/isl_vec.c
@@ -455,6 +455,7 @@ __isl_give isl_vec *isl_vec_ceil(__isl_take isl_vec *vec)
 
 __isl_give isl_vec *isl_vec_normalize(__isl_take isl_vec *vec)
 {
+	vec = isl_vec_cow(vec);
 	if (!vec)
 		return NULL;
 	isl_seq_normalize(vec->ctx, vec->el, vec->size);
-- 
2.43.0


From b835d5824545f650ed6fa473f7da323a359c0c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:50 +0000
Subject: [PATCH 16/83] fix: isl_mat_unimodular_complete: do not modify other
 references

---
 isl_mat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/isl_mat.c b/isl_mat.c
index e630fc1..4fa96f0 100644
--- a/isl_mat.c
+++ b/isl_mat.c
@@ -1739,6 +1739,7 @@ __isl_give isl_mat *isl_mat_unimodular_complete(__isl_take isl_mat *M, int row)
 	int r;
 	struct isl_mat *H = NULL, *Q = NULL;
 
+	M = isl_mat_cow(M);
 	if (!M)
 		return NULL;
 
-- 
2.43.0


From 5f5901fc83e62264e8603333f769e57009bc1300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:43 +0000
Subject: [PATCH 17/83] fix: handle the explicit domain of zero-dimensional
 multi expressions

isl_multi_*_realign_domain did not realign the explicit domain,
isl_multi_pw_aff_isa_multi_aff and isl_multi_pw_aff_is_equal
ignored it.
---
 isl_aff.c                                |  8 ++++++++
 isl_multi_explicit_domain.c              | 14 --------------
 isl_multi_no_explicit_domain.c           |  8 ++++----
 isl_multi_pw_aff_explicit_domain.c       | 12 ++++++++++++
 isl_multi_templ.c                        | 13 ++++---------
 isl_multi_union_pw_aff_explicit_domain.c | 15 +++++++++++++++
 6 files changed, 43 insertions(+), 27 deletions(-)

diff --git a/isl_aff.c b/isl_aff.c
index faf54ab..b91b861 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -6703,6 +6703,11 @@ error:
  */
 isl_bool isl_multi_pw_aff_isa_multi_aff(__isl_keep isl_multi_pw_aff *mpa)
 {
+	isl_bool has_domain;
+
+	has_domain = isl_multi_pw_aff_has_non_trivial_domain(mpa);
+	if (has_domain < 0 || has_domain)
+		return isl_bool_not(has_domain);
 	return isl_multi_pw_aff_every(mpa, &isl_pw_aff_isa_aff);
 }
 
@@ -7192,6 +7197,9 @@ isl_bool isl_multi_pw_aff_is_equal(__isl_keep isl_multi_pw_aff *mpa1,
 			return equal;
 	}
 
+	if (isl_multi_pw_aff_has_explicit_domain(mpa1))
+		return isl_multi_pw_aff_equal_explicit_domain(mpa1, mpa2);
+
 	return isl_bool_true;
 }
 
diff --git a/isl_multi_explicit_domain.c b/isl_multi_explicit_domain.c
index bb65823..c8941ab 100644
--- a/isl_multi_explicit_domain.c
+++ b/isl_multi_explicit_domain.c
@@ -120,20 +120,6 @@ static __isl_give MULTI(BASE) *FN(MULTI(BASE),copy_explicit_domain)(
 	return dst;
 }
 
-/* Align the parameters of the explicit domain of "multi" to those of "space".
- */
-static __isl_give MULTI(BASE) *FN(MULTI(BASE),align_explicit_domain_params)(
-	__isl_take MULTI(BASE) *multi, __isl_take isl_space *space)
-{
-	DOM *dom;
-
-	dom = FN(MULTI(BASE),get_explicit_domain)(multi);
-	dom = FN(DOM,align_params)(dom, space);
-	multi = FN(MULTI(BASE),set_explicit_domain)(multi, dom);
-
-	return multi;
-}
-
 /* Replace the space of the explicit domain of "multi" by "space",
  * without modifying its dimension.
  */
diff --git a/isl_multi_no_explicit_domain.c b/isl_multi_no_explicit_domain.c
index cba4387..83683fc 100644
--- a/isl_multi_no_explicit_domain.c
+++ b/isl_multi_no_explicit_domain.c
@@ -73,13 +73,13 @@ FN(MULTI(BASE),intersect_explicit_domain_product)(
 	return dst;
 }
 
-/* Align the parameters of the explicit domain of "multi" to those of "space".
+/* Realign the explicit domain of "multi" based on the reordering "r".
  * "multi" cannot have an explicit domain, so this function is never called.
  */
-static __isl_give MULTI(BASE) *FN(MULTI(BASE),align_explicit_domain_params)(
-	__isl_take MULTI(BASE) *multi, __isl_take isl_space *space)
+static __isl_give MULTI(BASE) *FN(MULTI(BASE),realign_explicit_domain)(
+	__isl_take MULTI(BASE) *multi, __isl_take isl_reordering *r)
 {
-	isl_space_free(space);
+	isl_reordering_free(r);
 	return multi;
 }
 
diff --git a/isl_multi_pw_aff_explicit_domain.c b/isl_multi_pw_aff_explicit_domain.c
index e9efea0..9a2b2dc 100644
--- a/isl_multi_pw_aff_explicit_domain.c
+++ b/isl_multi_pw_aff_explicit_domain.c
@@ -69,6 +69,18 @@ isl_bool isl_multi_pw_aff_involves_explicit_domain_dims(
 	return isl_set_involves_dims(mpa->u.dom, type, pos, n);
 }
 
+/* Realign the explicit domain of "mpa" based on the reordering "r".
+ */
+static __isl_give isl_multi_pw_aff *isl_multi_pw_aff_realign_explicit_domain(
+	__isl_take isl_multi_pw_aff *mpa, __isl_take isl_reordering *r)
+{
+	isl_set *dom;
+
+	dom = isl_multi_pw_aff_get_explicit_domain(mpa);
+	dom = isl_set_realign(dom, r);
+	return isl_multi_pw_aff_set_explicit_domain(mpa, dom);
+}
+
 /* Insert "n" dimensions of type "type" at position "pos"
  * of the explicit domain of "mpa".
  */
diff --git a/isl_multi_templ.c b/isl_multi_templ.c
index 93e9559..5a35a38 100644
--- a/isl_multi_templ.c
+++ b/isl_multi_templ.c
@@ -461,6 +461,10 @@ __isl_give MULTI(BASE) *FN(MULTI(BASE),realign_domain)(
 		multi = FN(MULTI(BASE),restore_at)(multi, i, el);
 	}
 
+	if (FN(MULTI(BASE),has_explicit_domain)(multi))
+		multi = FN(MULTI(BASE),realign_explicit_domain)(multi,
+						isl_reordering_copy(exp));
+
 	space = isl_reordering_get_space(exp);
 	multi = FN(MULTI(BASE),reset_domain_space)(multi, space);
 
@@ -473,9 +477,6 @@ error:
 }
 
 /* Align the parameters of "multi" to those of "model".
- *
- * If "multi" has an explicit domain, then align the parameters
- * of the domain first.
  */
 __isl_give MULTI(BASE) *FN(MULTI(BASE),align_params)(
 	__isl_take MULTI(BASE) *multi, __isl_take isl_space *model)
@@ -504,12 +505,6 @@ __isl_give MULTI(BASE) *FN(MULTI(BASE),align_params)(
 		isl_die(ctx, isl_error_invalid,
 			"input has unnamed parameters", goto error);
 
-	if (FN(MULTI(BASE),has_explicit_domain)(multi)) {
-		multi = FN(MULTI(BASE),align_explicit_domain_params)(multi,
-							isl_space_copy(model));
-		if (!multi)
-			goto error;
-	}
 	domain_space = FN(MULTI(BASE),get_domain_space)(multi);
 	exp = isl_parameter_alignment_reordering(domain_space, model);
 	isl_space_free(domain_space);
diff --git a/isl_multi_union_pw_aff_explicit_domain.c b/isl_multi_union_pw_aff_explicit_domain.c
index 7ff9b12..e1d20f1 100644
--- a/isl_multi_union_pw_aff_explicit_domain.c
+++ b/isl_multi_union_pw_aff_explicit_domain.c
@@ -27,6 +27,21 @@ isl_multi_union_pw_aff_init_explicit_domain(
 	return mupa;
 }
 
+/* Realign the explicit domain of "mupa" based on the reordering "r".
+ * Only the parameters may get reordered.
+ */
+static __isl_give isl_multi_union_pw_aff *
+isl_multi_union_pw_aff_realign_explicit_domain(
+	__isl_take isl_multi_union_pw_aff *mupa, __isl_take isl_reordering *r)
+{
+	isl_union_set *dom;
+
+	dom = isl_multi_union_pw_aff_get_explicit_domain(mupa);
+	dom = isl_union_set_align_params(dom, isl_reordering_get_space(r));
+	isl_reordering_free(r);
+	return isl_multi_union_pw_aff_set_explicit_domain(mupa, dom);
+}
+
 /* Drop the "n" dimensions of type "type" starting at position "pos"
  * of the explicit domain of "mupa".
  */
-- 
2.43.0


From faf283e84446201b1851c78992cf32ee4f4909da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:13 +0000
Subject: [PATCH 18/83] fix: isl_map_intersect_{domain,range}_wrapped_domain:
 handle named wrapped tuple

---
 isl_map.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/isl_map.c b/isl_map.c
index d1f5e72..3a3e48e 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -8557,6 +8557,16 @@ __isl_give isl_set *isl_set_intersect_factor_range(__isl_take isl_set *set,
 						set_to_map(range), &control));
 }
 
+/* Copy the identifier of tuple "type" in "space" to that of "set",
+ * if there is any such identifier.
+ */
+static __isl_give isl_set *isl_set_copy_tuple_id(__isl_take isl_set *set,
+	__isl_keep isl_space *space, enum isl_dim_type type)
+{
+	return set_from_map(isl_map_copy_tuple_id(set_to_map(set), isl_dim_set,
+						space, type));
+}
+
 /* Given a map "map" in a space [A -> B] -> C and a set "domain"
  * in the space A, return the intersection.
  *
@@ -8574,6 +8584,8 @@ __isl_give isl_map *isl_map_intersect_domain_wrapped_domain(
 	space = isl_space_domain_wrapped_range(space);
 	factor = isl_set_universe(space);
 	domain = isl_set_product(domain, factor);
+	domain = isl_set_copy_tuple_id(domain, isl_map_peek_space(map),
+					isl_dim_in);
 	return isl_map_intersect_domain(map, domain);
 }
 
@@ -8594,6 +8606,8 @@ __isl_give isl_map *isl_map_intersect_range_wrapped_domain(
 	space = isl_space_range_wrapped_range(space);
 	factor = isl_set_universe(space);
 	domain = isl_set_product(domain, factor);
+	domain = isl_set_copy_tuple_id(domain, isl_map_peek_space(map),
+					isl_dim_out);
 	return isl_map_intersect_range(map, domain);
 }
 
-- 
2.43.0


From ee57dae9671b4d388fc759d1dbcfbe9058bdfa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:13 +0000
Subject: [PATCH 19/83] fix: isl_multi_union_pw_aff_extract_multi_pw_aff:
 handle explicit domain

---
 isl_aff.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/isl_aff.c b/isl_aff.c
index b91b861..4ce0018 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -9846,6 +9846,35 @@ error:
 	return NULL;
 }
 
+/* Intersect the domain of the zero-dimensional "mpa", which has been extracted
+ * from the zero-dimensional "mupa", with the explicit domain of "mupa".
+ * This explicit domain may only have constraints on the parameters.
+ */
+static __isl_give isl_multi_pw_aff *intersect_domain_0D(
+	__isl_take isl_multi_pw_aff *mpa,
+	__isl_keep isl_multi_union_pw_aff *mupa)
+{
+	isl_bool is_params;
+	isl_space *space;
+	isl_union_set *dom;
+	isl_set *set;
+
+	dom = isl_multi_union_pw_aff_get_explicit_domain(mupa);
+	is_params = isl_union_set_is_params(dom);
+	if (is_params < 0) {
+		isl_union_set_free(dom);
+		return isl_multi_pw_aff_free(mpa);
+	}
+	if (is_params) {
+		set = isl_union_set_params(dom);
+		return isl_multi_pw_aff_intersect_params(mpa, set);
+	}
+	space = isl_multi_pw_aff_get_domain_space(mpa);
+	set = isl_union_set_extract_set(dom, space);
+	isl_union_set_free(dom);
+	return isl_multi_pw_aff_intersect_domain(mpa, set);
+}
+
 /* Extract the sequence of elements in "mupa" with domain space "space"
  * (ignoring parameters).
  *
@@ -9884,6 +9913,8 @@ __isl_give isl_multi_pw_aff *isl_multi_union_pw_aff_extract_multi_pw_aff(
 	}
 
 	isl_space_free(space);
+	if (n == 0)
+		mpa = intersect_domain_0D(mpa, mupa);
 	return mpa;
 error:
 	isl_space_free(space);
-- 
2.43.0


From d824e45a757fa547646712e043ac8eb52b5d1b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:17 +0000
Subject: [PATCH 20/83] fix: isl_pw_*_fix_val: process pieces in reverse order
 since they may get removed

---
 isl_pw_templ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_pw_templ.c b/isl_pw_templ.c
index 4dd403f..267059a 100644
--- a/isl_pw_templ.c
+++ b/isl_pw_templ.c
@@ -1518,7 +1518,7 @@ __isl_give PW *FN(PW,fix_dim)(__isl_take PW *pw,
 	if (type == isl_dim_in)
 		type = isl_dim_set;
 
-	for (i = 0; i < n; ++i) {
+	for (i = n - 1; i >= 0; --i) {
 		isl_set *domain;
 
 		domain = FN(PW,take_domain_at)(pw, i);
-- 
2.43.0


From a422fcfddf02a65c4b7f0ac6f75322eda4ec670a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:17 +0000
Subject: [PATCH 21/83] fix: isl_pw_*_split_dims: split the domain of every
 piece

---
 isl_pw_templ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_pw_templ.c b/isl_pw_templ.c
index 267059a..b6668eb 100644
--- a/isl_pw_templ.c
+++ b/isl_pw_templ.c
@@ -1571,7 +1571,7 @@ __isl_give PW *FN(PW,split_dims)(__isl_take PW *pw,
 	if (type == isl_dim_in)
 		type = isl_dim_set;
 
-	for (i = 0; i < n; ++i) {
+	for (i = 0; i < n_piece; ++i) {
 		isl_set *domain;
 
 		domain = FN(PW,take_domain_at)(pw, i);
-- 
2.43.0


From 4676d733e80be6b2697c095afe6865534c8871f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:57 +0000
Subject: [PATCH 22/83] fix: isl_basic_map_from_qpolynomial: handle nested
 integer divisions

---
 isl_polynomial.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/isl_polynomial.c b/isl_polynomial.c
index 45c598f..5ee6e77 100644
--- a/isl_polynomial.c
+++ b/isl_polynomial.c
@@ -5203,8 +5203,10 @@ __isl_give isl_basic_map *isl_basic_map_from_qpolynomial(
 		k = isl_basic_map_alloc_div(bmap);
 		if (k < 0)
 			goto error;
-		isl_seq_cpy(bmap->div[k], qp->div->row[i], qp->div->n_col);
-		isl_int_set_si(bmap->div[k][qp->div->n_col], 0);
+		isl_seq_cpy(bmap->div[k], qp->div->row[i], 1 + pos);
+		isl_int_set_si(bmap->div[k][1 + pos], 0);
+		isl_seq_cpy(bmap->div[k] + 1 + pos + 1,
+				qp->div->row[i] + 1 + pos, n_div);
 		bmap = isl_basic_map_add_div_constraints(bmap, k);
 	}
 	k = isl_basic_map_alloc_equality(bmap);
-- 
2.43.0


From 9c6df6696fd2cf461bd518977a36bfc3e1153c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:36 +0000
Subject: [PATCH 23/83] fix: isl_qpolynomial: keep nested integer divisions
 consistent when sorting them

---
 isl_polynomial.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_polynomial.c b/isl_polynomial.c
index 5ee6e77..f3784fc 100644
--- a/isl_polynomial.c
+++ b/isl_polynomial.c
@@ -1540,6 +1540,8 @@ static __isl_give isl_qpolynomial *sort_divs(__isl_take isl_qpolynomial *qp)
 		if (pos[array[i].row] == i)
 			continue;
 		qp->div = isl_mat_swap_rows(qp->div, i, pos[array[i].row]);
+		qp->div = isl_mat_swap_cols(qp->div, 2 + div_pos + i,
+					2 + div_pos + pos[array[i].row]);
 		pos[at[i]] = pos[array[i].row];
 		at[pos[array[i].row]] = at[i];
 		at[i] = array[i].row;
-- 
2.43.0


From e3c2ed47cbd29f700fab96a15d2cc26b108d9d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:24 +0000
Subject: [PATCH 24/83] fix: isl_pw_qpolynomial_split_periods: do not modify
 shared integer divisions

---
 isl_polynomial.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/isl_polynomial.c b/isl_polynomial.c
index f3784fc..c665615 100644
--- a/isl_polynomial.c
+++ b/isl_polynomial.c
@@ -4580,9 +4580,13 @@ static isl_stat set_div(__isl_take isl_set *set,
 	slice = set_div_slice(isl_set_get_space(set), qp, div, v);
 	set = isl_set_intersect(set, slice);
 
+	qp = isl_qpolynomial_cow(qp);
 	div_pos = isl_qpolynomial_domain_var_offset(qp, isl_dim_div);
 	if (div_pos < 0)
 		goto error;
+	qp->div = isl_mat_cow(qp->div);
+	if (!qp->div)
+		goto error;
 
 	for (i = div + 1; i < qp->div->n_row; ++i) {
 		if (isl_int_is_zero(qp->div->row[i][2 + div_pos + div]))
-- 
2.43.0


From 88e9a5f4cbf606e11affb20b60a4541c21b59fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:54 +0000
Subject: [PATCH 25/83] fix: isl_qpolynomial_aff_sign: ignore denominator when
 computing the sign

The optimum returned by isl_set_solve_lp is rounded to an integer, such that
small negative (positive) values were considered non-negative (non-positive).
---
 isl_fold.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/isl_fold.c b/isl_fold.c
index 2d7f85c..1ad097e 100644
--- a/isl_fold.c
+++ b/isl_fold.c
@@ -8,6 +8,7 @@
  * 91893 Orsay, France 
  */
 
+#include <isl_ctx_private.h>
 #include <isl_map_private.h>
 #include <isl_union_map_private.h>
 #include <isl_polynomial_private.h>
@@ -468,10 +469,18 @@ static int isl_qpolynomial_cst_sign(__isl_keep isl_qpolynomial *qp)
 	return isl_int_sgn(cst->n) < 0 ? -1 : 1;
 }
 
+/* Determine, if possible, the sign of the affine quasipolynomial "qp" on
+ * the domain "set".
+ *
+ * Since the denominator of "qp" is positive, it has no effect on the sign.
+ * Ignore it because the optimum returned by isl_set_solve_lp
+ * is rounded to an integer.
+ */
 static int isl_qpolynomial_aff_sign(__isl_keep isl_set *set,
 	__isl_keep isl_qpolynomial *qp)
 {
 	enum isl_lp_result res;
+	isl_ctx *ctx;
 	isl_vec *aff;
 	isl_int opt;
 	int sgn = 0;
@@ -480,9 +489,10 @@ static int isl_qpolynomial_aff_sign(__isl_keep isl_set *set,
 	if (!aff)
 		return 0;
 
+	ctx = isl_vec_get_ctx(aff);
 	isl_int_init(opt);
 
-	res = isl_set_solve_lp(set, 0, aff->el + 1, aff->el[0],
+	res = isl_set_solve_lp(set, 0, aff->el + 1, ctx->one,
 				&opt, NULL, NULL);
 	if (res == isl_lp_error)
 		goto done;
@@ -492,7 +502,7 @@ static int isl_qpolynomial_aff_sign(__isl_keep isl_set *set,
 		goto done;
 	}
 
-	res = isl_set_solve_lp(set, 1, aff->el + 1, aff->el[0],
+	res = isl_set_solve_lp(set, 1, aff->el + 1, ctx->one,
 				&opt, NULL, NULL);
 	if (res == isl_lp_ok && !isl_int_is_pos(opt))
 		sgn = -1;
-- 
2.43.0


From 138e18ef3980fd10c079d90be060aa78084facde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:54 +0000
Subject: [PATCH 26/83] fix: isl_qpolynomial_substitute_equalities: do not
 modify shared basic set

The equality constraints are modified during the substitution,
while they may be shared by several polynomials in a reduction.
---
 isl_polynomial.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/isl_polynomial.c b/isl_polynomial.c
index c665615..886eb4c 100644
--- a/isl_polynomial.c
+++ b/isl_polynomial.c
@@ -2994,6 +2994,9 @@ static __isl_give isl_qpolynomial *isl_qpolynomial_substitute_equalities_lifted(
 	qp->div = isl_mat_cow(qp->div);
 	if (!qp->div)
 		goto error;
+	eq = isl_basic_set_cow(eq);
+	if (!eq)
+		goto error;
 
 	total = isl_basic_set_offset(eq, isl_dim_div);
 	n_div = eq->n_div;
-- 
2.43.0


From 314012008111b71ab179cbdc5a0c53d89173ec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:54 +0000
Subject: [PATCH 27/83] fix: isl_pw_qpolynomial_fold_{max,min}: handle opposite
 type of reduction

The maximum of a minimum (or vice versa) cannot be computed by optimizing
the elements of the reduction separately.
---
 isl_fold.c | 64 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 64 insertions(+)

diff --git a/isl_fold.c b/isl_fold.c
index 1ad097e..59fc09f 100644
--- a/isl_fold.c
+++ b/isl_fold.c
@@ -1459,6 +1459,65 @@ size_t isl_pw_qpolynomial_fold_size(__isl_keep isl_pw_qpolynomial_fold *pwf)
 	return n;
 }
 
+/* Internal data structure for isl_qpolynomial_fold_scan_opt_on_domain.
+ *
+ * "fold" is the reduction that is being optimized.
+ * "max" is set if the maximum needs to be computed.
+ * "opt" is the optimal value found so far, or NULL
+ * if no element of the domain has been considered yet.
+ */
+struct isl_fold_scan_opt_data {
+	isl_qpolynomial_fold *fold;
+	int max;
+	isl_val *opt;
+};
+
+/* Update data->opt with the value of data->fold at "pnt".
+ */
+static isl_stat fold_scan_opt_fn(__isl_take isl_point *pnt, void *user)
+{
+	struct isl_fold_scan_opt_data *data = user;
+	isl_val *val;
+
+	val = isl_qpolynomial_fold_eval(
+				isl_qpolynomial_fold_copy(data->fold), pnt);
+	if (!data->opt)
+		data->opt = val;
+	else if (data->max)
+		data->opt = isl_val_max(data->opt, val);
+	else
+		data->opt = isl_val_min(data->opt, val);
+
+	return isl_stat_non_null(data->opt);
+}
+
+/* Compute the maximum (if "max" is set) or minimum of "fold" over "set"
+ * by evaluating "fold" on all elements of "set" or
+ * return zero if "set" is empty.
+ */
+static __isl_give isl_val *isl_qpolynomial_fold_scan_opt_on_domain(
+	__isl_take isl_qpolynomial_fold *fold, __isl_take isl_set *set, int max)
+{
+	struct isl_fold_scan_opt_data data = { fold, max, NULL };
+
+	if (isl_set_foreach_point(set, &fold_scan_opt_fn, &data) < 0)
+		data.opt = isl_val_free(data.opt);
+	else if (!data.opt)
+		data.opt = isl_val_zero(isl_set_get_ctx(set));
+
+	isl_set_free(set);
+	isl_qpolynomial_fold_free(fold);
+
+	return data.opt;
+}
+
+/* Compute the maximum (if "max" is set) or minimum of "fold" over "set" or
+ * return zero if "set" is empty.
+ *
+ * The maximum of a maximum is the maximum over all elements in the list and
+ * similarly for the minimum of a minimum.
+ * In the other cases, the list elements cannot be handled separately.
+ */
 __isl_give isl_val *isl_qpolynomial_fold_opt_on_domain(
 	__isl_take isl_qpolynomial_fold *fold, __isl_take isl_set *set, int max)
 {
@@ -1467,12 +1526,17 @@ __isl_give isl_val *isl_qpolynomial_fold_opt_on_domain(
 	isl_val *opt;
 	isl_qpolynomial *qp;
 	isl_qpolynomial_list *list;
+	enum isl_fold type;
 
 	list = isl_qpolynomial_fold_peek_list(fold);
 	n = isl_qpolynomial_list_size(list);
 	if (!set || n < 0)
 		goto error;
 
+	type = isl_qpolynomial_fold_get_type(fold);
+	if (n > 1 && type != (max ? isl_fold_max : isl_fold_min))
+		return isl_qpolynomial_fold_scan_opt_on_domain(fold, set, max);
+
 	if (n == 0) {
 		opt = isl_val_zero(isl_set_get_ctx(set));
 		isl_set_free(set);
-- 
2.43.0


From bff7eda9cd0e4288992855ebe0dde7e1c25ef84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:54 +0000
Subject: [PATCH 28/83] fix: isl_range.c: only plug in non-integer bound on
 variables with linear occurrences

The monotonicity is only determined for steps between integer values.
---
 isl_range.c | 72 +++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 70 insertions(+), 2 deletions(-)

diff --git a/isl_range.c b/isl_range.c
index 5bcfcff..15e2379 100644
--- a/isl_range.c
+++ b/isl_range.c
@@ -334,11 +334,72 @@ error:
 	return NULL;
 }
 
+/* Internal data structure for is_linear_at_pos.
+ *
+ * "pos" is the position of the variable of interest.
+ * "linear" is set if all terms considered so far have degree at most one
+ * in this variable.
+ */
+struct isl_linear_at_pos_data {
+	int pos;
+	isl_bool linear;
+};
+
+/* Check if "term" has degree at most one in the variable at position data->pos.
+ * Abort if this is not the case.
+ */
+static isl_stat term_is_linear_at_pos(__isl_take isl_term *term, void *user)
+{
+	struct isl_linear_at_pos_data *data = user;
+	isl_size exp;
+
+	exp = isl_term_get_exp(term, isl_dim_set, data->pos);
+	isl_term_free(term);
+	if (exp < 0)
+		data->linear = isl_bool_error;
+	else if (exp > 1)
+		data->linear = isl_bool_false;
+
+	return data->linear == isl_bool_true ? isl_stat_ok : isl_stat_error;
+}
+
+/* Does "poly" have degree at most one in the variable at position "pos"?
+ */
+static isl_bool is_linear_at_pos(__isl_keep isl_qpolynomial *poly, int pos)
+{
+	struct isl_linear_at_pos_data data = { pos, isl_bool_true };
+
+	if (isl_qpolynomial_foreach_term(poly, &term_is_linear_at_pos,
+					&data) < 0 &&
+	    data.linear == isl_bool_true)
+		return isl_bool_error;
+
+	return data.linear;
+}
+
+/* Does the monotonicity of "poly" over the integer values of the variable
+ * at position "pos" imply that "bound" on this variable
+ * may be plugged in to obtain a bound on "poly"?
+ *
+ * If "bound" is not integer, then it is not one of the values
+ * for which the monotonicity has been determined.
+ * However, if "poly" has degree at most one in the variable,
+ * then it is also monotonic over the rationals.
+ */
+static isl_bool monotonicity_applies(__isl_keep isl_qpolynomial *poly,
+	__isl_keep isl_constraint *bound, int pos)
+{
+	if (bound_is_integer(bound, pos))
+		return isl_bool_true;
+	return is_linear_at_pos(poly, pos);
+}
+
 /* Given a lower and upper bound on the final variable and constraints
  * on the remaining variables where these bounds are active,
  * eliminate the variable from data->poly based on these bounds.
  * If the polynomial has been determined to be monotonic
- * in the variable, then simply plug in the appropriate bound.
+ * in the variable, then simply plug in the appropriate bound,
+ * provided the monotonicity applies to this bound.
  * If the current polynomial is tight and if this bound is integer,
  * then the result is still tight.  In all other cases, the results
  * may not be tight.
@@ -358,13 +419,20 @@ static isl_stat propagate_on_bound_pair(__isl_take isl_constraint *lower,
 	isl_qpolynomial *poly;
 	isl_stat r;
 	isl_size nvar, nparam;
+	isl_bool monotonic = isl_bool_false;
 
 	nvar = isl_basic_set_dim(bset, isl_dim_set);
 	nparam = isl_basic_set_dim(bset, isl_dim_param);
 	if (nvar < 0 || nparam < 0)
 		goto error;
 
-	if (data->monotonicity) {
+	if (data->monotonicity)
+		monotonic = monotonicity_applies(data->poly,
+				data->monotonicity * data->sign > 0 ?
+				upper : lower, nvar);
+	if (monotonic < 0)
+		goto error;
+	if (monotonic) {
 		isl_qpolynomial *sub;
 		isl_space *space = isl_qpolynomial_get_domain_space(data->poly);
 		if (data->monotonicity * data->sign > 0) {
-- 
2.43.0


From e07d3e69d0d8ff8f86d20f26fe68f5daf311a915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:00 +0000
Subject: [PATCH 29/83] fix: isl_range.c: add explicit sign constraints

The signs of the variables may only be known for integer values,
while range propagation also plugs in rational bounds.
---
 isl_range.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/isl_range.c b/isl_range.c
index 15e2379..afd2f58 100644
--- a/isl_range.c
+++ b/isl_range.c
@@ -537,6 +537,33 @@ error:
 	return isl_stat_error;
 }
 
+/* Add explicit sign constraints on the "n" dimensions of type "type"
+ * starting at "first" according to "signs".
+ *
+ * The signs may only be known for integer values of the dimensions,
+ * while range propagation plugs in rational bounds and
+ * assumes that those bounds have the same sign.
+ */
+static __isl_give isl_basic_set *add_sign_constraints(
+	__isl_take isl_basic_set *bset, enum isl_dim_type type, unsigned n,
+	int *signs)
+{
+	int i;
+	isl_ctx *ctx;
+
+	ctx = isl_basic_set_get_ctx(bset);
+	for (i = 0; i < n; ++i) {
+		if (signs[i] > 0)
+			bset = isl_basic_set_lower_bound_val(bset, type, i,
+							isl_val_zero(ctx));
+		else if (signs[i] < 0)
+			bset = isl_basic_set_upper_bound_val(bset, type, i,
+							isl_val_negone(ctx));
+	}
+
+	return bset;
+}
+
 static isl_stat basic_guarded_poly_bound(__isl_take isl_basic_set *bset,
 	void *user)
 {
@@ -561,6 +588,9 @@ static isl_stat basic_guarded_poly_bound(__isl_take isl_basic_set *bset,
 	if (isl_basic_set_dims_get_sign(bset, isl_dim_param, 0, nparam,
 					data->signs) < 0)
 		goto error;
+	bset = add_sign_constraints(bset, isl_dim_set, dim,
+					data->signs + nparam);
+	bset = add_sign_constraints(bset, isl_dim_param, nparam, data->signs);
 
 	r = propagate_on_domain(bset, isl_qpolynomial_copy(data->poly), data);
 
-- 
2.43.0


From 1753f2904b82dfaeb93b0fe491485d34b464d5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:11 +0000
Subject: [PATCH 30/83] fix: isl_basic_set_set_integral: normalize constraints

A rational basic set may have constraints that are not in the form
expected of an integer basic set.
---
 isl_map.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/isl_map.c b/isl_map.c
index 3a3e48e..f52ad62 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -2251,6 +2251,7 @@ __isl_give isl_basic_set *isl_basic_set_set_integral(
 
 	ISL_F_CLR(bset, ISL_BASIC_MAP_RATIONAL);
 
+	bset = isl_basic_set_simplify(bset);
 	return isl_basic_set_finalize(bset);
 }
 
-- 
2.43.0


From 960569ac6ba81266997a472be2032ff5ae56926c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:48 +0000
Subject: [PATCH 31/83] fix: isl_union_map_compute_flow: drop accessed elements
 from may-dependences

The may-dependences returned by isl_union_map_compute_flow relate
source and sink iterations, just like the must-dependences.
---
 isl_flow.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/isl_flow.c b/isl_flow.c
index 92d2266..997975c 100644
--- a/isl_flow.c
+++ b/isl_flow.c
@@ -2174,14 +2174,18 @@ __isl_give isl_union_map *isl_union_flow_get_may_dependence(
 	return isl_union_map_range_factor_domain(dep);
 }
 
-/* Return the non-definite dependences in "flow".
+/* Return the non-definite dependences in "flow",
+ * without the accessed elements.
  */
 static __isl_give isl_union_map *isl_union_flow_get_non_must_dependence(
 	__isl_keep isl_union_flow *flow)
 {
+	isl_union_map *dep;
+
 	if (!flow)
 		return NULL;
-	return isl_union_map_copy(flow->may_dep);
+	dep = isl_union_map_copy(flow->may_dep);
+	return isl_union_map_range_factor_domain(dep);
 }
 
 /* Return the subset of the sink accesses for which definitely
-- 
2.43.0


From b7cd7edf2fd1cbdd0e6c5a8d8833f4fea62d2f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:26 +0000
Subject: [PATCH 32/83] fix: isl_flow_foreach: also skip dependences that are
 not obviously empty

---
 isl_flow.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/isl_flow.c b/isl_flow.c
index 997975c..1e11b10 100644
--- a/isl_flow.c
+++ b/isl_flow.c
@@ -496,7 +496,12 @@ isl_stat isl_flow_foreach(__isl_keep isl_flow *deps,
 		return isl_stat_error;
 
 	for (i = 0; i < deps->n_source; ++i) {
-		if (isl_map_plain_is_empty(deps->dep[i].map))
+		isl_bool empty;
+
+		empty = isl_map_is_empty(deps->dep[i].map);
+		if (empty < 0)
+			return isl_stat_error;
+		if (empty)
 			continue;
 		if (fn(isl_map_copy(deps->dep[i].map), deps->dep[i].must,
 				deps->dep[i].data, user) < 0)
-- 
2.43.0


From 1a6e8a3d33e8b235edf7aeb6bdfa855a01b029fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:16 +0000
Subject: [PATCH 33/83] fix: isl_flow.c: handle_coscheduled: also consider
 may-dependences

If a may-source was found at a deeper level, then the dependences
from must-sources at the current level are collected in may_rel.
Other sources that are coscheduled with those must-sources
also need to be taken into account.
---
 isl_flow.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/isl_flow.c b/isl_flow.c
index 1e11b10..5e6983a 100644
--- a/isl_flow.c
+++ b/isl_flow.c
@@ -970,7 +970,9 @@ static __isl_give isl_map *coscheduled_source(__isl_keep isl_access_info *acc,
  * dependences derived from may-sources.
  *
  * In particular, consider all the must-sources with a non-empty
- * dependence relation in "must_rel".  They are considered in reverse
+ * dependence relation in "must_rel" or "may_rel" (the latter being
+ * those for which a may-source was found at a deeper level).
+ * They are considered in reverse
  * order because that is the order in which they are considered in the caller.
  * If any of the must-sources are coscheduled, then the last one
  * is the one that will have a corresponding dependence relation.
@@ -978,8 +980,8 @@ static __isl_give isl_map *coscheduled_source(__isl_keep isl_access_info *acc,
  * and all the may-sources.  If any of those may be coscheduled with
  * must-source i, then compute the coscheduled instances that access
  * the same memory elements.  The result is a relation [T -> S] -> K.
- * The projection onto T -> K is a subset of the must-dependence relation
- * that needs to be turned into may-dependences.
+ * The projection onto T -> K is a subset of these dependence relations.
+ * The must-dependences among them need to be turned into may-dependences.
  * The projection onto S -> K needs to be added to the may-dependences
  * of source S.
  * Since a given must-source instance may be coscheduled with several
@@ -996,10 +998,13 @@ static __isl_give isl_flow *handle_coscheduled(__isl_keep isl_access_info *acc,
 	if (!acc->coscheduled)
 		return flow;
 	for (i = acc->n_must - 1; i >= 0; --i) {
-		isl_map *move;
+		isl_map *move, *rel;
 
-		if (isl_map_plain_is_empty(must_rel[i]))
+		if (isl_map_plain_is_empty(must_rel[i]) &&
+		    isl_map_plain_is_empty(may_rel[i]))
 			continue;
+		rel = isl_map_union(isl_map_copy(must_rel[i]),
+				    isl_map_copy(may_rel[i]));
 		move = isl_map_empty(isl_map_get_space(must_rel[i]));
 		for (j = i - 1; j >= 0; --j) {
 			int depth;
@@ -1009,6 +1014,7 @@ static __isl_give isl_flow *handle_coscheduled(__isl_keep isl_access_info *acc,
 			coscheduled = acc->coscheduled(acc->source[i].data,
 							acc->source[j].data);
 			if (coscheduled < 0) {
+				isl_map_free(rel);
 				isl_map_free(move);
 				return isl_flow_free(flow);
 			}
@@ -1016,7 +1022,7 @@ static __isl_give isl_flow *handle_coscheduled(__isl_keep isl_access_info *acc,
 				continue;
 			depth = acc->level_before(acc->source[i].data,
 						acc->source[j].data) / 2;
-			map = coscheduled_source(acc, must_rel[i], j, depth);
+			map = coscheduled_source(acc, rel, j, depth);
 			factor = isl_map_domain_factor_range(isl_map_copy(map));
 			may_rel[j] = isl_map_union(may_rel[j], factor);
 			map = isl_map_domain_factor_domain(map);
@@ -1031,6 +1037,7 @@ static __isl_give isl_flow *handle_coscheduled(__isl_keep isl_access_info *acc,
 			coscheduled = acc->coscheduled(acc->source[i].data,
 							acc->source[pos].data);
 			if (coscheduled < 0) {
+				isl_map_free(rel);
 				isl_map_free(move);
 				return isl_flow_free(flow);
 			}
@@ -1038,7 +1045,7 @@ static __isl_give isl_flow *handle_coscheduled(__isl_keep isl_access_info *acc,
 				continue;
 			depth = acc->level_before(acc->source[i].data,
 						acc->source[pos].data) / 2;
-			map = coscheduled_source(acc, must_rel[i], pos, depth);
+			map = coscheduled_source(acc, rel, pos, depth);
 			factor = isl_map_domain_factor_range(isl_map_copy(map));
 			pos = 2 * acc->n_must + j;
 			flow->dep[pos].map = isl_map_union(flow->dep[pos].map,
@@ -1046,6 +1053,8 @@ static __isl_give isl_flow *handle_coscheduled(__isl_keep isl_access_info *acc,
 			map = isl_map_domain_factor_domain(map);
 			move = isl_map_union(move, map);
 		}
+		isl_map_free(rel);
+		move = isl_map_intersect(move, isl_map_copy(must_rel[i]));
 		must_rel[i] = isl_map_subtract(must_rel[i], isl_map_copy(move));
 		may_rel[i] = isl_map_union(may_rel[i], move);
 	}
-- 
2.43.0


From 1717a54363e2a7742dc35bbbcd856128b5f8be91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:30 +0000
Subject: [PATCH 34/83] fix: isl_flow.c: only treat schedule coordinates as
 textual if fixed everywhere

If a schedule map coordinate is fixed for some accesses only,
then those accesses were ordered textually among each other, at a level
that does not match the loop level used with respect to other accesses,
resulting in both missing and spurious dependences.
---
 isl_flow.c | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/isl_flow.c b/isl_flow.c
index 5e6983a..5879231 100644
--- a/isl_flow.c
+++ b/isl_flow.c
@@ -2497,6 +2497,40 @@ static isl_bool coscheduled(void *first, void *second)
 	return isl_bool_true;
 }
 
+/* Only keep track of those fixed schedule coordinates in "data"
+ * that are fixed for all accesses, i.e., for the sink and for all sources.
+ *
+ * The dependence analysis assumes that if two accesses share
+ * some loops and are ordered textually inside those loops, then
+ * the same levels are considered for the relative order
+ * with respect to any other access.
+ * If a coordinate is fixed for some, but not all, accesses,
+ * then it cannot be treated as a textual level for those accesses and
+ * as a loop level for the others.
+ */
+static void keep_common_fixed(struct isl_compute_flow_data *data)
+{
+	int i, j;
+	isl_size n;
+
+	n = isl_vec_size(data->sink_info->cst);
+	for (j = 0; j < n; ++j) {
+		for (i = 0; i < data->count; ++i) {
+			struct isl_sched_info *info = data->source_info[i];
+
+			if (j < isl_vec_size(info->cst) && !info->is_cst[j])
+				data->sink_info->is_cst[j] = 0;
+		}
+		for (i = 0; i < data->count; ++i) {
+			struct isl_sched_info *info = data->source_info[i];
+
+			if (j < isl_vec_size(info->cst) &&
+			    !data->sink_info->is_cst[j])
+				info->is_cst[j] = 0;
+		}
+	}
+}
+
 /* Given a sink access, look for all the source accesses that access
  * the same array and perform dataflow analysis on them using
  * isl_access_info_compute_flow_core.
@@ -2547,6 +2581,8 @@ static isl_stat compute_flow(__isl_take isl_map *map, void *user)
 					&collect_matching_array, data) < 0)
 		goto error;
 
+	keep_common_fixed(data);
+
 	flow = access_info_compute_flow_core(data->accesses);
 	data->accesses = NULL;
 
-- 
2.43.0


From 6cf3db573445ef4ea12fd090aa0b5dd9c36b5525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:55 +0000
Subject: [PATCH 35/83] fix: isl_flow.c: take into account coscheduled
 instances of the same must-source

If several instances of the same must-source are coscheduled and
access the same element, then only one of them was reported and
the resulting dependence was incorrectly considered to be
a must-dependence.
---
 isl_flow.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/isl_flow.c b/isl_flow.c
index 5879231..73c4c9c 100644
--- a/isl_flow.c
+++ b/isl_flow.c
@@ -952,6 +952,20 @@ static __isl_give isl_map *coscheduled_source(__isl_keep isl_access_info *acc,
 	return map;
 }
 
+/* Given a relation [T -> S] -> K with T and S instances of the same source,
+ * remove those elements where T and S are equal.
+ */
+static __isl_give isl_map *drop_identical_sources(__isl_take isl_map *map)
+{
+	isl_space *space;
+	isl_map *id;
+
+	space = isl_space_unwrap(isl_space_domain(isl_map_get_space(map)));
+	id = isl_map_identity(space);
+
+	return isl_map_subtract_domain(map, isl_map_wrap(id));
+}
+
 /* After the dependences derived from a must-source have been computed
  * at a certain level, check if any of the sources of the must-dependences
  * may be coscheduled with other sources.
@@ -976,7 +990,10 @@ static __isl_give isl_map *coscheduled_source(__isl_keep isl_access_info *acc,
  * order because that is the order in which they are considered in the caller.
  * If any of the must-sources are coscheduled, then the last one
  * is the one that will have a corresponding dependence relation.
- * For each must-source i, consider both all the previous must-sources
+ * Similarly, if several instances of the same must-source are coscheduled,
+ * then only one of them will appear in the dependence relation.
+ * For each must-source i, consider both all the previous must-sources,
+ * the other instances of must-source i itself
  * and all the may-sources.  If any of those may be coscheduled with
  * must-source i, then compute the coscheduled instances that access
  * the same memory elements.  The result is a relation [T -> S] -> K.
@@ -1006,7 +1023,7 @@ static __isl_give isl_flow *handle_coscheduled(__isl_keep isl_access_info *acc,
 		rel = isl_map_union(isl_map_copy(must_rel[i]),
 				    isl_map_copy(may_rel[i]));
 		move = isl_map_empty(isl_map_get_space(must_rel[i]));
-		for (j = i - 1; j >= 0; --j) {
+		for (j = i; j >= 0; --j) {
 			int depth;
 			isl_bool coscheduled;
 			isl_map *map, *factor;
@@ -1023,6 +1040,8 @@ static __isl_give isl_flow *handle_coscheduled(__isl_keep isl_access_info *acc,
 			depth = acc->level_before(acc->source[i].data,
 						acc->source[j].data) / 2;
 			map = coscheduled_source(acc, rel, j, depth);
+			if (j == i)
+				map = drop_identical_sources(map);
 			factor = isl_map_domain_factor_range(isl_map_copy(map));
 			may_rel[j] = isl_map_union(may_rel[j], factor);
 			map = isl_map_domain_factor_domain(map);
-- 
2.43.0


From 2191fb4daa5138e56bcbb67c85ced997aa74cf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:55 +0000
Subject: [PATCH 36/83] fix: AST generation: do not extend the block of a split
 guard with else branches

When disjunctions are not allowed, insert_pending_guard_node may create
a block of if nodes.  Such a block was recorded as an if node that can be
extended by later guards, dropping some of the statements.
---
 isl_ast_graft.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/isl_ast_graft.c b/isl_ast_graft.c
index b5c9f54..0f95d4d 100644
--- a/isl_ast_graft.c
+++ b/isl_ast_graft.c
@@ -563,6 +563,10 @@ static int clear_if_nodes(struct isl_if_node *if_node, int first, int n)
  * enforced at that then or else branch.
  * Otherwise, the current graft is appended to the list.
  *
+ * If the guard needs to be split up because disjunctions are not allowed,
+ * then the guarded node is a block of if nodes rather than
+ * a single if node and it cannot be extended.
+ *
  * We only construct else branches if allowed by the user.
  */
 static __isl_give isl_ast_graft_list *insert_pending_guard_nodes(
@@ -645,7 +649,8 @@ static __isl_give isl_ast_graft_list *insert_pending_guard_nodes(
 		if (!graft->guard)
 			graft = isl_ast_graft_free(graft);
 		graft = insert_pending_guard_node(graft, build);
-		if (graft && graft->node != node && i != n - 1) {
+		if (graft && graft->node != node && i != n - 1 &&
+		    graft->node->type == isl_ast_node_if) {
 			isl_set *set;
 			if_node[n_if].node = graft->node;
 			if_node[n_if].guard = guard;
-- 
2.43.0


From 0d60532bdbdcd82e6469a7e3b4c04ad35bd620e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:37 +0000
Subject: [PATCH 37/83] fix: AST generation: only expose a shifted stride if
 the offsets hold for all pairs of domains

The offsets were derived from comparing all domains to a single reference
domain.  Some pairs of domains may share values of the outer dimensions
that do not appear in this reference domain, in which case the derived
offsets do not necessarily hold and the shifted schedule may no longer
preserve the execution order.
---
 isl_ast_codegen.c | 93 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 92 insertions(+), 1 deletion(-)

diff --git a/isl_ast_codegen.c b/isl_ast_codegen.c
index b3c2541..33af265 100644
--- a/isl_ast_codegen.c
+++ b/isl_ast_codegen.c
@@ -4107,6 +4107,84 @@ static int has_anchored_subtree(__isl_keep isl_ast_build *build)
 	return dependent;
 }
 
+/* Is the difference between the value of the current dimension
+ * in "set2" and that in "set1", for equal values of the outer dimensions,
+ * always equal to "offset" modulo "stride"?
+ */
+static isl_bool has_residue_at_depth(__isl_keep isl_set *set1,
+	__isl_keep isl_set *set2, int depth, __isl_keep isl_val *stride,
+	__isl_take isl_val *offset)
+{
+	int d;
+	isl_bool ok;
+	isl_map *map;
+	isl_set *deltas;
+	isl_val *m, *r;
+
+	map = isl_map_from_domain_and_range(isl_set_copy(set1),
+						isl_set_copy(set2));
+	for (d = 0; d < depth; ++d)
+		map = isl_map_equate(map, isl_dim_in, d, isl_dim_out, d);
+	deltas = isl_map_deltas(map);
+	ok = isl_set_is_empty(deltas);
+	if (ok < 0 || ok) {
+		isl_set_free(deltas);
+		isl_val_free(offset);
+		return ok;
+	}
+	if (isl_set_dim_residue_class_val(deltas, depth, &m, &r) < 0) {
+		isl_set_free(deltas);
+		isl_val_free(offset);
+		return isl_bool_error;
+	}
+	isl_set_free(deltas);
+
+	ok = isl_val_is_divisible_by(m, stride);
+	r = isl_val_sub(r, offset);
+	if (ok >= 0 && ok)
+		ok = isl_val_is_divisible_by(r, stride);
+	isl_val_free(m);
+	isl_val_free(r);
+
+	return ok;
+}
+
+/* Given "stride" and "offset" derived from comparing all
+ * the schedule domains to that at position "base",
+ * do they also hold for all the other pairs of schedule domains?
+ * In particular, some pairs of schedule domains may share
+ * values of the outer dimensions that do not appear
+ * in the schedule domain at position "base".
+ */
+static isl_bool offsets_are_consistent(struct isl_set_map_pair *domain,
+	int *order, int n, int base, int depth, __isl_keep isl_val *stride,
+	__isl_keep isl_multi_val *offset)
+{
+	int i, j;
+
+	for (i = 0; i < n; ++i) {
+		if (i == base)
+			continue;
+		for (j = i; j < n; ++j) {
+			isl_val *diff;
+			isl_bool ok;
+
+			if (j == base)
+				continue;
+			diff = isl_multi_val_get_val(offset, j);
+			diff = isl_val_sub(diff,
+					    isl_multi_val_get_val(offset, i));
+			ok = has_residue_at_depth(domain[order[i]].set,
+					domain[order[j]].set, depth,
+					stride, diff);
+			if (ok < 0 || !ok)
+				return ok;
+		}
+	}
+
+	return isl_bool_true;
+}
+
 /* Generate code for a single component.
  *
  * The component inverse schedule is specified as the "map" fields
@@ -4173,6 +4251,8 @@ static int has_anchored_subtree(__isl_keep isl_ast_build *build)
  * If none of the domains were skipped, then there is nothing to do.
  * If some of them were skipped, then if we apply separation, the schedule
  * domain should get split in pieces with a (non-shifted) stride.
+ * If the offsets do not hold for pairs of domains that do not involve
+ * the reference domain, then the transformation cannot be applied either.
  *
  * Otherwise, we apply a shift to expose the stride in
  * generate_shift_component.
@@ -4263,10 +4343,21 @@ static __isl_give isl_ast_graft_list *generate_component(
 		}
 	}
 
+	skip = i < n || fixed || isl_val_is_zero(gcd);
+	if (res >= 0 && gcd && !skip) {
+		isl_bool ok;
+
+		ok = offsets_are_consistent(domain, order, n, base, depth,
+						gcd, mv);
+		if (ok < 0)
+			res = -1;
+		skip = !ok;
+	}
+
 	if (res < 0 || !gcd) {
 		isl_ast_build_free(build);
 		list = NULL;
-	} else if (i < n || fixed || isl_val_is_zero(gcd)) {
+	} else if (skip) {
 		list = generate_shifted_component_from_list(domain,
 							    order, n, build);
 	} else {
-- 
2.43.0


From de242ef417049e2e012df997ba990414e5dc9361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:31 +0000
Subject: [PATCH 38/83] fix: AST generation: compute explicit representations
 of divs in guard nodes

Constraints with unknown divs cannot be converted to AST expressions.
---
 isl_ast_codegen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/isl_ast_codegen.c b/isl_ast_codegen.c
index 33af265..0e2077a 100644
--- a/isl_ast_codegen.c
+++ b/isl_ast_codegen.c
@@ -5707,6 +5707,7 @@ static __isl_give isl_ast_graft_list *build_ast_from_guard(
 	guard = isl_set_preimage_multi_aff(guard,
 			isl_multi_aff_copy(build->internal2input));
 	guard = isl_ast_build_specialize(build, guard);
+	guard = isl_set_compute_divs(guard);
 	guard = isl_set_gist(guard, isl_set_copy(build->generated));
 
 	sub_build = isl_ast_build_copy(build);
-- 
2.43.0


From a36a3c09e55ee87e9c2a4df6c7c7cc6fd41acb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:31 +0000
Subject: [PATCH 39/83] fix: clear ISL_MAP_DISJOINT when basic maps may have
 been extended

isl_map_eliminate, isl_map_drop, isl_map_remove_divs*,
isl_map_remove_unknown_divs and isl_map_gist_basic_map may produce
overlapping basic maps from disjoint ones, but kept the disjointness mark,
such that a subsequent isl_set_make_disjoint had no effect.
---
 isl_map.c          | 21 +++++++++++++++++++++
 isl_map_simplify.c |  2 ++
 2 files changed, 23 insertions(+)

diff --git a/isl_map.c b/isl_map.c
index f52ad62..3b37b39 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -2460,6 +2460,18 @@ __isl_give isl_basic_set *isl_basic_set_drop(__isl_take isl_basic_set *bset,
 							type, first, n));
 }
 
+/* Clear the ISL_MAP_DISJOINT flag of "map", unless it has
+ * at most one disjunct.
+ * This needs to be done whenever the basic maps of "map" are replaced
+ * by possibly larger basic maps.
+ */
+static __isl_give isl_map *isl_map_unmark_disjoint(__isl_take isl_map *map)
+{
+	if (map && map->n > 1)
+		ISL_F_CLR(map, ISL_MAP_DISJOINT);
+	return map;
+}
+
 /* No longer consider "map" to be normalized.
  */
 static __isl_give isl_map *isl_map_unmark_normalized(__isl_take isl_map *map)
@@ -2490,6 +2502,7 @@ __isl_give isl_map *isl_map_drop(__isl_take isl_map *map,
 		if (!map->p[i])
 			goto error;
 	}
+	map = isl_map_unmark_disjoint(map);
 	map = isl_map_unmark_normalized(map);
 
 	space = isl_map_take_space(map);
@@ -2544,6 +2557,8 @@ __isl_give isl_map *isl_map_eliminate(__isl_take isl_map *map,
 		if (!map->p[i])
 			goto error;
 	}
+	map = isl_map_unmark_disjoint(map);
+	map = isl_map_unmark_normalized(map);
 	return map;
 error:
 	isl_map_free(map);
@@ -2609,6 +2624,8 @@ __isl_give isl_map *isl_map_remove_divs(__isl_take isl_map *map)
 		if (!map->p[i])
 			goto error;
 	}
+	map = isl_map_unmark_disjoint(map);
+	map = isl_map_unmark_normalized(map);
 	return map;
 error:
 	isl_map_free(map);
@@ -2916,6 +2933,8 @@ __isl_give isl_map *isl_map_remove_divs_involving_dims(__isl_take isl_map *map,
 		if (!map->p[i])
 			goto error;
 	}
+	map = isl_map_unmark_disjoint(map);
+	map = isl_map_unmark_normalized(map);
 	return map;
 error:
 	isl_map_free(map);
@@ -3306,6 +3325,8 @@ __isl_give isl_map *isl_map_remove_unknown_divs(__isl_take isl_map *map)
 		if (!map->p[i])
 			goto error;
 	}
+	map = isl_map_unmark_disjoint(map);
+	map = isl_map_unmark_normalized(map);
 	return map;
 error:
 	isl_map_free(map);
diff --git a/isl_map_simplify.c b/isl_map_simplify.c
index f4463a7..d90282c 100644
--- a/isl_map_simplify.c
+++ b/isl_map_simplify.c
@@ -3374,6 +3374,8 @@ __isl_give isl_map *isl_map_gist_basic_map(__isl_take isl_map *map,
 	}
 	isl_basic_map_free(context);
 	ISL_F_CLR(map, ISL_MAP_NORMALIZED);
+	if (map->n > 1)
+		ISL_F_CLR(map, ISL_MAP_DISJOINT);
 	return map;
 error:
 	isl_map_free(map);
-- 
2.43.0


From 23fe57fbba6f17adfb2b6e2352109701bb327e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:06 +0000
Subject: [PATCH 40/83] fix: isl_pw_*_add_disjoint: do not modify shared
 piecewise expression

---
 isl_pw_templ.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/isl_pw_templ.c b/isl_pw_templ.c
index b6668eb..7d1daed 100644
--- a/isl_pw_templ.c
+++ b/isl_pw_templ.c
@@ -748,9 +748,11 @@ error:
 	return NULL;
 }
 
-/* Make sure "pw" has room for at least "n" more pieces.
+/* Make sure "pw" has room for at least "n" more pieces and
+ * that it is safe to add these pieces.
  *
- * If there is only one reference to pw, we extend it in place.
+ * If there is only one reference to pw, we extend it in place
+ * (if it does not have enough room already).
  * Otherwise, we create a new PW and copy the pieces.
  */
 static __isl_give PW *FN(PW,grow)(__isl_take PW *pw, int n)
@@ -761,7 +763,7 @@ static __isl_give PW *FN(PW,grow)(__isl_take PW *pw, int n)
 
 	if (!pw)
 		return NULL;
-	if (pw->n + n <= pw->size)
+	if (pw->ref == 1 && pw->n + n <= pw->size)
 		return pw;
 	ctx = FN(PW,get_ctx)(pw);
 	n += pw->n;
-- 
2.43.0


From 2d439df9eb70d5603f53dd040e7848e65242ceaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:21 +0000
Subject: [PATCH 41/83] fix: isl_{union_,}map_fixed_power_val: do not modify
 shared exponent

---
 isl_power_templ.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/isl_power_templ.c b/isl_power_templ.c
index 65253bd..932be4d 100644
--- a/isl_power_templ.c
+++ b/isl_power_templ.c
@@ -6,6 +6,7 @@
 /* Compute the given non-zero power of "map" and return the result.
  * If the exponent "exp" is negative, then the -exp th power of the inverse
  * relation is computed.
+ * The value of "exp" is modified by the computation.
  */
 __isl_give TYPE *FN(TYPE,fixed_power)(__isl_take TYPE *map, isl_int exp)
 {
@@ -71,6 +72,9 @@ __isl_give TYPE *FN(TYPE,fixed_power_val)(__isl_take TYPE *map,
 	if (!isl_val_is_int(exp))
 		isl_die(FN(TYPE,get_ctx)(map), isl_error_invalid,
 			"expecting integer exponent", goto error);
+	exp = isl_val_cow(exp);
+	if (!exp)
+		goto error;
 	map = FN(TYPE,fixed_power)(map, exp->n);
 	isl_val_free(exp);
 	return map;
-- 
2.43.0


From 8db1ae0593c33ad5e473192a80efe288fa838001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:17 +0000
Subject: [PATCH 42/83] fix: isl_val_mod: reject zero divisor

---
 isl_val.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/isl_val.c b/isl_val.c
index c95d462..3488fd0 100644
--- a/isl_val.c
+++ b/isl_val.c
@@ -983,6 +983,9 @@ __isl_give isl_val *isl_val_mod(__isl_take isl_val *v1, __isl_take isl_val *v2)
 	if (!isl_val_is_int(v1) || !isl_val_is_int(v2))
 		isl_die(isl_val_get_ctx(v1), isl_error_invalid,
 			"expecting two integers", goto error);
+	if (isl_val_is_zero(v2))
+		isl_die(isl_val_get_ctx(v1), isl_error_invalid,
+			"modulo by zero", goto error);
 	if (isl_val_is_nonneg(v1) && isl_val_lt(v1, v2)) {
 		isl_val_free(v2);
 		return v1;
-- 
2.43.0


From ca69a5c706c2a8d43e2c89f70a157707acb36366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:17 +0000
Subject: [PATCH 43/83] fix: isl_aff_involves_dims: reject output dimensions

---
 isl_aff.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/isl_aff.c b/isl_aff.c
index 4ce0018..2d0dedd 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -2544,6 +2544,10 @@ isl_bool isl_aff_involves_dims(__isl_keep isl_aff *aff,
 		return isl_bool_error;
 	if (n == 0)
 		return isl_bool_false;
+	if (type == isl_dim_out)
+		isl_die(isl_aff_get_ctx(aff), isl_error_invalid,
+			"output/set dimension does not have a coefficient",
+			return isl_bool_error);
 	if (isl_aff_check_range(aff, type, first, n) < 0)
 		return isl_bool_error;
 
-- 
2.43.0


From 06c0e604a3544ec0f47a3fb88494a0dd5f913c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:17 +0000
Subject: [PATCH 44/83] fix: isl_set_insert_domain: fail on invalid domain

---
 isl_map.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/isl_map.c b/isl_map.c
index 3b37b39..f80f3c8 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -12908,8 +12908,10 @@ __isl_give isl_map *isl_set_insert_domain(__isl_take isl_set *set,
 	if (isl_set_check_is_set(set) < 0 || isl_space_check_is_set(domain) < 0)
 		domain = isl_space_free(domain);
 	dim = isl_space_dim(domain, isl_dim_set);
-	if (dim < 0)
+	if (dim < 0) {
 		domain = isl_space_free(domain);
+		set = isl_set_free(set);
+	}
 	space = isl_set_get_space(set);
 	domain = isl_space_replace_params(domain, space);
 	space = isl_space_map_from_domain_and_range(domain, space);
-- 
2.43.0


From b0152cc60567f2c89f76bcec33ba4088b00edba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:17 +0000
Subject: [PATCH 45/83] fix: isl_union_*_add_part_generic: handle failing
 parameter alignment

---
 isl_union_templ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_union_templ.c b/isl_union_templ.c
index 784e8c3..6c1edab 100644
--- a/isl_union_templ.c
+++ b/isl_union_templ.c
@@ -184,7 +184,7 @@ static __isl_give UNION *FN(UNION,add_part_generic)(__isl_take UNION *u,
 
 	u = FN(UNION,cow)(u);
 
-	if (!u)
+	if (!u || !part)
 		goto error;
 
 	if (FN(UNION,check_disjoint_domain_other)(u, part) < 0)
-- 
2.43.0


From c2accc6fb129e232a21b25194bdab10748046d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:17 +0000
Subject: [PATCH 46/83] fix: isl_basic_map_*product: handle incompatible
 arguments

---
 isl_map.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/isl_map.c b/isl_map.c
index f80f3c8..5884ad1 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -10754,6 +10754,8 @@ __isl_give isl_basic_map *isl_basic_map_product(
 		goto error;
 	space_result = isl_space_product(isl_space_copy(bmap1->dim),
 						   isl_space_copy(bmap2->dim));
+	if (!space_result)
+		goto error;
 
 	in1 = isl_basic_map_dim(bmap1, isl_dim_in);
 	in2 = isl_basic_map_dim(bmap2, isl_dim_in);
@@ -10820,9 +10822,14 @@ __isl_give isl_basic_map *isl_basic_map_domain_product(
 	if (in1 < 0 || in2 < 0 || out < 0 || nparam < 0)
 		goto error;
 
+	if (isl_basic_map_check_equal_params(bmap1, bmap2) < 0)
+		goto error;
+
 	space1 = isl_basic_map_get_space(bmap1);
 	space2 = isl_basic_map_get_space(bmap2);
 	space_result = isl_space_domain_product(space1, space2);
+	if (!space_result)
+		goto error;
 
 	total = nparam + in1 + in2 + out + bmap1->n_div + bmap2->n_div;
 	dim_map1 = isl_dim_map_alloc(bmap1->ctx, total);
@@ -10875,6 +10882,8 @@ __isl_give isl_basic_map *isl_basic_map_range_product(
 
 	space_result = isl_space_range_product(isl_space_copy(bmap1->dim),
 					   isl_space_copy(bmap2->dim));
+	if (!space_result)
+		goto error;
 
 	total = nparam + in + out1 + out2 + bmap1->n_div + bmap2->n_div;
 	dim_map1 = isl_dim_map_alloc(bmap1->ctx, total);
-- 
2.43.0


From 2dbdca11672f2a7901fdd28d73280d3d816f30a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:17 +0000
Subject: [PATCH 47/83] fix: isl_*_move_dims: check destination position

---
 isl_aff.c        | 2 ++
 isl_map.c        | 2 ++
 isl_polynomial.c | 2 ++
 isl_space.c      | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/isl_aff.c b/isl_aff.c
index 2d0dedd..ea1765b 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -2737,6 +2737,8 @@ __isl_give isl_aff *isl_aff_move_dims(__isl_take isl_aff *aff,
 
 	if (isl_local_space_check_range(aff->ls, src_type, src_pos, n) < 0)
 		return isl_aff_free(aff);
+	if (isl_local_space_check_range(aff->ls, dst_type, dst_pos, 0) < 0)
+		return isl_aff_free(aff);
 	if (dst_type == src_type)
 		isl_die(isl_aff_get_ctx(aff), isl_error_unsupported,
 			"moving dims within the same type not supported",
diff --git a/isl_map.c b/isl_map.c
index 5884ad1..bd09958 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -4257,6 +4257,8 @@ __isl_give isl_basic_map *isl_basic_map_move_dims(
 
 	if (isl_basic_map_check_range(bmap, src_type, src_pos, n) < 0)
 		return isl_basic_map_free(bmap);
+	if (isl_basic_map_check_range(bmap, dst_type, dst_pos, 0) < 0)
+		return isl_basic_map_free(bmap);
 
 	if (dst_type == src_type && dst_pos == src_pos)
 		return bmap;
diff --git a/isl_polynomial.c b/isl_polynomial.c
index 886eb4c..f85802e 100644
--- a/isl_polynomial.c
+++ b/isl_polynomial.c
@@ -3436,6 +3436,8 @@ __isl_give isl_qpolynomial *isl_qpolynomial_move_dims(
 			goto error);
 	if (isl_qpolynomial_check_range(qp, src_type, src_pos, n) < 0)
 		return isl_qpolynomial_free(qp);
+	if (isl_qpolynomial_check_range(qp, dst_type, dst_pos, 0) < 0)
+		return isl_qpolynomial_free(qp);
 	if (dst_type == isl_dim_in)
 		dst_type = isl_dim_set;
 	if (src_type == isl_dim_in)
diff --git a/isl_space.c b/isl_space.c
index 16c7d64..407c212 100644
--- a/isl_space.c
+++ b/isl_space.c
@@ -1401,6 +1401,8 @@ __isl_give isl_space *isl_space_move_dims(__isl_take isl_space *space,
 
 	if (isl_space_check_range(space, src_type, src_pos, n) < 0)
 		return isl_space_free(space);
+	if (isl_space_check_range(space, dst_type, dst_pos, 0) < 0)
+		return isl_space_free(space);
 
 	if (dst_type == src_type && dst_pos == src_pos)
 		return space;
-- 
2.43.0


From 267767d319f603a2444483f5c1823fea19f33b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:15 +0000
Subject: [PATCH 48/83] fix: isl_point_{add,sub}_ui: check position

---
 isl_point.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/isl_point.c b/isl_point.c
index f315b3d..354ebaf 100644
--- a/isl_point.c
+++ b/isl_point.c
@@ -506,6 +506,8 @@ __isl_give isl_point *isl_point_add_ui(__isl_take isl_point *pnt,
 
 	if (!pnt || isl_point_is_void(pnt))
 		return pnt;
+	if (isl_point_check_range(pnt, type, pos, 1) < 0)
+		return isl_point_free(pnt);
 
 	pnt = isl_point_cow(pnt);
 	if (!pnt)
@@ -534,6 +536,8 @@ __isl_give isl_point *isl_point_sub_ui(__isl_take isl_point *pnt,
 
 	if (!pnt || isl_point_is_void(pnt))
 		return pnt;
+	if (isl_point_check_range(pnt, type, pos, 1) < 0)
+		return isl_point_free(pnt);
 
 	pnt = isl_point_cow(pnt);
 	if (!pnt)
-- 
2.43.0


From f15f8ec589e30e3ea22dc5bc4ba611b60a1eac75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:53 +0000
Subject: [PATCH 49/83] fix: isl_multi_pw_aff_pullback: keep result of
 restoring the space

---
 isl_multi_pw_aff_pullback_templ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_multi_pw_aff_pullback_templ.c b/isl_multi_pw_aff_pullback_templ.c
index fc5aed2..9a3e59f 100644
--- a/isl_multi_pw_aff_pullback_templ.c
+++ b/isl_multi_pw_aff_pullback_templ.c
@@ -63,7 +63,7 @@ __isl_give isl_multi_pw_aff *FN(isl_multi_pw_aff_pullback,BASE)(
 	}
 
 	FN(TYPE,free)(fn);
-	isl_multi_pw_aff_restore_space(mpa, space);
+	mpa = isl_multi_pw_aff_restore_space(mpa, space);
 	return mpa;
 error:
 	isl_space_free(space);
-- 
2.43.0


From 96376a5b346b68edb75adef8476a6653379f85ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:00 +0000
Subject: [PATCH 50/83] fix: isl_basic_map_detect_equalities: do not modify
 shared basic map

---
 isl_affine_hull.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/isl_affine_hull.c b/isl_affine_hull.c
index 3862509..5869971 100644
--- a/isl_affine_hull.c
+++ b/isl_affine_hull.c
@@ -925,6 +925,7 @@ __isl_give isl_basic_map *isl_basic_map_detect_equalities(
 		isl_basic_set_free(hull);
 		return isl_basic_map_set_to_empty(bmap);
 	}
+	bmap = isl_basic_map_cow(bmap);
 	bmap = isl_basic_map_extend(bmap, 0, hull->n_eq, 0);
 	total = isl_basic_set_dim(hull, isl_dim_all);
 	if (total < 0)
-- 
2.43.0


From e4d538706946b720491cf732f872359a45e99e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:52 +0000
Subject: [PATCH 51/83] fix: isl_aff_div: do not modify possibly shared divisor

---
 isl_aff.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/isl_aff.c b/isl_aff.c
index ea1765b..7b46e93 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -3461,18 +3461,15 @@ __isl_give isl_aff *isl_aff_div(__isl_take isl_aff *aff1,
 
 	neg = isl_int_is_neg(aff2->v->el[1]);
 	if (neg) {
-		isl_int_neg(aff2->v->el[0], aff2->v->el[0]);
-		isl_int_neg(aff2->v->el[1], aff2->v->el[1]);
+		aff1 = isl_aff_neg(aff1);
+		aff2 = isl_aff_neg(aff2);
+		if (!aff2)
+			goto error;
 	}
 
 	aff1 = isl_aff_scale(aff1, aff2->v->el[0]);
 	aff1 = isl_aff_scale_down(aff1, aff2->v->el[1]);
 
-	if (neg) {
-		isl_int_neg(aff2->v->el[0], aff2->v->el[0]);
-		isl_int_neg(aff2->v->el[1], aff2->v->el[1]);
-	}
-
 	isl_aff_free(aff2);
 	return aff1;
 error:
-- 
2.43.0


From a911fd89e11dead4283f870409ff32ebfaf11db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:20 +0000
Subject: [PATCH 52/83] fix: isl_aff_{pos,nonneg,zero}_basic_set: finalize
 result

---
 isl_aff.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/isl_aff.c b/isl_aff.c
index 7b46e93..9663739 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -2293,6 +2293,7 @@ static __isl_give isl_basic_set *aff_pos_basic_set(__isl_take isl_aff *aff,
 
 	bset = isl_basic_set_from_constraint(ineq);
 	bset = isl_basic_set_simplify(bset);
+	bset = isl_basic_set_finalize(bset);
 	return bset;
 error:
 	isl_aff_free(aff);
@@ -2325,6 +2326,7 @@ static __isl_give isl_basic_set *aff_nonneg_basic_set(
 	if (rational)
 		bset = isl_basic_set_set_rational(bset);
 	bset = isl_basic_set_simplify(bset);
+	bset = isl_basic_set_finalize(bset);
 	return bset;
 }
 
@@ -2380,6 +2382,7 @@ static __isl_give isl_basic_set *aff_zero_basic_set(__isl_take isl_aff *aff,
 	if (rational)
 		bset = isl_basic_set_set_rational(bset);
 	bset = isl_basic_set_simplify(bset);
+	bset = isl_basic_set_finalize(bset);
 	return bset;
 }
 
-- 
2.43.0


From 69a513847d9eff002c07c6cc516f0ed21942f95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:24 +0000
Subject: [PATCH 53/83] fix: isl_union_pw_multi_aff_scale_multi_val: use and
 free aligned argument

---
 isl_aff.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/isl_aff.c b/isl_aff.c
index 9663739..420ea4d 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -6910,7 +6910,6 @@ __isl_give isl_union_pw_multi_aff *isl_union_pw_multi_aff_scale_multi_val(
 {
 	struct isl_union_pw_multi_aff_transform_control control = {
 		.fn = &union_pw_multi_aff_scale_multi_val_entry,
-		.fn_user = mv,
 	};
 
 	upma = isl_union_pw_multi_aff_align_params(upma,
@@ -6920,7 +6919,8 @@ __isl_give isl_union_pw_multi_aff *isl_union_pw_multi_aff_scale_multi_val(
 	if (!upma || !mv)
 		goto error;
 
-	return isl_union_pw_multi_aff_transform(upma, &control);
+	control.fn_user = mv;
+	upma = isl_union_pw_multi_aff_transform(upma, &control);
 
 	isl_multi_val_free(mv);
 	return upma;
-- 
2.43.0


From 32b0d7afeb0d9452f5d25f2f58745b265a22fcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:24 +0000
Subject: [PATCH 54/83] fix: isl_aff_set_coefficient_val: free value on invalid
 position

---
 isl_aff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_aff.c b/isl_aff.c
index 420ea4d..3e154cb 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -1199,7 +1199,7 @@ __isl_give isl_aff *isl_aff_set_coefficient_val(__isl_take isl_aff *aff,
 		type = isl_dim_set;
 
 	if (isl_local_space_check_range(aff->ls, type, pos, 1) < 0)
-		return isl_aff_free(aff);
+		goto error;
 
 	if (isl_aff_is_nan(aff)) {
 		isl_val_free(v);
-- 
2.43.0


From ccdf2a898a3d39c3c9b18acbc00401dc249c7d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:49 +0000
Subject: [PATCH 55/83] fix: isl_map_sum, map_product: propagate failure to
 determine emptiness of a part

---
 isl_map.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/isl_map.c b/isl_map.c
index bd09958..3295aed 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -4937,10 +4937,14 @@ __isl_give isl_map *isl_map_sum(__isl_take isl_map *map1,
 	for (i = 0; i < map1->n; ++i)
 		for (j = 0; j < map2->n; ++j) {
 			struct isl_basic_map *part;
+			isl_bool empty;
 			part = isl_basic_map_sum(
 				    isl_basic_map_copy(map1->p[i]),
 				    isl_basic_map_copy(map2->p[j]));
-			if (isl_basic_map_is_empty(part))
+			empty = isl_basic_map_is_empty(part);
+			if (empty < 0)
+				result = isl_map_free(result);
+			if (empty < 0 || empty)
 				isl_basic_map_free(part);
 			else
 				result = isl_map_add_basic_map(result, part);
@@ -10966,9 +10970,13 @@ static __isl_give isl_map *map_product(__isl_take isl_map *map1,
 	for (i = 0; i < map1->n; ++i)
 		for (j = 0; j < map2->n; ++j) {
 			struct isl_basic_map *part;
+			isl_bool empty;
 			part = basic_map_product(isl_basic_map_copy(map1->p[i]),
 						 isl_basic_map_copy(map2->p[j]));
-			if (isl_basic_map_is_empty(part))
+			empty = isl_basic_map_is_empty(part);
+			if (empty < 0)
+				result = isl_map_free(result);
+			if (empty < 0 || empty)
 				isl_basic_map_free(part);
 			else
 				result = isl_map_add_basic_map(result, part);
-- 
2.43.0


From fcc8123b8552252de8f8dcf2ef01e0c78025b09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:49 +0000
Subject: [PATCH 56/83] fix: isl_pw_*_coalesce: do not leave a shared object
 with a missing domain when coalescing fails

---
 isl_pw_templ.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/isl_pw_templ.c b/isl_pw_templ.c
index 7d1daed..9f95e87 100644
--- a/isl_pw_templ.c
+++ b/isl_pw_templ.c
@@ -1337,9 +1337,13 @@ __isl_give PW *FN(PW,coalesce)(__isl_take PW *pw)
 		return FN(PW,free)(pw);
 
 	for (i = 0; i < n; ++i) {
-		pw->p[i].set = isl_set_coalesce(pw->p[i].set);
-		if (!pw->p[i].set)
+		isl_set *set;
+
+		set = isl_set_coalesce(isl_set_copy(pw->p[i].set));
+		if (!set)
 			goto error;
+		isl_set_free(pw->p[i].set);
+		pw->p[i].set = set;
 	}
 
 	return pw;
-- 
2.43.0


From ab525ed1d9fe2c37b11849623778dbb3a1bd48c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:05 +0000
Subject: [PATCH 57/83] fix: isl_tab_pip.c: do not treat a failed context as an
 empty one

---
 isl_tab_pip.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/isl_tab_pip.c b/isl_tab_pip.c
index 5a3148b..bd9127c 100644
--- a/isl_tab_pip.c
+++ b/isl_tab_pip.c
@@ -674,7 +674,7 @@ static void sol_add(struct isl_sol *sol, struct isl_tab *tab)
 	struct isl_basic_set *bset = NULL;
 	struct isl_mat *mat = NULL;
 	unsigned off;
-	int row;
+	int row, empty;
 	isl_int m;
 
 	if (sol->error || !tab)
@@ -682,7 +682,10 @@ static void sol_add(struct isl_sol *sol, struct isl_tab *tab)
 
 	if (tab->empty && !sol->add_empty)
 		return;
-	if (sol->context->op->is_empty(sol->context))
+	empty = sol->context->op->is_empty(sol->context);
+	if (empty < 0)
+		goto error;
+	if (empty)
 		return;
 
 	bset = sol_domain(sol);
@@ -3932,8 +3935,10 @@ static void find_in_pos(struct isl_sol *sol, struct isl_tab *tab, isl_int *ineq)
 	saved = sol->context->op->save(sol->context);
 
 	tab = isl_tab_dup(tab);
-	if (!tab)
+	if (!tab) {
+		sol->context->op->discard(saved);
 		goto error;
+	}
 
 	sol->context->op->add_ineq(sol->context, ineq, 0, 1);
 
@@ -4092,7 +4097,7 @@ static void reset_any_to_unknown(struct isl_tab *tab)
 static void find_solutions(struct isl_sol *sol, struct isl_tab *tab)
 {
 	struct isl_context *context;
-	int r;
+	int r, empty;
 
 	if (!tab || sol->error)
 		goto error;
@@ -4101,7 +4106,10 @@ static void find_solutions(struct isl_sol *sol, struct isl_tab *tab)
 
 	if (tab->empty)
 		goto done;
-	if (context->op->is_empty(context))
+	empty = context->op->is_empty(context);
+	if (empty < 0)
+		goto error;
+	if (empty)
 		goto done;
 
 	for (r = 0; r >= 0 && tab && !tab->empty; r = restore_lexmin(tab)) {
@@ -4252,7 +4260,7 @@ static void find_solutions_main(struct isl_sol *sol, struct isl_tab *tab)
 	sol->level = 0;
 
 	for (row = tab->n_redundant; row < tab->n_row; ++row) {
-		int p;
+		int p, empty;
 		struct isl_vec *eq;
 
 		if (!row_is_parameter_var(tab, row))
@@ -4285,7 +4293,10 @@ static void find_solutions_main(struct isl_sol *sol, struct isl_tab *tab)
 		if (isl_tab_mark_redundant(tab, row) < 0)
 			goto error;
 
-		if (sol->context->op->is_empty(sol->context))
+		empty = sol->context->op->is_empty(sol->context);
+		if (empty < 0)
+			goto error;
+		if (empty)
 			break;
 
 		row = tab->n_redundant - 1;
-- 
2.43.0


From 44a5e468632a541de66f931498ea9e73fd9a1e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:05 +0000
Subject: [PATCH 58/83] fix: isl_basic_map_sum: free dimension maps on error
 path

---
 isl_map.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/isl_map.c b/isl_map.c
index 3295aed..77a8923 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -4868,7 +4868,7 @@ __isl_give isl_basic_map *isl_basic_map_sum(__isl_take isl_basic_map *bmap1,
 	isl_size n_in, n_out, nparam;
 	unsigned total, pos;
 	struct isl_basic_map *bmap = NULL;
-	struct isl_dim_map *dim_map1, *dim_map2;
+	struct isl_dim_map *dim_map1 = NULL, *dim_map2 = NULL;
 	int i;
 
 	if (isl_basic_map_check_equal_space(bmap1, bmap2) < 0)
@@ -4912,6 +4912,8 @@ __isl_give isl_basic_map *isl_basic_map_sum(__isl_take isl_basic_map *bmap1,
 	bmap = isl_basic_map_simplify(bmap);
 	return isl_basic_map_finalize(bmap);
 error:
+	isl_dim_map_free(dim_map1);
+	isl_dim_map_free(dim_map2);
 	isl_basic_map_free(bmap);
 	isl_basic_map_free(bmap1);
 	isl_basic_map_free(bmap2);
-- 
2.43.0


From b1f4e75f23993bc9bba0d240b8c866addd8515ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:17 +0000
Subject: [PATCH 59/83] fix: isl_space_move_dims: reject destination types that
 are not tuple or parameter dimensions

---
 isl_space.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/isl_space.c b/isl_space.c
index 407c212..5a03ede 100644
--- a/isl_space.c
+++ b/isl_space.c
@@ -1403,6 +1403,10 @@ __isl_give isl_space *isl_space_move_dims(__isl_take isl_space *space,
 		return isl_space_free(space);
 	if (isl_space_check_range(space, dst_type, dst_pos, 0) < 0)
 		return isl_space_free(space);
+	if (dst_type != isl_dim_param && dst_type != isl_dim_in &&
+	    dst_type != isl_dim_out)
+		isl_die(isl_space_get_ctx(space), isl_error_invalid,
+			"cannot move to this type of dimensions", goto error);
 
 	if (dst_type == src_type && dst_pos == src_pos)
 		return space;
-- 
2.43.0


From 0024eb7de846fc87b94e4e28b7e97ed66b8fb16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:48 +0000
Subject: [PATCH 60/83] fix: isl_tab_from_recession_cone: restore constant
 terms before failing

---
 isl_tab.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/isl_tab.c b/isl_tab.c
index b8a0978..add4ae5 100644
--- a/isl_tab.c
+++ b/isl_tab.c
@@ -2453,13 +2453,16 @@ struct isl_tab *isl_tab_from_recession_cone(__isl_keep isl_basic_set *bset,
 	isl_int_init(cst);
 	isl_int_set_si(cst, 0);
 	for (i = 0; i < bset->n_eq; ++i) {
+		isl_stat r = isl_stat_ok;
+
 		isl_int_swap(bset->eq[i][offset], cst);
-		if (offset > 0) {
-			if (isl_tab_add_eq(tab, bset->eq[i] + offset) < 0)
-				goto error;
-		} else
+		if (offset > 0)
+			r = isl_tab_add_eq(tab, bset->eq[i] + offset);
+		else
 			tab = add_eq(tab, bset->eq[i]);
 		isl_int_swap(bset->eq[i][offset], cst);
+		if (r < 0)
+			goto error;
 		if (!tab)
 			goto done;
 	}
-- 
2.43.0


From b538091a01f61aaf2ad643538e8587bb3712479c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:48 +0000
Subject: [PATCH 61/83] fix: isl_val_gt_si: propagate failure of the comparison

---
 isl_val.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_val.c b/isl_val.c
index 3488fd0..9604116 100644
--- a/isl_val.c
+++ b/isl_val.c
@@ -1342,7 +1342,7 @@ isl_bool isl_val_gt_si(__isl_keep isl_val *v, long i)
 		return isl_bool_false;
 
 	vi = isl_val_int_from_si(isl_val_get_ctx(v), i);
-	res = isl_bool_ok(isl_val_gt(v, vi));
+	res = isl_val_gt(v, vi);
 	isl_val_free(vi);
 
 	return res;
-- 
2.43.0


From 2e423d0fa9280c37f0d4a0ddc32105bb3f9c7704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:51 +0000
Subject: [PATCH 62/83] fix: isl_union_map_sample: free sample of earlier
 (empty) map

---
 isl_union_map.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/isl_union_map.c b/isl_union_map.c
index eaafe18..e745692 100644
--- a/isl_union_map.c
+++ b/isl_union_map.c
@@ -2765,6 +2765,7 @@ static isl_stat sample_entry(void **entry, void *user)
 	isl_basic_map **sample = (isl_basic_map **)user;
 	isl_map *map = *entry;
 
+	isl_basic_map_free(*sample);
 	*sample = isl_map_sample(isl_map_copy(map));
 	if (!*sample)
 		return isl_stat_error;
-- 
2.43.0


From b3a5c5c237d757a98434eabf30bb5c5c3afeaf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:51 +0000
Subject: [PATCH 63/83] fix: isl_tab_push_basis: free saved basis if it cannot
 be pushed

---
 isl_tab.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/isl_tab.c b/isl_tab.c
index add4ae5..cea6b55 100644
--- a/isl_tab.c
+++ b/isl_tab.c
@@ -851,7 +851,11 @@ isl_stat isl_tab_push_basis(struct isl_tab *tab)
 		return isl_stat_error;
 	for (i = 0; i < tab->n_col; ++i)
 		u.col_var[i] = tab->col_var[i];
-	return push_union(tab, isl_tab_undo_saved_basis, u);
+	if (push_union(tab, isl_tab_undo_saved_basis, u) < 0) {
+		free(u.col_var);
+		return isl_stat_error;
+	}
+	return isl_stat_ok;
 }
 
 isl_stat isl_tab_push_callback(struct isl_tab *tab,
-- 
2.43.0


From 140bb95315d0d6f53e817c86faf992e9ac1135d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:12 +0000
Subject: [PATCH 64/83] fix: isl_aff_move_dims: handle failure to copy the
 affine expression

---
 isl_aff.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_aff.c b/isl_aff.c
index 3e154cb..65962ad 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -2748,6 +2748,8 @@ __isl_give isl_aff *isl_aff_move_dims(__isl_take isl_aff *aff,
 			return isl_aff_free(aff));
 
 	aff = isl_aff_cow(aff);
+	if (!aff)
+		return NULL;
 	src_off = isl_aff_domain_offset(aff, src_type);
 	dst_off = isl_aff_domain_offset(aff, dst_type);
 	if (src_off < 0 || dst_off < 0)
-- 
2.43.0


From fbb3d1394b1bb286ad28c389510d8fe68bd08e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:12 +0000
Subject: [PATCH 65/83] fix: isl_fixed_box_invalidate: handle failure to set
 the extent

---
 isl_box.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_box.c b/isl_box.c
index 34a49ea..284889e 100644
--- a/isl_box.c
+++ b/isl_box.c
@@ -151,7 +151,7 @@ static __isl_give isl_fixed_box *isl_fixed_box_invalidate(
 	isl_aff_free(nan);
 	isl_val_free(infty);
 
-	if (!box->offset || !box->size)
+	if (!box || !box->offset || !box->size)
 		return isl_fixed_box_free(box);
 	return box;
 }
-- 
2.43.0


From 24c3002247407fafb206f7437a25413c2df500da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:12 +0000
Subject: [PATCH 66/83] fix: isl_basic_map_detect_equalities: handle failure to
 copy the basic map

---
 isl_affine_hull.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_affine_hull.c b/isl_affine_hull.c
index 5869971..5702c1b 100644
--- a/isl_affine_hull.c
+++ b/isl_affine_hull.c
@@ -928,7 +928,7 @@ __isl_give isl_basic_map *isl_basic_map_detect_equalities(
 	bmap = isl_basic_map_cow(bmap);
 	bmap = isl_basic_map_extend(bmap, 0, hull->n_eq, 0);
 	total = isl_basic_set_dim(hull, isl_dim_all);
-	if (total < 0)
+	if (!bmap || total < 0)
 		goto error;
 	for (i = 0; i < hull->n_eq; ++i) {
 		j = isl_basic_map_alloc_equality(bmap);
-- 
2.43.0


From 3ae63cd5fe473f7dd2e568e52e42db662ecc5ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:16 +0000
Subject: [PATCH 67/83] fix: isl_basic_map_move_dims: reject moves of local
 variables

---
 isl_map.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/isl_map.c b/isl_map.c
index 77a8923..bed445c 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -4260,6 +4260,10 @@ __isl_give isl_basic_map *isl_basic_map_move_dims(
 	if (isl_basic_map_check_range(bmap, dst_type, dst_pos, 0) < 0)
 		return isl_basic_map_free(bmap);
 
+	if (dst_type == isl_dim_div || src_type == isl_dim_div)
+		isl_die(isl_basic_map_get_ctx(bmap), isl_error_invalid,
+			"cannot move local variables", goto error);
+
 	if (dst_type == src_type && dst_pos == src_pos)
 		return bmap;
 
-- 
2.43.0


From 887255c6d858f5f7346ee592886d475f12f74ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:50 +0000
Subject: [PATCH 68/83] fix: isl_map_plain_unshifted_simple_hull: handle
 failure to drop constraints

---
 isl_convex_hull.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_convex_hull.c b/isl_convex_hull.c
index 289b972..c7b40da 100644
--- a/isl_convex_hull.c
+++ b/isl_convex_hull.c
@@ -2664,6 +2664,8 @@ __isl_give isl_basic_map *isl_map_plain_unshifted_simple_hull(
 	if (map->n <= 1)
 		return map_simple_hull_trivial(map);
 	map = isl_map_drop_constraints_involving_unknown_divs(map);
+	if (!map)
+		return NULL;
 	hull = isl_basic_map_copy(map->p[0]);
 	for (i = 1; i < map->n; ++i) {
 		isl_basic_map *bmap_i;
-- 
2.43.0


From 527ce5f26be650b8ee6e2cd887a93006bd1c0f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:20 +0000
Subject: [PATCH 69/83] fix: isl_basic_map_project_out: check range before
 using it

---
 isl_map.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/isl_map.c b/isl_map.c
index bed445c..73e6862 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -4562,6 +4562,9 @@ __isl_give isl_basic_map *isl_basic_map_project_out(
 			"cannot project out existentially quantified variables",
 			return isl_basic_map_free(bmap));
 
+	if (isl_basic_map_check_range(bmap, type, first, n) < 0)
+		return isl_basic_map_free(bmap);
+
 	empty = isl_basic_map_plain_is_empty(bmap);
 	if (empty < 0)
 		return isl_basic_map_free(bmap);
@@ -4575,9 +4578,6 @@ __isl_give isl_basic_map *isl_basic_map_project_out(
 	if (ISL_F_ISSET(bmap, ISL_BASIC_MAP_RATIONAL))
 		return isl_basic_map_remove_dims(bmap, type, first, n);
 
-	if (isl_basic_map_check_range(bmap, type, first, n) < 0)
-		return isl_basic_map_free(bmap);
-
 	bmap = move_last(bmap, type, first, n);
 	bmap = isl_basic_map_cow(bmap);
 	bmap = insert_div_rows(bmap, n);
-- 
2.43.0


From 5fed8a0946f359437367f0e5e2b1e8492ac7bc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:00 +0000
Subject: [PATCH 70/83] fix: print disjuncts without explicit constraints as
 "true"

If a set or map has several disjuncts and one of them only has constraints
that are implied by the explicit representations of its integer divisions,
then it was printed as "()", which is not accepted by the parser.
---
 isl_output.c | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/isl_output.c b/isl_output.c
index 9839a52..16536a6 100644
--- a/isl_output.c
+++ b/isl_output.c
@@ -1119,9 +1119,47 @@ static __isl_give isl_printer *isl_basic_map_print_isl(
 	return p;
 }
 
+/* Are all constraints of "bmap" implicit in the explicit representations
+ * of its integer divisions, such that print_disjunct does not print anything?
+ */
+static isl_bool has_only_implicit_constraints(__isl_keep isl_basic_map *bmap,
+	__isl_keep isl_printer *p)
+{
+	int i;
+	isl_size total = isl_basic_map_dim(bmap, isl_dim_all);
+	unsigned o_div = isl_basic_map_offset(bmap, isl_dim_div);
+	isl_bool implicit = isl_bool_true;
+	isl_mat *div;
+
+	if (total < 0 || !p)
+		return isl_bool_error;
+	if (bmap->n_eq > 0)
+		return isl_bool_false;
+	if (p->dump)
+		return isl_bool_ok(bmap->n_ineq == 0);
+
+	div = isl_basic_map_get_divs(bmap);
+	for (i = 0; implicit == isl_bool_true && i < bmap->n_ineq; ++i) {
+		int l = isl_seq_last_non_zero(bmap->ineq[i], 1 + total);
+
+		if (l < 0)
+			continue;
+		if (l < o_div || !can_print_div_expr(p, div, l - o_div))
+			implicit = isl_bool_false;
+		else
+			implicit = isl_basic_map_is_div_constraint(bmap,
+						    bmap->ineq[i], l - o_div);
+	}
+	isl_mat_free(div);
+
+	return implicit;
+}
+
 /* Print the disjuncts of a map (or set) "map" to "p".
  * The names of the variables are taken from "space".
  * "latex" is set if the constraints should be printed in LaTeX format.
+ *
+ * A disjunct without constraints is printed as "true".
  */
 static __isl_give isl_printer *print_disjuncts_core(__isl_keep isl_map *map,
 	__isl_keep isl_space *space, __isl_take isl_printer *p, int latex)
@@ -1131,8 +1169,17 @@ static __isl_give isl_printer *print_disjuncts_core(__isl_keep isl_map *map,
 	if (map->n == 0)
 		p = isl_printer_print_str(p, "false");
 	for (i = 0; i < map->n; ++i) {
+		isl_bool implicit;
+
 		if (i)
 			p = isl_printer_print_str(p, s_or[latex]);
+		implicit = has_only_implicit_constraints(map->p[i], p);
+		if (implicit < 0)
+			return isl_printer_free(p);
+		if (implicit) {
+			p = isl_printer_print_str(p, "true");
+			continue;
+		}
 		if (map->n > 1 && map->p[i]->n_eq + map->p[i]->n_ineq > 1)
 			p = isl_printer_print_str(p, "(");
 		p = print_disjunct(map->p[i], space, p, latex);
-- 
2.43.0


From e7e7a73365af5655a1b6f8dde956fb659980cbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:19 +0000
Subject: [PATCH 71/83] fix: accept an empty formula in front of a ;

A universe parameter domain is printed as " : " also if it is followed
by other disjuncts, but the parser only accepted this at the end
of a set.
---
 isl_input.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/isl_input.c b/isl_input.c
index e0eb2bf..37ea75f 100644
--- a/isl_input.c
+++ b/isl_input.c
@@ -2217,7 +2217,8 @@ static __isl_give isl_map *read_disjuncts(__isl_keep isl_stream *s,
 {
 	isl_map *res;
 
-	if (isl_stream_next_token_is(s, '}'))
+	if (isl_stream_next_token_is(s, '}') ||
+	    isl_stream_next_token_is(s, ';'))
 		return map;
 
 	res = read_conjuncts(s, v, isl_map_copy(map), rational);
-- 
2.43.0


From f96ea7fa55e8b2b671dbed2b97df776ba56afaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:40 +0000
Subject: [PATCH 72/83] fix: isl_stream_free: free all pushed back tokens

---
 isl_stream.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_stream.c b/isl_stream.c
index 862015b..359f45a 100644
--- a/isl_stream.c
+++ b/isl_stream.c
@@ -805,6 +805,8 @@ void isl_stream_free(__isl_take isl_stream *s)
 		isl_stream_error(s, tok, "unexpected token");
 		isl_token_free(tok);
 	}
+	while (s->n_token != 0)
+		isl_token_free(isl_stream_next_token(s));
 	if (s->keywords) {
 		isl_hash_table_foreach(s->ctx, s->keywords, &free_keyword, NULL);
 		isl_hash_table_free(s->ctx, s->keywords);
-- 
2.43.0


From 69e4bf6128837d8e8014709dbb44c493ee56dfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:40 +0000
Subject: [PATCH 73/83] fix: isl_token_get_str: reject tokens that do not carry
 a string

---
 isl_stream.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/isl_stream.c b/isl_stream.c
index 359f45a..12d67d7 100644
--- a/isl_stream.c
+++ b/isl_stream.c
@@ -107,7 +107,8 @@ __isl_give char *isl_token_get_str(isl_ctx *ctx, struct isl_token *tok)
 {
 	if (!tok)
 		return NULL;
-	if (!tok->u.s)
+	if (tok->type == ISL_TOKEN_VALUE || tok->type == ISL_TOKEN_MAP ||
+	    tok->type == ISL_TOKEN_AFF || !tok->u.s)
 		isl_die(ctx, isl_error_invalid,
 			"token does not have a string representation",
 			return NULL);
-- 
2.43.0


From c935ea8361e781988a2a6092859520dc0a8bf1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:40 +0000
Subject: [PATCH 74/83] fix: report unexpected end of input while reading
 objects

---
 isl_input.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/isl_input.c b/isl_input.c
index 37ea75f..c2fc90b 100644
--- a/isl_input.c
+++ b/isl_input.c
@@ -430,8 +430,10 @@ static __isl_give isl_pw_aff *accept_div(__isl_keep isl_stream *s,
 			goto error;
 
 		tok = next_token(s);
-		if (!tok)
+		if (!tok) {
+			isl_stream_error(s, NULL, "unexpected EOF");
 			goto error;
+		}
 		if (tok->type != ISL_TOKEN_VALUE) {
 			isl_stream_error(s, tok, "expected denominator");
 			isl_stream_push_token(s, tok);
@@ -1468,8 +1470,10 @@ static __isl_give isl_space *read_tuple_space(__isl_keep isl_stream *s,
 	isl_space *res = NULL;
 
 	tok = isl_stream_next_token(s);
-	if (!tok)
+	if (!tok) {
+		isl_stream_error(s, NULL, "unexpected EOF");
 		goto error;
+	}
 	if (tok->type == ISL_TOKEN_IDENT || tok->is_keyword) {
 		name = strdup(tok->u.s);
 		isl_token_free(tok);
@@ -2114,8 +2118,10 @@ static int resolve_paren_expr(__isl_keep isl_stream *s,
 	}
 
 	tok2 = isl_stream_next_token(s);
-	if (!tok2)
+	if (!tok2) {
+		isl_stream_error(s, NULL, "unexpected EOF");
 		goto error;
+	}
 	line = tok2->line;
 	col = tok2->col;
 	isl_stream_push_token(s, tok2);
@@ -2836,8 +2842,10 @@ static struct isl_obj obj_read_body(__isl_keep isl_stream *s,
 	if (!map)
 		goto error;
 	tok = isl_stream_next_token(s);
-	if (!tok)
+	if (!tok) {
+		isl_stream_error(s, NULL, "unexpected EOF");
 		goto error;
+	}
 	if (tok->type == ISL_TOKEN_TO) {
 		obj.type = isl_obj_map;
 		isl_token_free(tok);
-- 
2.43.0


From 07c12e9d19776ed4c764eb871045cd1b2bd2966c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:14 +0000
Subject: [PATCH 75/83] fix: reject negative exponents when reading
 quasi-polynomials

---
 isl_input.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/isl_input.c b/isl_input.c
index c2fc90b..2f526be 100644
--- a/isl_input.c
+++ b/isl_input.c
@@ -2549,7 +2549,8 @@ static int optional_power(__isl_keep isl_stream *s)
 	}
 	isl_token_free(tok);
 	tok = isl_stream_next_token(s);
-	if (!tok || tok->type != ISL_TOKEN_VALUE) {
+	if (!tok || tok->type != ISL_TOKEN_VALUE ||
+	    isl_int_is_neg(tok->u.v)) {
 		isl_stream_error(s, tok, "expecting exponent");
 		if (tok)
 			isl_stream_push_token(s, tok);
-- 
2.43.0


From 8a6bc399b64e01055ed960d905a5af0c1da628df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:14 +0000
Subject: [PATCH 76/83] fix: reading schedule bands: do not leak repeated
 coincident fields

---
 isl_schedule_read.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/isl_schedule_read.c b/isl_schedule_read.c
index 81570b3..da216f1 100644
--- a/isl_schedule_read.c
+++ b/isl_schedule_read.c
@@ -541,6 +541,7 @@ static __isl_give isl_schedule_tree *read_band(isl_stream *s)
 				goto error;
 			break;
 		case isl_schedule_key_coincident:
+			isl_val_list_free(coincident);
 			coincident = read_coincident(s);
 			if (!coincident)
 				goto error;
-- 
2.43.0


From 860a5af7a6e4079ffb6d636fea6ff6247c700e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:14 +0000
Subject: [PATCH 77/83] fix: reject sequence and set nodes without children
 when reading schedules

---
 isl_schedule_read.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/isl_schedule_read.c b/isl_schedule_read.c
index da216f1..01e4aab 100644
--- a/isl_schedule_read.c
+++ b/isl_schedule_read.c
@@ -629,6 +629,11 @@ static __isl_give isl_schedule_tree *read_children(isl_stream *s,
 
 	if (more < 0 || isl_stream_yaml_read_end_sequence(s) < 0)
 		list = isl_schedule_tree_list_free(list);
+	if (list && isl_schedule_tree_list_n_schedule_tree(list) == 0) {
+		list = isl_schedule_tree_list_free(list);
+		isl_die(ctx, isl_error_invalid, "missing children",
+			return NULL);
+	}
 
 	return isl_schedule_tree_from_children(type, list);
 }
-- 
2.43.0


From 0c11a2af0f58345bf86dd7ae7274d6219ce5ad72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:35 +0000
Subject: [PATCH 78/83] fix: reject integer division of a constant by zero when
 reading

---
 isl_input.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/isl_input.c b/isl_input.c
index 2f526be..d413a07 100644
--- a/isl_input.c
+++ b/isl_input.c
@@ -265,6 +265,10 @@ static isl_stat int_div_by_cst(__isl_keep isl_stream *s, isl_int *f)
 		isl_stream_error(s, tok, "expecting constant value");
 		goto error;
 	}
+	if (isl_int_is_zero(tok->u.v)) {
+		isl_stream_error(s, tok, "expecting non-zero divisor");
+		goto error;
+	}
 
 	isl_int_fdiv_q(*f, *f, tok->u.v);
 
-- 
2.43.0


From e664e282d9c657c9994a1edcb674a571940b2639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:08 +0000
Subject: [PATCH 79/83] fix: isl_map_transitive_closure: do not mix up the
 local variables of the parameter-free deltas

---
 isl_transitive_closure.c | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/isl_transitive_closure.c b/isl_transitive_closure.c
index 2733cee..27612b6 100644
--- a/isl_transitive_closure.c
+++ b/isl_transitive_closure.c
@@ -452,7 +452,10 @@ static isl_bool empty_path_is_identity(__isl_keep isl_basic_map *path,
 	return is_id;
 }
 
-/* If any of the constraints is found to be impure then this function
+/* Add the constraints of "delta" to "path", where the local variables
+ * of "delta" correspond to the columns of "path" starting at "div_off".
+ *
+ * If any of the constraints is found to be impure then this function
  * sets *impurity to 1.
  *
  * If impurity is NULL then we are dealing with a non-parametric set
@@ -460,8 +463,8 @@ static isl_bool empty_path_is_identity(__isl_keep isl_basic_map *path,
  */
 static __isl_give isl_basic_map *add_delta_constraints(
 	__isl_take isl_basic_map *path,
-	__isl_keep isl_basic_set *delta, unsigned off, unsigned nparam,
-	unsigned d, int *div_purity, int eq, int *impurity)
+	__isl_keep isl_basic_set *delta, unsigned off, unsigned div_off,
+	unsigned nparam, unsigned d, int *div_purity, int eq, int *impurity)
 {
 	int i, k;
 	int n = eq ? delta->n_eq : delta->n_ineq;
@@ -507,7 +510,7 @@ static __isl_give isl_basic_map *add_delta_constraints(
 				    delta_c[i] + 1 + nparam, d);
 			isl_seq_cpy(path_c, delta_c[i], 1 + nparam);
 		}
-		isl_seq_cpy(path_c + off - n_div,
+		isl_seq_cpy(path_c + div_off,
 			    delta_c[i] + 1 + nparam + d, n_div);
 	}
 
@@ -571,6 +574,9 @@ error:
  *			E f + k e >= 0
  *
  * to the constructed relation.
+ * The existentially quantified variables in \delta' are unrelated
+ * to those in \delta and are therefore represented by additional
+ * local variables.
  */
 static __isl_give isl_map *path_along_delta(__isl_take isl_space *space,
 	__isl_take isl_basic_set *delta)
@@ -580,6 +586,7 @@ static __isl_give isl_map *path_along_delta(__isl_take isl_space *space,
 	isl_size n_div;
 	isl_size nparam;
 	isl_size total;
+	isl_size extra_div;
 	unsigned off;
 	int i, k;
 	isl_bool is_id;
@@ -619,9 +626,9 @@ static __isl_give isl_map *path_along_delta(__isl_take isl_space *space,
 	if (n_div && !div_purity)
 		goto error;
 
-	path = add_delta_constraints(path, delta, off, nparam, d,
+	path = add_delta_constraints(path, delta, off, off - n_div, nparam, d,
 				     div_purity, 1, &impurity);
-	path = add_delta_constraints(path, delta, off, nparam, d,
+	path = add_delta_constraints(path, delta, off, off - n_div, nparam, d,
 				     div_purity, 0, &impurity);
 	if (impurity) {
 		isl_space *space = isl_basic_set_get_space(delta);
@@ -629,14 +636,22 @@ static __isl_give isl_map *path_along_delta(__isl_take isl_space *space,
 						  isl_dim_param, 0, nparam);
 		delta = isl_basic_set_add_dims(delta, isl_dim_param, nparam);
 		delta = isl_basic_set_reset_space(delta, space);
-		if (!delta)
+		extra_div = isl_basic_set_dim(delta, isl_dim_div);
+		if (extra_div < 0)
 			goto error;
-		path = isl_basic_map_extend_constraints(path, delta->n_eq,
+		path = isl_basic_map_extend(path, extra_div, delta->n_eq,
 							delta->n_ineq + 1);
-		path = add_delta_constraints(path, delta, off, nparam, d,
-					     NULL, 1, NULL);
-		path = add_delta_constraints(path, delta, off, nparam, d,
-					     NULL, 0, NULL);
+		for (i = 0; i < extra_div; ++i) {
+			k = isl_basic_map_alloc_div(path);
+			if (k < 0)
+				goto error;
+			isl_int_set_si(path->div[k][0], 0);
+		}
+		path = add_delta_constraints(path, delta, off, 1 + total,
+					     nparam, d, NULL, 1, NULL);
+		path = add_delta_constraints(path, delta, off, 1 + total,
+					     nparam, d, NULL, 0, NULL);
+		total += extra_div;
 		path = isl_basic_map_gauss(path, NULL);
 	}
 
-- 
2.43.0


From e43683d3f31c757ffa2048c4a5b6b1268708ccbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:08 +0000
Subject: [PATCH 80/83] fix: isl_union_map_power: handle a single map between
 different spaces

---
 isl_transitive_closure.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/isl_transitive_closure.c b/isl_transitive_closure.c
index 27612b6..7a94bad 100644
--- a/isl_transitive_closure.c
+++ b/isl_transitive_closure.c
@@ -2938,10 +2938,21 @@ __isl_give isl_union_map *isl_union_map_power(__isl_take isl_union_map *umap,
 	if (n == 0)
 		return umap;
 	if (n == 1) {
-		struct isl_union_power up = { NULL, exact };
-		isl_union_map_foreach_map(umap, &power, &up);
-		isl_union_map_free(umap);
-		return up.pow;
+		isl_bool equal;
+		isl_map *map;
+
+		map = isl_map_from_union_map(isl_union_map_copy(umap));
+		equal = isl_map_tuple_is_equal(map, isl_dim_in,
+						map, isl_dim_out);
+		isl_map_free(map);
+		if (equal < 0)
+			return isl_union_map_free(umap);
+		if (equal) {
+			struct isl_union_power up = { NULL, exact };
+			isl_union_map_foreach_map(umap, &power, &up);
+			isl_union_map_free(umap);
+			return up.pow;
+		}
 	}
 	inc = isl_union_map_from_map(increment(isl_union_map_get_space(umap)));
 	umap = isl_union_map_product(inc, umap);
-- 
2.43.0


From defbc065b69f6f5f5093777f12ec1cca864a8e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:32 +0000
Subject: [PATCH 81/83] fix: reading schedules: accept mark nodes without
 child, as they are printed

---
 isl_schedule_read.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/isl_schedule_read.c b/isl_schedule_read.c
index 01e4aab..e62e436 100644
--- a/isl_schedule_read.c
+++ b/isl_schedule_read.c
@@ -424,8 +424,8 @@ static __isl_give isl_schedule_tree *read_mark(isl_stream *s)
 	if (more < 0)
 		goto error;
 	if (!more) {
-		isl_die(ctx, isl_error_invalid, "expecting child",
-			goto error);
+		tree = isl_schedule_tree_leaf(ctx);
+		tree = isl_schedule_tree_insert_mark(tree, mark);
 	} else {
 		key = get_key(s);
 		if (key != isl_schedule_key_child)
-- 
2.43.0


From a321eac5f47efcc8bcf38d2856765d9fb068ad1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:46 +0000
Subject: [PATCH 82/83] fix: accept an empty body when reading (multi) union
 piecewise affine expressions

---
 isl_input.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/isl_input.c b/isl_input.c
index d413a07..114eae0 100644
--- a/isl_input.c
+++ b/isl_input.c
@@ -4228,6 +4228,7 @@ __isl_give isl_multi_pw_aff *isl_multi_pw_aff_read_from_str(isl_ctx *ctx,
 }
 
 /* Read the body of an isl_union_pw_aff from "s" with parameter domain "dom".
+ * The body may be empty.
  */
 static __isl_give isl_union_pw_aff *read_union_pw_aff_with_dom(
 	__isl_keep isl_stream *s, __isl_take isl_set *dom, struct vars *v)
@@ -4237,6 +4238,14 @@ static __isl_give isl_union_pw_aff *read_union_pw_aff_with_dom(
 	isl_set *aff_dom;
 	int n;
 
+	if (isl_stream_next_token_is(s, '}')) {
+		isl_space *space;
+
+		space = isl_set_get_space(dom);
+		isl_set_free(dom);
+		return isl_union_pw_aff_empty_space(space);
+	}
+
 	n = v->n;
 	aff_dom = read_aff_domain(s, isl_set_copy(dom), v);
 	pa = read_pw_aff_with_dom(s, aff_dom, v);
-- 
2.43.0


From fdeb9de8a77c63064930cbe2e8aabfb34f014059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:12 +0000
Subject: [PATCH 83/83] fix: transitive closure: do not read a missing or
 uninitialized exact flag

---
 isl_transitive_closure.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/isl_transitive_closure.c b/isl_transitive_closure.c
index 7a94bad..37c3e27 100644
--- a/isl_transitive_closure.c
+++ b/isl_transitive_closure.c
@@ -1900,7 +1900,7 @@ static __isl_give isl_map *construct_power_components(
 	struct isl_tc_follows_data data;
 	struct isl_tarjan_graph *g = NULL;
 	isl_bool *orig_exact;
-	isl_bool local_exact;
+	isl_bool local_exact = isl_bool_true;
 
 	if (!map)
 		goto error;
@@ -2780,6 +2780,8 @@ static __isl_give isl_union_map *union_components(
 	struct isl_tarjan_graph *g = NULL;
 	int c, l;
 	int recheck = 0;
+	isl_bool *orig_exact = exact;
+	isl_bool local_exact = isl_bool_true;
 
 	n = 0;
 	if (isl_union_map_foreach_map(umap, inc_count, &n) < 0)
@@ -2805,6 +2807,9 @@ static __isl_give isl_union_map *union_components(
 	if (!g)
 		goto error;
 
+	if (data.check_closed && !exact)
+		exact = &local_exact;
+
 	c = 0;
 	i = 0;
 	l = n;
@@ -2846,7 +2851,7 @@ static __isl_give isl_union_map *union_components(
 
 	if (recheck) {
 		isl_union_map_free(path);
-		return union_floyd_warshall(umap, exact);
+		return union_floyd_warshall(umap, orig_exact);
 	}
 
 	isl_union_map_free(umap);
-- 
2.43.0

