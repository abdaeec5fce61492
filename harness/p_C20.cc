// C20: coefficients of valid constraints and solutions; oracle: exact LP.
#include "fn.h"
#include "lp.h"
#define R_(e) R(c, e, #e)
using namespace vp;
namespace {
struct Rows { std::vector<QRow> eq, in; };
Rows rows(const MBasic &b) { return {q(b.eq), q(b.ineq)}; }
// is w + y.x >= 0 on all rational points of r
int valid(const Rows &r, int n, const Pt &wy) { QRow o(1 + n); for (int i = 0; i <= n; ++i) o[i] = mpq_class(Z(wy[i])); mpq_class v; LPStat s = lp_min(n, r.eq, r.in, o, v); return s == LP_EMPTY ? -1 : s == LP_OPT && v >= 0; }
BSet gen(Case &c, const Sp &sp, int nv, bool factors)
{
	isl_space *s = mk_space(c, sp); isl_local_space *ls = isl_local_space_from_space(isl_space_copy(s)); isl_basic_set *x = isl_basic_set_universe(s); int np = sp.np();
	int n = 1 + c.t.below(5); std::vector<int> grp; int ng = factors ? 2 : 1; for (int i = 0; i < nv; ++i) grp.push_back(c.t.below(ng));
	for (int k = 0; k < n; ++k) {
		ZRow r = c.t.chance(1, 40) ? gen_row(c, nv, 9, 100) : gen_row(c, nv, 3, 5); int g = c.t.below(ng); for (int i = 0; i < nv; ++i) if (grp[i] != g) r[1 + i] = 0;
		if (factors && c.t.chance(1, 4) && nv >= 3) { r[1] += r[2]; r[3 - (nv < 3)] += r[1]; }
		bool eq = c.t.chance(1, 6);
		isl_constraint *k_ = eq ? isl_constraint_alloc_equality(isl_local_space_copy(ls)) : isl_constraint_alloc_inequality(isl_local_space_copy(ls)); k_ = isl_constraint_set_constant_val(k_, mkval(c.ctx, r[0])); for (int i = 0; i < np; ++i) k_ = isl_constraint_set_coefficient_val(k_, isl_dim_param, i, mkval(c.ctx, r[1 + i])); for (int i = 0; i < nv - np; ++i) k_ = isl_constraint_set_coefficient_val(k_, isl_dim_set, i, mkval(c.ctx, r[1 + np + i])); x = isl_basic_set_add_constraint(x, k_);
	}
	isl_local_space_free(ls); return R(c, x, "build");
}
}
static void run(Case &c)
{
	Sp sp = gen_set_space(c, 1, 3, c.t.chance(1, 4)); int np = sp.np(), n = np + sp.no(); if (n > 4) c.discard("dim");
	std::vector<BSet> p; int k = 1 + c.t.weighted({4, 2, 1}); for (int i = 0; i < k; ++i) { BSet b = gen(c, sp, n, c.t.chance(1, 2)); MMap m = extract(c, b.g()); if (m.d.empty()) c.discard("empty"); if (!m.d[0].divs.empty()) c.discard("divs"); Rows r = rows(m.d[0]); if (!lp_sat(n, r.eq, r.in)) c.discard("empty"); p.push_back(b); }
	std::vector<Rows> rs; for (auto &b : p) rs.push_back(rows(extract(c, b.g()).d[0]));
	std::string how; for (auto &b : p) how += S(b) + "\n";
	Set u = R_(isl_set_from_basic_set(p[0].c())); for (int i = 1; i < k; ++i) u = R_(isl_set_union(u.r(), isl_set_from_basic_set(p[i].c())));
	// simplification may merge pieces; use the pieces the set really has
	std::vector<Rows> us; { MMap m = extract(c, u.g()); for (auto &b : m.d) { if (!b.divs.empty()) c.discard("divs"); us.push_back(rows(b)); if (!lp_sat(n, us.back().eq, us.back().in)) c.discard("empty"); } }
	BSet one = R_(isl_basic_set_coefficients(p[0].c())), all = R_(isl_set_coefficients(u.c()));
	H<isl_basic_set_list> l; { isl_basic_set_list *q = isl_basic_set_list_alloc(c.ctx, k); for (auto &b : p) q = isl_basic_set_list_add(q, b.c()); l = R_(isl_basic_set_list_coefficients(q)); }
	std::vector<BSet> co = {one, all}; std::vector<std::vector<Rows>> of = {{rs[0]}, us};
	if (N(c, isl_basic_set_list_n_basic_set(l.g()), "n") != k) c.fail("list:size", how);
	for (int i = 0; i < k; ++i) { co.push_back(R_(isl_basic_set_list_get_basic_set(l.g(), i))); of.push_back({rs[i]}); }
	// redundant constraints (for the integer points) may have been dropped from
	// the shared objects in the meantime: only these polyhedra may be relied on
	for (int i = 0; i < k; ++i) { MMap m = extract(c, p[i].g()); if (m.d.empty()) c.discard("empty"); of[2 + i][0] = rows(m.d[0]); if (!i) of[0][0] = of[2][0]; }
	{ MMap m = extract(c, u.g()); of[1].clear(); for (auto &b : m.d) of[1].push_back(rows(b)); }
	auto name = [&](size_t j) { return std::string(j == 0 ? "basic_set_coefficients" : j == 1 ? "set_coefficients" : "list_coefficients"); };
	int yes = 0, no = 0;
	for (size_t j = 0; j < co.size(); ++j) {
		if (N(c, isl_basic_set_dim(co[j].g(), isl_dim_param), "dim") != 0 || N(c, isl_basic_set_dim(co[j].g(), isl_dim_set), "dim") != n + 1) c.fail("space", S(co[j]) + "\n" + how);
		MMap m = extract(c, co[j].g());
		std::vector<Pt> pts; int R = n <= 2 ? 3 : n == 3 ? 2 : 1; for (auto &x : box_points(n + 1, -R, R)) pts.push_back(x);
		size_t step = pts.size() > 700 ? pts.size() / 700 + 1 : 1;
		std::vector<Pt> use; for (size_t i = c.t.below(step); i < pts.size(); i += step) use.push_back(pts[i]);
		// combinations of the constraints, also just not valid
		for (int t = 0; t < 12; ++t) { Pt x(n + 1); auto &r = of[j][c.t.below(of[j].size())]; for (auto *v : {&r.eq, &r.in}) for (auto &row : *v) { long f = v == &r.eq ? c.t.range(-1, 1) : c.t.range(0, 2); for (int i = 0; i <= n; ++i) x[i] += f * row[i].get_num().get_si(); } x[0] += c.t.range(-1, 1); use.push_back(x); }
		for (auto &x : use) {
			// valid for all rational points: has to be found; found: has to be valid for all integer points
			bool w = true; for (auto &r : of[j]) if (valid(r, n, x) == 0) { w = false; break; }
			bool g = m.has(x); if (w) ++yes; else ++no;
			if (g && !w) { bool ok = true; for (auto &r : of[j]) { std::vector<ZRow> e, i; for (auto &q : r.eq) { ZRow z; for (auto &v : q) z.push_back(v.get_num()); e.push_back(z); } for (auto &q : r.in) { ZRow z; for (auto &v : q) z.push_back(v.get_num()); i.push_back(z); } ZRow z(n + 1); for (int k = 0; k <= n; ++k) z[k] = -Z(x[k]); z[0] -= 1; i.push_back(z); if (omega_sat(n, e, i)) { ok = false; break; } } if (ok) { c.label("integer validity"); continue; } }
			if (g != w) c.fail(name(j), "coefficients " + vp::str(x) + " (constant first) are " + (w ? "" : "not ") + "valid, but the result says otherwise\n" + S(co[j]) + "\nfor\n" + how);
		}
		c.label(name(j));
	}
	// solutions of a coefficient set: of the ones above or of a changed one
	for (int t = 0; t < 2; ++t) {
		BSet s = c.t.pick(co);
		if (t) { int m = 1 + c.t.below(2); BSet y = c.t.chance(1, 2) ? s : R_(isl_basic_set_universe(isl_basic_set_get_space(s.g()))); for (int i = 0; i < m + 1; ++i) { ZRow r = gen_row(c, n + 1, 2, 3); r[0] = 0; isl_constraint *k_ = isl_constraint_alloc_inequality(isl_basic_set_get_local_space(y.g())); k_ = isl_constraint_set_constant_val(k_, mkval(c.ctx, r[0])); for (int q = 0; q <= n; ++q) k_ = isl_constraint_set_coefficient_val(k_, isl_dim_set, q, mkval(c.ctx, r[1 + q])); y = R_(isl_basic_set_add_constraint(y.r(), k_)); } s = y; }
		MMap m = extract(c, s.g()); if (m.d.empty() || !m.d[0].divs.empty()) continue; Rows r = rows(m.d[0]); if (!lp_sat(n + 1, r.eq, r.in)) continue;
		BSet sol = R_(isl_basic_set_solutions(s.c())), sol2; Rows r2; bool two = c.t.chance(1, 2);
		if (two) { Set un = R_(isl_set_from_basic_set(s.c())); BSet o = c.t.pick(co); un = R_(isl_set_union(un.r(), isl_set_from_basic_set(o.c()))); MMap mu = extract(c, un.g()); sol2 = R_(isl_set_solutions(un.c())); MMap m2 = extract(c, sol2.g()); std::vector<Rows> pr; bool ok = true; for (auto &b : mu.d) { if (!b.divs.empty()) ok = false; pr.push_back(rows(b)); if (ok && !lp_sat(n + 1, pr.back().eq, pr.back().in)) ok = false; }
			if (ok) { for (auto &x : make_window(n, 60).pts) { bool w = true; for (auto &q1 : pr) { QRow o1(2 + n); o1[1] = 1; for (int i = 0; i < n; ++i) o1[2 + i] = mpq_class(Z(x[i])); mpq_class v; LPStat st = lp_min(n + 1, q1.eq, q1.in, o1, v); if (!(st == LP_OPT && v >= 0)) { w = false; break; } } if (m2.has(x) != w) c.fail("set_solutions", vp::str(x) + (w ? " should" : " should not") + " be a solution of " + S(un) + "\nresult " + S(sol2) + "\n" + how); } c.label("set_solutions"); } }
		MMap ms = extract(c, sol.g());
		for (auto &x : make_window(n, 150).pts) { QRow o(2 + n); o[1] = 1; for (int i = 0; i < n; ++i) o[2 + i] = mpq_class(Z(x[i])); mpq_class v; LPStat st = lp_min(n + 1, r.eq, r.in, o, v); bool w = st == LP_OPT && v >= 0; if (ms.has(x) != w) c.fail("basic_set_solutions", vp::str(x) + (w ? " should" : " should not") + " be a solution of " + S(s) + "\nresult " + S(sol) + "\n" + how); }
		c.label("basic_set_solutions");
	}
	// going back gives the closed hull
	{ BSet back = R_(isl_basic_set_solutions(all.c())); { Space a(isl_basic_set_get_space(back.g())), b(mk_space(c, sp)); if (!B(c, isl_space_is_equal(a.g(), b.g()), "eq")) c.fail("space:back", S(a) + " instead of " + S(b)); } MMap m = extract(c, back.g()); MMap u_ = extract(c, u.g()); std::vector<Poly> ps; for (auto &r : us) ps.push_back({r.eq, r.in}); for (auto &x : make_window(n, 120).pts) { QRow y; for (auto v : x) y.push_back(mpq_class(Z(v))); bool w = in_hull(n, ps, y); if (w && !m.has(x) && !u_.has(x)) continue; if (m.has(x) != w) c.fail("closure", vp::str(x) + (w ? " is" : " is not") + " in the closed hull, result " + S(back) + "\n" + how); } c.label("closure"); }
	if (yes > 3 && no > 3) c.nontrivial = true;
}
Prop vp::the_prop = {"C20", "random non-empty polyhedra (0-1 parameters, up to 4 variables, often products of independent factors, equalities) and unions of up to three; every coefficient tuple of a window and combinations of the constraints shifted by one are decided by exact linear programming and integer satisfiability: forms that are non-negative on the rational points must be in the result of coefficients (basic sets, sets, lists), forms in the result must be non-negative on the integer points; solutions of these and of random cones of coefficients are compared with the linear programs over the coefficients; going back must give the closed hull; non-trivial: at least four valid and four invalid tuples",
	run, 8000, 200000, 400000};
