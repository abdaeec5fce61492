// C13: bounds and reductions of quasi-polynomials are true bounds.
#include "poly.h"
#include <isl_options_private.h>
#include <algorithm>
using namespace vp;

namespace {
#define R_(e) R(c, e, #e)
struct FF {                              // extracted reduction
	int type = 0;
	struct Piece { MMap dom; std::vector<FPoly> l; };
	std::vector<Piece> p;
	// value (0 outside), number of pieces containing the point
	PV eval(const Pt &x, int *n = nullptr) const
	{
		int k = 0; PV r;
		for (auto &q : p) if (q.dom.has(x)) {
			if (!k++) { bool first = true; for (auto &f : q.l) { PV v = f.eval(x); if (first || v.k == 2 || (r.k != 2 && (type == isl_fold_max ? pless(r, v) : pless(v, r)))) r = v; first = false; } }
			if (!n) break;
		}
		if (n) *n = k;
		return r;
	}
};
std::vector<QP> members(Case &c, isl_qpolynomial_fold *f)
{
	std::vector<QP> r;
	if (isl_qpolynomial_fold_foreach_qpolynomial(f, [](isl_qpolynomial *q, void *v) -> isl_stat { ((std::vector<QP> *)v)->push_back(QP(q)); return isl_stat_ok; }, &r) < 0) on_error(c, "isl_qpolynomial_fold_foreach_qpolynomial");
	return r;
}
FF ff(Case &c, isl_pw_qpolynomial_fold *p)
{
	FF r; if (!p) on_error(c, "ff");
	r.type = isl_pw_qpolynomial_fold_get_type(p);
	std::vector<std::pair<Set, QF>> ps;
	if (isl_pw_qpolynomial_fold_foreach_piece(p, [](isl_set *s, isl_qpolynomial_fold *q, void *v) -> isl_stat { ((std::vector<std::pair<Set, QF>> *)v)->push_back({Set(s), QF(q)}); return isl_stat_ok; }, &ps) < 0) on_error(c, "isl_pw_qpolynomial_fold_foreach_piece");
	for (auto &x : ps) { FF::Piece q; q.dom = extract(c, x.first.g()); if (isl_qpolynomial_fold_get_type(x.second.g()) != r.type) c.fail("isl_pw_qpolynomial_fold_get_type", "piece of a different type\n" + S(p)); for (auto &m : members(c, x.second.g())) q.l.push_back(fn_poly(c, m.g())); r.p.push_back(q); }
	return r;
}
bool better(int type, const PV &a, const PV &b) { return type == isl_fold_max ? pless(b, a) : pless(a, b); }
typedef std::function<PV(const Pt &)> F1;
struct V { PWF p; FF f; };
struct G {
	Case &c; Sp dom; int np, ns; std::string ctx; enum isl_fold type;
	G(Case &cc) : c(cc) {}
	V mk(PWF p) { V v; v.f = ff(c, p.g()); v.p = p; return v; }
	GenOpt opt() { GenOpt o; o.max_basic = 2; o.extra = 2; o.allow_big = false; return o; }
	Set some_set(const Sp &sp) { return gen_set(c, sp, opt(), c.t.chance(1, 3)); }
	void compare(const std::string &op, const FF &f, int n, const F1 &want, const std::string &how, int budget = 250)
	{
		for (auto &p : make_window(n, budget).pts) {
			int k; PV a = f.eval(p, &k), b = want(p);
			if (k > 1) c.fail("overlap:" + op, "pieces overlap at " + str(p) + "\n" + how);
			if (a != b) c.fail(op, "at " + str(p) + " (params, dims) the value is " + str(a) + " instead of " + str(b) + "\n" + how);
		}
		c.label(op);
	}
	V ok(const char *op, PWF res, const Sp &sp, const F1 &want, const std::string &extra = "")
	{
		V r = mk(R(c, res.r(), op)); std::string how = ctx + op + " " + extra + "\nresult " + S(r.p);
		Space got(isl_pw_qpolynomial_fold_get_domain_space(r.p.g())), w(mk_space(c, sp));
		if (!B(c, isl_space_is_equal(got.g(), w.g()), "eq")) c.fail(std::string("space:") + op, S(got) + " instead of " + S(w) + "\n" + how);
		compare(op, r.f, sp.np() + sp.no(), want, how);
		auto win = make_window(sp.np() + sp.no(), 150);
		for (int i = 0; i < 2; ++i) { Pt p = c.t.pick(win.pts); Point q = mk_point(c, mk_space(c, sp), sp.np(), p); PV a = take_pv(c, isl_pw_qpolynomial_fold_eval(r.p.c(), q.c())); if (a != r.f.eval(p)) c.fail("isl_pw_qpolynomial_fold_eval", "at " + str(p) + " " + str(a) + " instead of " + str(r.f.eval(p)) + "\n" + how); }
		ctx += std::string("-- ") + op + " " + extra + " -> " + S(r.p) + "\n";
		return r;
	}
	V operand(const Sp &d, const char *nm, const GenOpt &o, bool div = true, int depth = 1, int t = -1)
	{
		// fold of one to three piecewise polynomials
		int n = 1 + c.t.below(3); enum isl_fold ty = t < 0 ? type : (enum isl_fold)t; V r;
		Space s(mk_space(c, d));
		r = mk(R_(isl_pw_qpolynomial_fold_zero(isl_space_add_dims(isl_space_from_domain(s.c()), isl_dim_out, 1), ty)));
		std::string how; if (n > 1) ctx += "members:\n";
		for (int i = 0; i < n; ++i) {
			std::vector<PMod> m; PWQ q = gen_pwq(c, d, m, o, 2, div, depth); FPW fq = fn_pw(c, q.g());
			PWF x = R_(isl_pw_qpolynomial_fold_from_pw_qpolynomial(ty, q.c())); how += "  " + S(q) + "\n";
			V v = mk(x); compare("isl_pw_qpolynomial_fold_from_pw_qpolynomial", v.f, d.np() + d.no(), [&](const Pt &p) { return fq.eval(p); }, S(q), 100);
			V o = r; r = mk(R_(isl_pw_qpolynomial_fold_fold(o.p.c(), v.p.c())));
			compare("isl_pw_qpolynomial_fold_fold", r.f, d.np() + d.no(), [&](const Pt &p) { int k, l; PV a = o.f.eval(p, &k), b = v.f.eval(p, &l); return !k ? b : !l ? a : better(ty, a, b) ? a : b; }, "members\n" + how + "result " + S(r.p), 150);
		}
		ctx += std::string(nm) + " = " + S(r.p) + "\n"; return r;
	}
};
V algebra(G &g, const V &a)
{
	Case &c = g.c; int np = g.np, ns = g.ns; int type = a.f.type;
	Sp ps; ps.params = g.dom.params; ps.out = mk_tup("", 0);
	auto same = [&](const Pt &p) { return a.f.eval(p); };
	switch (c.t.below(14)) {
	case 0: { V b = g.operand(g.dom, "b", g.opt(), true, 1, type); return g.ok("isl_pw_qpolynomial_fold_fold", isl_pw_qpolynomial_fold_fold(a.p.c(), b.p.c()), g.dom, [&](const Pt &p) { int k, l; PV x = a.f.eval(p, &k), y = b.f.eval(p, &l); return !k ? y : !l ? x : better(type, x, y) ? x : y; }); }
	case 1: { V b = g.operand(g.dom, "b", g.opt(), true, 1, type); return g.ok("isl_pw_qpolynomial_fold_add", isl_pw_qpolynomial_fold_add(a.p.c(), b.p.c()), g.dom, [&](const Pt &p) { return a.f.eval(p) + b.f.eval(p); }); }
	case 2: { mpq_class q(c.t.range(-4, 4), 1 + (int)c.t.below(3)); q.canonicalize(); bool down = q != 0 && c.t.chance(1, 2);
		return g.ok(down ? "isl_pw_qpolynomial_fold_scale_down_val" : "isl_pw_qpolynomial_fold_scale_val", down ? isl_pw_qpolynomial_fold_scale_down_val(a.p.c(), mkrat(c.ctx, q)) : isl_pw_qpolynomial_fold_scale_val(a.p.c(), mkrat(c.ctx, q)), g.dom, [&](const Pt &p) { return pval(down ? mpq_class(1 / q) : q) * a.f.eval(p); }, q.get_str()); }
	case 3: { Set s = g.some_set(g.dom); MMap m = extract(c, s.g()); return g.ok("isl_pw_qpolynomial_fold_intersect_domain", isl_pw_qpolynomial_fold_intersect_domain(a.p.c(), s.c()), g.dom, [&](const Pt &p) { return m.has(p) ? a.f.eval(p) : PV(); }, S(s)); }
	case 4: { Set s = g.some_set(g.dom); MMap m = extract(c, s.g()); return g.ok("isl_pw_qpolynomial_fold_subtract_domain", isl_pw_qpolynomial_fold_subtract_domain(a.p.c(), s.c()), g.dom, [&](const Pt &p) { return m.has(p) ? PV() : a.f.eval(p); }, S(s)); }
	case 5: { Set s = R_(isl_set_params(g.some_set(ps).r())); MMap m = extract(c, s.g()); bool gist = c.t.chance(1, 2); return g.ok(gist ? "isl_pw_qpolynomial_fold_gist_params" : "isl_pw_qpolynomial_fold_intersect_params", isl_pw_qpolynomial_fold_intersect_params(gist ? isl_pw_qpolynomial_fold_gist_params(a.p.c(), s.c()) : a.p.c(), s.c()), g.dom, [&](const Pt &p) { return m.has(sub(p, 0, np)) ? a.f.eval(p) : PV(); }, S(s)); }
	case 6: { Set s = g.some_set(g.dom); MMap m = extract(c, s.g()); PWF r = R_(isl_pw_qpolynomial_fold_gist(a.p.c(), s.c())); g.ctx += "gist " + S(r) + "\n"; return g.ok("isl_pw_qpolynomial_fold_gist", isl_pw_qpolynomial_fold_intersect_domain(r.r(), s.c()), g.dom, [&](const Pt &p) { return m.has(p) ? a.f.eval(p) : PV(); }, S(s)); }
	case 7: return g.ok("isl_pw_qpolynomial_fold_coalesce", isl_pw_qpolynomial_fold_coalesce(a.p.c()), g.dom, same);
	case 8: { if (np + ns == 0) return a; bool par = np && (!ns || c.t.chance(1, 3)); int k = c.t.below(par ? np : ns), v = c.t.range(-4, 4), at = par ? k : np + k;
		return g.ok("isl_pw_qpolynomial_fold_fix_val", isl_pw_qpolynomial_fold_fix_val(a.p.c(), par ? isl_dim_param : isl_dim_in, k, isl_val_int_from_si(c.ctx, v)), g.dom, [&](const Pt &p) { return p[at] == v ? a.f.eval(p) : PV(); }, ints({par, k, v})); }
	case 9: { if (!ns) return a; int f = c.t.below(ns), n = 1 + c.t.below(ns - f), d = c.t.below(np + 1); PWF q = a.p; for (int i = 0; i < n; ++i) q = R_(isl_pw_qpolynomial_fold_set_dim_name(q.r(), isl_dim_in, f + i, ("x" + std::to_string(np + i)).c_str()));
		Sp sp = set_sp(g.dom, mk_tup("", ns - n)); std::vector<std::string> pn; for (int i = 0; i < d; ++i) pn.push_back(g.dom.params[i]); for (int i = 0; i < n; ++i) pn.push_back("x" + std::to_string(np + i)); for (int i = d; i < np; ++i) pn.push_back(g.dom.params[i]); sp.params = pn;
		V r = g.ok("isl_pw_qpolynomial_fold_move_dims", isl_pw_qpolynomial_fold_move_dims(q.r(), isl_dim_param, d, isl_dim_in, f, n), sp, [&](const Pt &p) { Pt q = cat(sub(p, 0, d), sub(p, d + n, np - d)); q = cat(q, sub(p, np + n, f)); q = cat(q, sub(p, d, n)); q = cat(q, sub(p, np + n + f, ns - n - f)); return a.f.eval(q); }, ints({d, f, n}));
		g.dom = sp; g.np += n; g.ns -= n; return r; }
	case 10: { Set d = R_(isl_pw_qpolynomial_fold_domain(a.p.c())); MMap m = extract(c, d.g()); same_on(c, make_window(np + ns, 250), "isl_pw_qpolynomial_fold_domain", [&](const Pt &p) { return m.has(p); }, [&](const Pt &p) { int k; a.f.eval(p, &k); return k > 0; }, [&] { return g.ctx + S(d); }); c.label("isl_pw_qpolynomial_fold_domain"); return a; }
	case 11: { bool isa = B(c, isl_pw_qpolynomial_fold_isa_qpolynomial_fold(a.p.g()), "isa"); if (!isa) return a; QF f = R_(isl_pw_qpolynomial_fold_as_qpolynomial_fold(a.p.c())); return g.ok("isl_pw_qpolynomial_fold_from_qpolynomial_fold", isl_pw_qpolynomial_fold_from_qpolynomial_fold(f.c()), g.dom, same); }
	case 12: { // single folds
		Space s(mk_space(c, g.dom)); std::vector<PE> es; QF f = R_(isl_qpolynomial_fold_empty((enum isl_fold)type, s.c())); int n = 1 + c.t.below(3); std::string ex;
		for (int i = 0; i < n; ++i) { es.push_back(gen_pe(c, np + ns, 1)); QP q = es.back().build(c, s.g()); ex += es.back().text(var_names(g.dom)) + "; "; f = R_(isl_qpolynomial_fold_fold(f.r(), isl_qpolynomial_fold_alloc((enum isl_fold)type, q.r()))); }
		int sc = 1; if (c.t.chance(1, 3)) { sc = c.t.range(-3, 3); f = R_(isl_qpolynomial_fold_scale_val(f.r(), isl_val_int_from_si(c.ctx, sc))); }
		Set u = R_(isl_set_universe(s.c())); PWF p = R_(isl_pw_qpolynomial_fold_alloc(isl_qpolynomial_fold_get_type(f.g()), u.c(), f.c()));
		auto w = [&](const Pt &x) { PV r; for (int i = 0; i < n; ++i) { PV v = pval(es[i].eval(x)); if (!i || better(type, v, r)) r = v; } return r * pval(sc); };
		V r = g.ok("isl_qpolynomial_fold_fold", p.c(), g.dom, w, ex);
		auto win = make_window(np + ns, 100); Pt x = c.t.pick(win.pts); Point q = mk_point(c, s.c(), np, x); PV v = take_pv(c, isl_qpolynomial_fold_eval(f.c(), q.c())); if (v != w(x)) c.fail("isl_qpolynomial_fold_eval", "at " + str(x) + " " + str(v) + " instead of " + str(w(x)) + "\n" + ex); return r; }
	default: { PWF q = R_(isl_pw_qpolynomial_fold_drop_unused_params(a.p.c())); Space sp(isl_pw_qpolynomial_fold_get_domain_space(q.g())); int k = N(c, isl_space_dim(sp.g(), isl_dim_param), "d"); std::vector<int> pos; for (int i = 0; i < k; ++i) { const char *nm = isl_space_get_dim_name(sp.g(), isl_dim_param, i); pos.push_back(std::find(g.dom.params.begin(), g.dom.params.end(), nm) - g.dom.params.begin()); }
		FF f = ff(c, q.g()); for (auto &p : make_window(np + ns, 150).pts) { Pt x; for (int i : pos) x.push_back(p[i]); x = cat(x, sub(p, np, ns)); if (f.eval(x) != a.f.eval(p)) c.fail("isl_pw_qpolynomial_fold_drop_unused_params", "at " + str(p) + "\n" + g.ctx + S(q)); } c.label("isl_pw_qpolynomial_fold_drop_unused_params"); return a; }
	}
}
// members of a domain with n dims are within [-B, B] by construction
const int B_ = 5;
Set boxed(Case &c, const Sp &sp, int dims_from)
{
	Set u(isl_set_universe(mk_space(c, sp)));
	int n = sp.no();
	for (int i = dims_from; i < n; ++i) { u = R_(isl_set_lower_bound_si(u.r(), isl_dim_set, i, -B_)); u = R_(isl_set_upper_bound_si(u.r(), isl_dim_set, i, B_)); }
	return u;
}
struct Opt { bool any = false; PV v; };
// check that "r" bounds "val" (nullptr-able) over the points of each outer point
void check_bound(G &g, const std::string &op, const FF &r, int type, bool have_tight, bool tight, const std::vector<Pt> &outer, const std::vector<Pt> &inner, const std::function<bool(const Pt &, const Pt &, PV &)> &at, const std::string &how, bool bounded)
{
	Case &c = g.c;
	for (auto &o : outer) {
		Opt b; for (auto &i : inner) { PV v; if (at(o, i, v) && (!b.any || better(type, v, b.v))) { b.any = true; b.v = v; } }
		if (!b.any) continue;
		c.nontrivial = true;
		PV x = r.eval(o);
		if (better(type, b.v, x)) c.fail(op, "at " + str(o) + " the bound is " + str(x) + " but the value " + str(b.v) + " is attained\n" + how);
		if (bounded && have_tight && tight && x != b.v) c.fail(op + " tight", "at " + str(o) + " the bound " + str(x) + " is claimed to be tight, but the optimum is " + str(b.v) + "\n" + how);
	}
	c.label(op + (have_tight ? tight ? " (tight)" : " (not known tight)" : ""));
}
void bound(G &g)
{
	Case &c = g.c;
	int method = c.t.below(4); isl_options_set_bound(c.ctx, method == 0 ? ISL_BOUND_RANGE : ISL_BOUND_BERNSTEIN);
	((struct isl_options *)isl_ctx_peek_options(c.ctx, &isl_options_args))->bernstein_recurse = (method == 2 ? ISL_BERNSTEIN_FACTORS : method == 3 ? ISL_BERNSTEIN_FACTORS | ISL_BERNSTEIN_INTERVALS : 0);
	((struct isl_options *)isl_ctx_peek_options(c.ctx, &isl_options_args))->bernstein_triangulate = c.t.chance(1, 2);
	g.ctx += "method " + std::to_string(method) + "\n";
	bool wrap = c.t.chance(1, 3); Sp dom; int nout; // dims outside of the optimisation
	if (wrap) { Sp m; if (c.t.chance(1, 2)) m.params.push_back("n"); m.is_map = true; m.in = mk_tup(tup_name(c), 1); m.out = mk_tup(tup_name(c), c.t.below(3)); dom = set_sp(m, wrap_tup(m.in, m.out)); nout = 1; }
	else { int k = c.t.below(3); for (int i = 0; i < k; ++i) dom.params.push_back(i ? "m" : "n"); dom.out = mk_tup(tup_name(c), c.t.below(3) + (k < 2)); nout = 0; if (dom.out.n > 2) dom.out.n = 2; }
	bool bounded = !c.t.chance(1, 8);
	GenOpt o = g.opt(); o.max_basic = 2; o.box = 4;
	std::vector<PMod> m; int np = dom.np(), ni = dom.no() - nout;
	PWQ q = gen_pwq(c, dom, m, o, 2, c.t.chance(1, 2), 2);
	if (bounded) q = R_(isl_pw_qpolynomial_intersect_domain(q.r(), boxed(c, dom, nout).r()));
	FPW f = fn_pw(c, q.g()); g.ctx += "q = " + S(q) + "\n";
	bool ht = c.t.chance(3, 4); isl_bool tight = isl_bool_false;
	std::vector<Pt> outer = box_points(np + nout, np + nout > 1 ? -4 : -9, np + nout > 1 ? 5 : 10), inner = box_points(ni, -B_, B_);
	auto at = [&](const Pt &o, const Pt &i, PV &v) { int k; v = f.eval(cat(o, i), &k); return k > 0; };
	Sp rs; rs.params = dom.params; rs.out = wrap ? dom.out.sub[0] : mk_tup("", 0);
	if (!c.t.chance(1, 4)) {
		PWF r = R(c, isl_pw_qpolynomial_bound(q.c(), g.type, ht ? &tight : nullptr), "isl_pw_qpolynomial_bound"); FF x = ff(c, r.g());
		Space got(isl_pw_qpolynomial_fold_get_domain_space(r.g())), want(mk_space(c, rs)); if (!wrap) want = R_(isl_space_params(want.r()));
		if (!B(c, isl_space_is_equal(got.g(), want.g()), "eq")) c.fail("space:isl_pw_qpolynomial_bound", S(got) + " instead of " + S(want) + "\n" + g.ctx);
		check_bound(g, "isl_pw_qpolynomial_bound", x, g.type, ht, tight == isl_bool_true, outer, inner, at, g.ctx + (g.type == isl_fold_max ? "max" : "min") + std::string(" bound ") + S(r), bounded);
	} else {
		// via the union interface
		UPWQ u = R_(isl_union_pw_qpolynomial_from_pw_qpolynomial(q.c())); isl_union_pw_qpolynomial_fold *raw = isl_union_pw_qpolynomial_bound(u.c(), g.type, ht ? &tight : nullptr); UPWF r = R(c, raw, "isl_union_pw_qpolynomial_bound");
		isl_space *sp = wrap ? mk_space(c, rs) : isl_space_params(mk_space(c, rs)); sp = isl_space_add_dims(isl_space_from_domain(sp), isl_dim_out, 1); PWF e = R_(isl_union_pw_qpolynomial_fold_extract_pw_qpolynomial_fold(r.g(), sp)); FF x = ff(c, e.g());
		check_bound(g, "isl_union_pw_qpolynomial_bound", x, g.type, ht, tight == isl_bool_true, outer, inner, at, g.ctx + "bound " + S(r), bounded);
	}
}
void apply(G &g)
{
	Case &c = g.c; isl_options_set_bound(c.ctx, c.t.chance(1, 3) ? ISL_BOUND_RANGE : ISL_BOUND_BERNSTEIN);
	Sp m; if (c.t.chance(1, 2)) m.params.push_back("n"); m.is_map = true; m.in = mk_tup(c.t.chance(1, 2) ? "A" : "", c.t.below(2)); m.out = mk_tup(c.t.chance(1, 2) ? "B" : "", 1 + c.t.below(2));
	bool set = c.t.chance(1, 4); Sp d = set_sp(m, m.out); int np = d.np(), ni = set ? 0 : m.in.dim(), no = m.out.dim();
	GenOpt o = g.opt(); o.max_basic = 2; o.box = 4;
	V a = g.operand(d, "fold", o, c.t.chance(1, 2), 1); a = g.mk(R_(isl_pw_qpolynomial_fold_intersect_domain(a.p.r(), boxed(c, d, 0).r()))); int type = a.f.type;
	bool ht = c.t.chance(3, 4); isl_bool tight = isl_bool_false; MMap mm; PWF r; Map map; Set s;
	if (set) { s = gen_set(c, d, o, false); mm = extract(c, s.g()); g.ctx += "set " + S(s) + "\n"; } else { map = gen_map(c, m, o, false); mm = extract(c, map.g()); g.ctx += "relation " + S(map) + "\n"; }
	bool un = c.t.chance(1, 3); UPWF u;
	if (un) { u = R_(isl_pw_qpolynomial_fold_to_union_pw_qpolynomial_fold(a.p.c())); if (set) u = R_(isl_union_set_apply_union_pw_qpolynomial_fold(isl_union_set_from_set(s.c()), u.r(), ht ? &tight : nullptr)); else u = R_(isl_union_map_apply_union_pw_qpolynomial_fold(isl_union_map_from_map(map.c()), u.r(), ht ? &tight : nullptr));
		Sp rs = set_sp(m, m.in); isl_space *sp = set ? isl_space_params(mk_space(c, d)) : mk_space(c, rs); sp = isl_space_add_dims(isl_space_from_domain(sp), isl_dim_out, 1); r = R_(isl_union_pw_qpolynomial_fold_extract_pw_qpolynomial_fold(u.g(), sp)); }
	else r = set ? R_(isl_set_apply_pw_qpolynomial_fold(s.c(), a.p.c(), ht ? &tight : nullptr)) : R_(isl_map_apply_pw_qpolynomial_fold(map.c(), a.p.c(), ht ? &tight : nullptr));
	FF x = ff(c, r.g());
	auto at = [&](const Pt &o, const Pt &i, PV &v) { if (!mm.has(cat(o, i))) return false; int k; v = a.f.eval(cat(sub(o, 0, np), i), &k); return k > 0; };
	check_bound(g, un ? "isl_union_map_apply_union_pw_qpolynomial_fold" : "isl_map_apply_pw_qpolynomial_fold", x, type, ht, tight == isl_bool_true, box_points(np + ni, -7, 7), box_points(no, -B_, B_), at, g.ctx + "result " + S(r), true);
}
void extremum(G &g)
{
	Case &c = g.c; Sp sp = set_sp(Sp(), mk_tup(tup_name(c), 1 + c.t.below(2))); V a = g.operand(sp, "fold", g.opt(), true, 1); a = g.mk(R_(isl_pw_qpolynomial_fold_intersect_domain(a.p.r(), boxed(c, sp, 0).r()))); g.ctx += "boxed " + S(a.p) + "\n";
	bool any = false; PV mx, mn; for (auto &x : box_points(sp.no(), -B_, B_)) { int k; PV v = a.f.eval(x, &k); if (!k) continue; if (!any || pless(mx, v)) mx = v; if (!any || pless(v, mn)) mn = v; any = true; }
	PV x = take_pv(c, isl_pw_qpolynomial_fold_max(a.p.c())), y = take_pv(c, isl_pw_qpolynomial_fold_min(a.p.c()));
	if (x != mx || y != mn) c.fail("isl_pw_qpolynomial_fold_max", "max " + str(x) + " instead of " + str(mx) + ", min " + str(y) + " instead of " + str(mn) + "\n" + g.ctx); c.label("isl_pw_qpolynomial_fold_max"); c.nontrivial = any;
}
// unions of reductions
struct U1 { std::map<std::string, std::pair<Sp, V>> m; UPWF u; };
void unions(G &g)
{
	Case &c = g.c; static const char *NM[] = {"", "A", "B"}; std::vector<std::string> par; if (c.t.chance(1, 2)) par.push_back("n");
	auto tk = [](const Sp &s) { return s.out.name + "/" + std::to_string(s.out.n); };
	auto gen = [&](const char *nm) { U1 r; r.u = R_(isl_union_pw_qpolynomial_fold_zero_space(isl_space_params(mk_space(c, [&] { Sp s; s.params = par; s.out = mk_tup("", 0); return s; }())), g.type)); int n = c.t.below(4); std::string keep = g.ctx;
		for (int i = 0; i < n; ++i) { Sp s; s.params = par; s.out = mk_tup(NM[c.t.below(3)], c.t.below(2)); V v = g.operand(s, "part", g.opt(), true, 1); if (r.m.count(tk(s))) { V o = r.m[tk(s)].second; r.m[tk(s)].second = g.mk(R_(isl_pw_qpolynomial_fold_fold(o.p.c(), v.p.c()))); } else r.m[tk(s)] = {s, v}; r.u = c.t.chance(1, 2) ? R_(isl_union_pw_qpolynomial_fold_fold_pw_qpolynomial_fold(r.u.r(), v.p.c())) : R_(isl_union_pw_qpolynomial_fold_fold(r.u.r(), isl_union_pw_qpolynomial_fold_from_pw_qpolynomial_fold(v.p.c()))); }
		g.ctx = keep + nm + " = " + S(r.u) + "\n"; return r; };
	auto ev = [&](const U1 &u, const Sp &s, const Pt &p, int *k = nullptr) { auto it = u.m.find(tk(s)); if (k) *k = 0; return it == u.m.end() ? PV() : it->second.second.f.eval(p, k); };
	auto chk = [&](const std::string &op, const UPWF &u, const std::function<PV(const Sp &, const Pt &)> &want, std::vector<const U1 *> in) {
		std::map<std::string, Sp> sps; for (auto i : in) for (auto &x : i->m) sps[x.first] = x.second.first;
		for (auto &x : sps) { isl_space *sp = isl_space_add_dims(isl_space_from_domain(mk_space(c, x.second)), isl_dim_out, 1); PWF p = R_(isl_union_pw_qpolynomial_fold_extract_pw_qpolynomial_fold(u.g(), sp)); FF f = ff(c, p.g()); g.compare(op, f, x.second.np() + x.second.no(), [&](const Pt &q) { return want(x.second, q); }, "component " + x.first + "\n" + g.ctx + "result " + S(u), 80);
			auto w = make_window(x.second.np() + x.second.no(), 60); Pt q = c.t.pick(w.pts); Point pt = mk_point(c, mk_space(c, x.second), x.second.np(), q); PV v = take_pv(c, isl_union_pw_qpolynomial_fold_eval(u.c(), pt.c())); if (v != want(x.second, q)) c.fail("isl_union_pw_qpolynomial_fold_eval", "at " + x.first + str(q) + " " + str(v) + "\n" + g.ctx + S(u)); }
	};
	U1 a = gen("a"); c.nontrivial = a.m.size() >= 2; int type = g.type; chk("union of reductions", a.u, [&](const Sp &s, const Pt &p) { return ev(a, s, p); }, {&a});
	std::map<std::string, MMap> ms; auto uset = [&] { USet u = R_(isl_union_set_empty_ctx(c.ctx)); for (auto &x : a.m) if (c.t.chance(2, 3)) { Set s = g.some_set(x.second.first); ms[x.first] = extract(c, s.g()); u = R_(isl_union_set_add_set(u.r(), s.r())); } g.ctx += "set " + S(u) + "\n"; return u; };
	auto in = [&](const Sp &s, const Pt &p) { return ms.count(tk(s)) && ms[tk(s)].has(p); };
	switch (c.t.below(7)) {
	case 0: { U1 b = gen("b"); chk("isl_union_pw_qpolynomial_fold_fold", R_(isl_union_pw_qpolynomial_fold_fold(a.u.c(), b.u.c())), [&](const Sp &s, const Pt &p) { int k, l; PV x = ev(a, s, p, &k), y = ev(b, s, p, &l); return !k ? y : !l ? x : better(type, x, y) ? x : y; }, {&a, &b}); break; }
	case 1: { int q = c.t.range(-3, 3); chk("isl_union_pw_qpolynomial_fold_scale_val", R_(isl_union_pw_qpolynomial_fold_scale_val(a.u.c(), isl_val_int_from_si(c.ctx, q))), [&](const Sp &s, const Pt &p) { return pval(q) * ev(a, s, p); }, {&a}); break; }
	case 2: { USet u = uset(); chk("isl_union_pw_qpolynomial_fold_intersect_domain", R_(isl_union_pw_qpolynomial_fold_intersect_domain(a.u.c(), u.c())), [&](const Sp &s, const Pt &p) { return in(s, p) ? ev(a, s, p) : PV(); }, {&a}); break; }
	case 3: { USet u = uset(); chk("isl_union_pw_qpolynomial_fold_subtract_domain", R_(isl_union_pw_qpolynomial_fold_subtract_domain(a.u.c(), u.c())), [&](const Sp &s, const Pt &p) { return in(s, p) ? PV() : ev(a, s, p); }, {&a}); break; }
	case 4: { USet u = uset(); chk("isl_union_pw_qpolynomial_fold_gist", R_(isl_union_pw_qpolynomial_fold_intersect_domain(isl_union_pw_qpolynomial_fold_gist(a.u.c(), u.c()), u.c())), [&](const Sp &s, const Pt &p) { return in(s, p) ? ev(a, s, p) : PV(); }, {&a}); break; }
	case 5: chk("isl_union_pw_qpolynomial_fold_coalesce", R_(isl_union_pw_qpolynomial_fold_coalesce(a.u.c())), [&](const Sp &s, const Pt &p) { return ev(a, s, p); }, {&a}); break;
	default: { // sum with a union of quasi-polynomials on the same spaces
		UPWQ u = R_(isl_union_pw_qpolynomial_zero_ctx(c.ctx)); std::map<std::string, FPW> fs; for (auto &x : a.m) { std::vector<PMod> m; PWQ q = gen_pwq(c, x.second.first, m, g.opt(), 2, true, 1); fs[x.first] = fn_pw(c, q.g()); u = R_(isl_union_pw_qpolynomial_add_pw_qpolynomial(u.r(), q.c())); } g.ctx += "polynomials " + S(u) + "\n";
		chk("isl_union_pw_qpolynomial_fold_add_union_pw_qpolynomial", R_(isl_union_pw_qpolynomial_fold_add_union_pw_qpolynomial(a.u.c(), u.c())), [&](const Sp &s, const Pt &p) { return ev(a, s, p) + fs[tk(s)].eval(p); }, {&a}); break; }
	}
}
void run(Case &c)
{
	G g(c); g.type = c.t.chance(1, 2) ? isl_fold_max : isl_fold_min;
	switch (c.t.weighted({6, 10, 3, 2, 3})) {
	case 0: { g.dom = gen_set_space(c, 2, 2, false); g.np = g.dom.np(); g.ns = g.dom.no(); V a = g.operand(g.dom, "a", g.opt()); int n = 1 + c.t.below(2); c.nontrivial = a.f.p.size() >= 1; for (int i = 0; i < n; ++i) { a = algebra(g, a); if (isl_pw_qpolynomial_fold_n_piece(a.p.g()) > 10) break; } break; }
	case 1: bound(g); break;
	case 2: apply(g); break;
	case 3: extremum(g); break;
	default: unions(g); break;
	}
	c.log << g.ctx;
}
} // namespace
namespace vp { Prop the_prop = {"C13", "random piecewise quasi-polynomials and reductions; bounds compared with exhaustive scans over every parameter value in a window; non-trivial: some parameter value has a non-empty domain, or a reduction with constrained pieces", run, 15000, 300000}; }
