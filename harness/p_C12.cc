// C12: piecewise quasi-polynomials evaluate exactly through every operation.
#include "poly.h"
#include <algorithm>
using namespace vp;

namespace {
#define R_(e) R(c, e, #e)
struct V { PWQ p; FPW f; };
typedef std::function<PV(const Pt &)> F1;

struct G {
	Case &c; Sp dom; int np, ns; std::string ctx;
	G(Case &cc) : c(cc) {}
	GenOpt opt() { GenOpt o; o.max_basic = 2; o.extra = 2; return o; }
	Set some_set(const Sp &sp) { return gen_set(c, sp, opt(), c.t.chance(1, 3)); }
	void compare(const std::string &op, const FPW &f, int n, const F1 &want, const std::string &how, int budget = 300)
	{
		for (auto &p : make_window(n, budget).pts) {
			int k; PV a = f.eval(p, &k), b = want(p);
			if (k > 1) c.fail("overlap:" + op, "pieces overlap at " + str(p) + "\n" + how);
			if (a != b) c.fail(op, "at " + str(p) + " (params, dims) the value is " + str(a) + " instead of " + str(b) + "\n" + how);
		}
		c.label(op);
	}
	void lib_eval(const std::string &op, const V &v, const Sp &sp, const std::string &how)
	{
		auto w = make_window(sp.np() + sp.no(), 200);
		if (w.pts.empty()) return;
		for (int i = 0; i < 3; ++i) {
			Pt p = c.t.pick(w.pts);
			Point q = mk_point(c, isl_pw_qpolynomial_get_domain_space(v.p.g()), sp.np(), p);
			PV a = take_pv(c, isl_pw_qpolynomial_eval(v.p.c(), q.c())), b = v.f.eval(p);
			if (a != b) c.fail("isl_pw_qpolynomial_eval", "at " + str(p) + " evaluates to " + str(a) + " instead of " + str(b) + "\nafter " + op + "\n" + how);
			c.label("isl_pw_qpolynomial_eval");
		}
	}
	V mk(PWQ p) { V v; v.f = fn_pw(c, p.g()); v.p = p; return v; }
	V operand(const Sp &d, const char *nm)
	{
		std::vector<PMod> m; V v;
		int k = c.t.weighted({10, 1, 1});
		Space s(mk_space(c, d));
		if (k == 0) {
			PWQ p = gen_pwq(c, d, m, opt());
			v = mk(p);
			compare("construction", v.f, d.np() + d.no(), [&](const Pt &p) { return eval(m, p); }, text(m, d) + "result " + S(p), 150);
		} else if (k == 1) {
			PwAff a = gen_pwaff(c, d, false, c.t.chance(1, 3)); FFun f = fn(c, a.g());
			v = mk(R_(isl_pw_qpolynomial_from_pw_aff(a.c())));
			compare("isl_pw_qpolynomial_from_pw_aff", v.f, d.np() + d.no(), [&](const Pt &p) { FV x = f.eval(p)[0]; return x.st == 1 ? pval(x.v) : x.st == 2 ? pspec(2) : PV(); }, S(a) + "\nresult " + S(v.p));
		} else {
			// special constant on part of the domain
			int sp = (int)c.t.below(3); std::vector<PMod> mm; GenOpt o = opt();
			Set d1 = gen_set(c, d, o, false);
			isl_qpolynomial *q = sp == 0 ? isl_qpolynomial_infty_on_domain(s.c()) : sp == 1 ? isl_qpolynomial_neginfty_on_domain(s.c()) : isl_qpolynomial_nan_on_domain(s.c());
			PWQ a = R_(isl_pw_qpolynomial_alloc(d1.c(), q)), b = gen_pwq(c, d, mm, o, 1);
			b = R_(isl_pw_qpolynomial_subtract_domain(b.r(), d1.c()));
			v = mk(R_(isl_pw_qpolynomial_add_disjoint(a.r(), b.r()))); MMap md = extract(c, d1.g());
			compare("construction", v.f, d.np() + d.no(), [&](const Pt &p) { return md.has(p) ? pspec(sp == 0 ? 1 : sp == 1 ? -1 : 2) : eval(mm, p); }, "special constant\nresult " + S(v.p), 150);
		}
		ctx += std::string(nm) + " = " + S(v.p) + "\n";
		if (!B(c, isl_pw_qpolynomial_plain_is_equal(v.p.g(), v.p.g()), "pe") && !B(c, isl_pw_qpolynomial_involves_nan(v.p.g()), "nan")) c.fail("isl_pw_qpolynomial_plain_is_equal", "not equal to itself\n" + ctx);
		return v;
	}
	bool special(const V &v) { for (auto &p : v.f.p) if (p.q.k) return true; return false; }
	V ok(const char *op, PWQ res, const Sp &sp, const F1 &want, const std::string &extra = "")
	{
		std::string how = ctx + op + " " + extra;
		V r = mk(R(c, res.r(), op));
		how += "\nresult " + S(r.p);
		Space got(isl_pw_qpolynomial_get_domain_space(r.p.g())), w(mk_space(c, sp));
		if (!B(c, isl_space_is_equal(got.g(), w.g()), "eq")) c.fail(std::string("space:") + op, S(got) + " instead of " + S(w) + "\n" + how);
		compare(op, r.f, sp.np() + sp.no(), want, how);
		lib_eval(op, r, sp, how);
		ctx += std::string("-- ") + op + " " + extra + " -> " + S(r.p) + "\n";
		return r;
	}
};
Sp flat(int np, int ns) { Sp s; const char *P[] = {"n", "m", "p_", "q_", "r_", "s_"}; for (int i = 0; i < np; ++i) s.params.push_back(P[i]); s.out = mk_tup("", ns); return s; }

V arith(G &g, const V &a)
{
	Case &c = g.c;
	switch (c.t.below(8)) {
	case 0: { V b = g.operand(g.dom, "b"); return g.ok("isl_pw_qpolynomial_add", isl_pw_qpolynomial_add(a.p.c(), b.p.c()), g.dom, [&](const Pt &p) { return a.f.eval(p) + b.f.eval(p); }); }
	case 1: { V b = c.t.chance(1, 6) ? a : g.operand(g.dom, "b"); return g.ok("isl_pw_qpolynomial_sub", isl_pw_qpolynomial_sub(a.p.c(), b.p.c()), g.dom, [&](const Pt &p) { return a.f.eval(p) + neg(b.f.eval(p)); }); }
	case 2: case 3: {
		V b = g.operand(g.dom, "b");
		if (g.special(a) || g.special(b)) return a;
		// outside of either domain the product is zero
		return g.ok("isl_pw_qpolynomial_mul", isl_pw_qpolynomial_mul(a.p.c(), b.p.c()), g.dom, [&](const Pt &p) { int k, l; PV x = a.f.eval(p, &k), y = b.f.eval(p, &l); return k && l ? x * y : PV(); }); }
	case 4: return g.ok("isl_pw_qpolynomial_neg", isl_pw_qpolynomial_neg(a.p.c()), g.dom, [&](const Pt &p) { return neg(a.f.eval(p)); });
	case 5: {
		mpq_class q(c.t.range(-4, 4), 1 + (int)c.t.below(4)); q.canonicalize();
		bool down = q != 0 && c.t.chance(1, 2);
		return g.ok(down ? "isl_pw_qpolynomial_scale_down_val" : "isl_pw_qpolynomial_scale_val", down ? isl_pw_qpolynomial_scale_down_val(a.p.c(), mkrat(c.ctx, q)) : isl_pw_qpolynomial_scale_val(a.p.c(), mkrat(c.ctx, q)), g.dom, [&](const Pt &p) { int k; PV x = a.f.eval(p, &k); return !k || q == 0 ? PV() : x * pval(down ? mpq_class(1 / q) : q); }, q.get_str()); }
	case 6: {
		int n = c.t.below(4);
		if (g.special(a)) return a;
		return g.ok("isl_pw_qpolynomial_pow", isl_pw_qpolynomial_pow(a.p.c(), n), g.dom, [&](const Pt &p) { int k; PV x = a.f.eval(p, &k); if (!k) return PV(); PV r = pval(1); if (x.k && n == 0) return r; for (int i = 0; i < n; ++i) r = i ? r * x : x; return r; }, std::to_string(n)); }
	default: {
		// linear combination written in two ways
		V b = g.operand(g.dom, "b");
		if (g.special(a) || g.special(b)) return a;
		return g.ok("(a+b)*(a-b)", isl_pw_qpolynomial_mul(isl_pw_qpolynomial_add(a.p.c(), b.p.c()), isl_pw_qpolynomial_sub(a.p.c(), b.p.c())), g.dom, [&](const Pt &p) { PV x = a.f.eval(p), y = b.f.eval(p); if (x.k || y.k) return (x + y) * (x + neg(y)); return pval(x.v * x.v - y.v * y.v); }); }
	}
}
V domain_op(G &g, const V &a)
{
	Case &c = g.c;
	int op = c.t.below(10);
	Sp ps; ps.params = g.dom.params; ps.out = mk_tup("", 0);
	auto pset = [&] { Set s = R_(isl_set_params(g.some_set(ps).r())); g.ctx += "params " + S(s) + "\n"; return s; };
	switch (op) {
	case 0: { Set s = g.some_set(g.dom); MMap m = extract(c, s.g()); return g.ok("isl_pw_qpolynomial_intersect_domain", isl_pw_qpolynomial_intersect_domain(a.p.c(), s.c()), g.dom, [&](const Pt &p) { return m.has(p) ? a.f.eval(p) : PV(); }, S(s)); }
	case 1: { Set s = g.some_set(g.dom); MMap m = extract(c, s.g()); return g.ok("isl_pw_qpolynomial_subtract_domain", isl_pw_qpolynomial_subtract_domain(a.p.c(), s.c()), g.dom, [&](const Pt &p) { return m.has(p) ? PV() : a.f.eval(p); }, S(s)); }
	case 2: { Set s = pset(); MMap m = extract(c, s.g()); return g.ok("isl_pw_qpolynomial_intersect_params", isl_pw_qpolynomial_intersect_params(a.p.c(), s.c()), g.dom, [&](const Pt &p) { return m.has(sub(p, 0, g.np)) ? a.f.eval(p) : PV(); }); }
	case 3: { // gist
		Set s = g.some_set(g.dom); MMap m = extract(c, s.g());
		PWQ r = R_(isl_pw_qpolynomial_gist(a.p.c(), s.c())); g.ctx += "gist " + S(r) + "\n";
		FPW f = fn_pw(c, r.g());
		for (auto &p : make_window(g.np + g.ns, 300).pts) if (m.has(p) && f.eval(p) != a.f.eval(p)) c.fail("isl_pw_qpolynomial_gist", "at " + str(p) + " " + str(f.eval(p)) + " instead of " + str(a.f.eval(p)) + "\n" + g.ctx + "context " + S(s));
		c.label("isl_pw_qpolynomial_gist");
		return g.ok("gist+intersect_domain", isl_pw_qpolynomial_intersect_domain(r.r(), s.c()), g.dom, [&](const Pt &p) { return m.has(p) ? a.f.eval(p) : PV(); }, S(s)); }
	case 4: { Set s = pset(); MMap m = extract(c, s.g()); return g.ok("isl_pw_qpolynomial_gist_params", isl_pw_qpolynomial_intersect_params(isl_pw_qpolynomial_gist_params(a.p.c(), s.c()), s.c()), g.dom, [&](const Pt &p) { return m.has(sub(p, 0, g.np)) ? a.f.eval(p) : PV(); }); }
	case 5: return g.ok("isl_pw_qpolynomial_coalesce", isl_pw_qpolynomial_coalesce(a.p.c()), g.dom, [&](const Pt &p) { return a.f.eval(p); });
	case 6: { int n = c.t.below(6); return g.ok("isl_pw_qpolynomial_split_periods", isl_pw_qpolynomial_split_periods(a.p.c(), n), g.dom, [&](const Pt &p) { return a.f.eval(p); }, std::to_string(n)); }
	case 7: { bool par = g.np && c.t.chance(1, 2); int n = par ? g.np : g.ns, f = c.t.below(n + 1), k = c.t.below(n - f + 1); return g.ok("isl_pw_qpolynomial_split_dims", isl_pw_qpolynomial_split_dims(a.p.c(), par ? isl_dim_param : isl_dim_in, f, k), g.dom, [&](const Pt &p) { return a.f.eval(p); }, ints({par, f, k})); }
	case 8: { // domain
		Set d = R_(isl_pw_qpolynomial_domain(a.p.c())); MMap m = extract(c, d.g());
		same_on(c, make_window(g.np + g.ns, 300), "isl_pw_qpolynomial_domain", [&](const Pt &p) { return m.has(p); }, [&](const Pt &p) { int k; a.f.eval(p, &k); return k > 0; }, [&] { return g.ctx + S(d); });
		c.label("isl_pw_qpolynomial_domain"); return a; }
	default: { // conversion to and from a single polynomial
		bool isa = B(c, isl_pw_qpolynomial_isa_qpolynomial(a.p.g()), "isa");
		if (!isa) return a;
		QP q = R_(isl_pw_qpolynomial_as_qpolynomial(a.p.c()));
		return g.ok("isl_pw_qpolynomial_from_qpolynomial", isl_pw_qpolynomial_from_qpolynomial(q.c()), g.dom, [&](const Pt &p) { return a.f.eval(p); }); }
	}
}
V dims(G &g, const V &a)
{
	Case &c = g.c;
	int np = g.np, ns = g.ns;
	auto setdim = [&](int p, int s) { g.np = p; g.ns = s; Sp r = g.dom; r.params.resize(std::min<size_t>(p, r.params.size())); g.dom = r; };
	int op = c.t.below(7);
	auto anon = [&](PWQ r, int p, int s) { // expected space with fresh names is not predicted; dims are checked
		(void)r; (void)p; (void)s; };
	(void)anon; (void)setdim;
	switch (op) {
	case 0: { // insert domain dims
		int f = c.t.below(ns + 1), n = c.t.below(3); Sp sp = set_sp(g.dom, mk_tup(c.t.chance(1, 1) ? "" : "", ns + n));
		bool add = f == ns && c.t.chance(1, 2);
		V r = g.ok(add ? "isl_pw_qpolynomial_add_dims" : "isl_pw_qpolynomial_insert_dims", add ? isl_pw_qpolynomial_add_dims(a.p.c(), isl_dim_in, n) : isl_pw_qpolynomial_insert_dims(a.p.c(), isl_dim_in, f, n), sp, [&](const Pt &p) { Pt q = cat(sub(p, 0, np + f), sub(p, np + f + n, ns - f)); return a.f.eval(q); }, ints({f, n}));
		g.dom = sp; g.ns += n; return r; }
	case 1: { // drop: after fixing the dropped dimensions' influence away
		if (!ns) return a;
		int f = c.t.below(ns), n = 1 + c.t.below(ns - f);
		bool inv = B(c, isl_pw_qpolynomial_involves_dims(a.p.g(), isl_dim_in, f, n), "involves");
		if (inv) {
			// "involves" is checked the other way round: not involved means independent
			return a;
		}
		c.label("isl_pw_qpolynomial_involves_dims");
		for (auto &p : make_window(np + ns, 200).pts) { Pt q = p; for (int i = 0; i < n; ++i) q[np + f + i] = 0; if (a.f.eval(p) != a.f.eval(q)) c.fail("isl_pw_qpolynomial_involves_dims", "claimed not to involve" + ints({f, n}) + "\n" + g.ctx); }
		Sp sp = set_sp(g.dom, mk_tup("", ns - n));
		V r = g.ok("isl_pw_qpolynomial_drop_dims", isl_pw_qpolynomial_drop_dims(a.p.c(), isl_dim_in, f, n), sp, [&](const Pt &p) { Pt q = sub(p, 0, np + f); q.resize(np + f + n, 0); q = cat(q, sub(p, np + f, ns - f - n)); return a.f.eval(q); }, ints({f, n}));
		g.dom = sp; g.ns -= n; return r; }
	case 2: { // fix
		if (np + ns == 0) return a;
		bool par = np && (!ns || c.t.chance(1, 3)); int k = c.t.below(par ? np : ns), v = c.t.range(-4, 4);
		int at = par ? k : np + k;
		return g.ok("isl_pw_qpolynomial_fix_val", isl_pw_qpolynomial_fix_val(a.p.c(), par ? isl_dim_param : isl_dim_in, k, isl_val_int_from_si(c.ctx, v)), g.dom, [&](const Pt &p) { return p[at] == v ? a.f.eval(p) : PV(); }, ints({par, k, v})); }
	case 3: { // set dims become parameters
		if (!ns) return a;
		int f = c.t.below(ns), n = 1 + c.t.below(ns - f), d = c.t.below(np + 1);
		PWQ q = a.p; for (int i = 0; i < n; ++i) q = R_(isl_pw_qpolynomial_set_dim_name(q.r(), isl_dim_in, f + i, ("x" + std::to_string(np + i)).c_str()));
		Sp sp = set_sp(g.dom, mk_tup("", ns - n)); std::vector<std::string> ps; for (int i = 0; i < d; ++i) ps.push_back(g.dom.params[i]); for (int i = 0; i < n; ++i) ps.push_back("x" + std::to_string(np + i)); for (int i = d; i < np; ++i) ps.push_back(g.dom.params[i]); sp.params = ps;
		V r = g.ok("isl_pw_qpolynomial_move_dims", isl_pw_qpolynomial_move_dims(q.r(), isl_dim_param, d, isl_dim_in, f, n), sp, [&](const Pt &p) {
			Pt q = cat(sub(p, 0, d), sub(p, d + n, np - d)); q = cat(q, sub(p, np + n, f)); q = cat(q, sub(p, d, n)); q = cat(q, sub(p, np + n + f, ns - n - f)); return a.f.eval(q); }, ints({d, f, n}));
		g.dom = sp; g.np += n; g.ns -= n; return r; }
	case 4: { // parameters become set dims
		if (!np) return a;
		int f = c.t.below(np), n = 1 + c.t.below(np - f), d = c.t.below(ns + 1);
		Sp sp = set_sp(g.dom, mk_tup("", ns + n)); sp.params.erase(sp.params.begin() + f, sp.params.begin() + f + n);
		PWQ q = R_(isl_pw_qpolynomial_move_dims(a.p.c(), isl_dim_in, d, isl_dim_param, f, n));
		V r = g.mk(q); Space got(isl_pw_qpolynomial_get_domain_space(q.g()));
		if (N(c, isl_space_dim(got.g(), isl_dim_param), "d") != np - n || N(c, isl_space_dim(got.g(), isl_dim_set), "d") != ns + n) c.fail("space:isl_pw_qpolynomial_move_dims", S(got) + "\n" + g.ctx);
		g.compare("isl_pw_qpolynomial_move_dims", r.f, np + ns, [&](const Pt &p) { // p: params without f..f+n, dims with n at d
			Pt q = sub(p, 0, f); q = cat(q, sub(p, np - n + d, n)); q = cat(q, sub(p, f, np - n - f)); q = cat(q, sub(p, np - n, d)); q = cat(q, sub(p, np - n + d + n, ns - d)); return a.f.eval(q); }, g.ctx + "move parameters" + ints({f, n, d}) + "\nresult " + S(q));
		c.label("end"); r.p = PWQ(); return r; }
	case 5: { // project domain on params
		bool inv = ns && B(c, isl_pw_qpolynomial_involves_dims(a.p.g(), isl_dim_in, 0, ns), "involves");
		if (inv) return a;
		// the domain has to be independent as well; values do not depend on dims
		V r; r.p = R_(isl_pw_qpolynomial_project_domain_on_params(a.p.c())); FPW f = fn_pw(c, r.p.g());
		g.compare("isl_pw_qpolynomial_project_domain_on_params", f, np, [&](const Pt &p) { Pt q = p; q.resize(np + ns, 0); return a.f.eval(q); }, g.ctx + S(r.p));
		PWQ back = R_(isl_pw_qpolynomial_from_range(r.p.c())); FPW fb = fn_pw(c, back.g());
		g.compare("isl_pw_qpolynomial_from_range", fb, np, [&](const Pt &p) { Pt q = p; q.resize(np + ns, 0); return a.f.eval(q); }, g.ctx + S(back));
		c.label("end"); r.p = PWQ(); return r; }
	default: { // unused parameters
		PWQ q = R_(isl_pw_qpolynomial_drop_unused_params(a.p.c())); Space sp(isl_pw_qpolynomial_get_domain_space(q.g())); int k = N(c, isl_space_dim(sp.g(), isl_dim_param), "d"); std::vector<int> pos;
		for (int i = 0; i < k; ++i) { const char *nm = isl_space_get_dim_name(sp.g(), isl_dim_param, i); pos.push_back(std::find(g.dom.params.begin(), g.dom.params.end(), nm) - g.dom.params.begin()); }
		for (int i = 0; i < np; ++i) if (std::find(pos.begin(), pos.end(), i) == pos.end()) { bool inv = B(c, isl_pw_qpolynomial_involves_param_id(a.p.g(), Id(isl_id_alloc(c.ctx, g.dom.params[i].c_str(), nullptr)).g()), "inv"); if (inv) c.fail("isl_pw_qpolynomial_drop_unused_params", "dropped a parameter that is involved\n" + g.ctx); }
		FPW f = fn_pw(c, q.g());
		for (auto &p : make_window(np + ns, 200).pts) { Pt x; for (int i : pos) x.push_back(p[i]); x = cat(x, sub(p, np, ns)); if (f.eval(x) != a.f.eval(p)) c.fail("isl_pw_qpolynomial_drop_unused_params", "at " + str(p) + "\n" + g.ctx + S(q)); }
		c.label("isl_pw_qpolynomial_drop_unused_params"); return a; }
	}
}
// single quasi-polynomials
void poly(G &g)
{
	Case &c = g.c; int np = g.np, ns = g.ns;
	Space sp(mk_space(c, g.dom));
	PE e = gen_pe(c, np + ns, 2 + c.t.below(2));
	QP q = e.build(c, sp.g()); FPoly f = fn_poly(c, q.g());
	g.ctx += "expression " + e.text(var_names(g.dom)) + "\nq = "; { PWQ s(isl_pw_qpolynomial_from_qpolynomial(q.c())); g.ctx += S(s) + "\n"; }
	auto cmp = [&](const std::string &op, const FPoly &r, int n, const F1 &want, const std::string &ex = "", int budget = 200) {
		for (auto &p : make_window(n, budget).pts) { PV x = r.eval(p), y = want(p); if (x != y) c.fail(op, "at " + str(p) + " the value is " + str(x) + " instead of " + str(y) + "\n" + g.ctx + ex); }
		c.label(op); };
	auto str_ = [&](const QP &r) { PWQ s(isl_pw_qpolynomial_from_qpolynomial(r.c())); return S(s); };
	F1 val = [&](const Pt &p) { return pval(e.eval(p)); };
	cmp("isl_qpolynomial construction", f, np + ns, val);
	if (c.t.chance(1, 2)) { // evaluation
		auto w = make_window(np + ns, 200); Pt p = c.t.pick(w.pts); if (c.t.chance(1, 4)) for (auto &x : p) x = x * 1000003 + (int)c.t.below(100);
		Point pt = mk_point(c, sp.c(), np, p); PV v = take_pv(c, isl_qpolynomial_eval(q.c(), pt.c())), w2 = pval(e.eval(p)); if (v != w2) c.fail("isl_qpolynomial_eval", "at " + str(p) + " " + str(v) + " instead of " + str(w2) + "\n" + g.ctx); c.label("isl_qpolynomial_eval"); }
	c.nontrivial = f.t.size() >= 2;
	switch (c.t.below(12)) {
	case 0: { // the sum of the terms
		struct U { Case *c; std::vector<QP> t; } u; u.c = &c;
		if (isl_qpolynomial_foreach_term(q.g(), [](isl_term *t, void *p) -> isl_stat { isl_qpolynomial *r = isl_qpolynomial_from_term(t); if (!r) return isl_stat_error; ((U *)p)->t.push_back(QP(r)); return isl_stat_ok; }, &u) < 0) on_error(c, "foreach_term");
		QP s = R_(isl_qpolynomial_zero_on_domain(sp.c())); for (auto &t : u.t) s = R_(isl_qpolynomial_add(s.r(), t.c()));
		cmp("isl_qpolynomial_from_term", fn_poly(c, s.g()), np + ns, val, str_(s)); break; }
	case 1: { // substitution
		if (np + ns == 0) break; bool par = np && (!ns || c.t.chance(1, 4)); int d = par ? np : ns, k = c.t.below(d), n = 1 + c.t.below(std::min(2, d - k)), at = (par ? 0 : np) + k;
		std::vector<PE> s; std::vector<QP> h; std::vector<isl_qpolynomial *> raw; bool lin = false; for (auto &x : f.divs) { (void)x; lin = true; }
		if (lin || f.t.empty()) break; // the replaced variable may only occur outside of integer divisions
		std::string ex;
		for (int i = 0; i < n; ++i) { s.push_back(gen_pe(c, np + ns, 1, false)); h.push_back(s.back().build(c, sp.g())); raw.push_back(h.back().g()); ex += s.back().text(var_names(g.dom)) + "; "; }
		QP r = R_(isl_qpolynomial_substitute(q.c(), par ? isl_dim_param : isl_dim_in, k, n, raw.data())); // simultaneous
		auto ev = [&](const Pt &p) { // term-wise with rational values
			mpq_class sum = 0; for (auto &t : f.t) { mpq_class m = t.coef; for (int i = 0; i < np + ns; ++i) { mpq_class b = i >= at && i < at + n ? s[i - at].eval(p) : mpq_class(Z(p[i])); for (int j = 0; j < t.e[i]; ++j) m *= b; } sum += m; } return pval(sum); };
		cmp("isl_qpolynomial_substitute", fn_poly(c, r.g()), np + ns, ev, ex + str_(r)); break; }
	case 2: { // dims
		int k = c.t.below(ns + 1), n = c.t.below(3); QP r = R_(isl_qpolynomial_insert_dims(q.c(), isl_dim_in, k, n));
		cmp("isl_qpolynomial_insert_dims", fn_poly(c, r.g()), np + ns + n, [&](const Pt &p) { return val(cat(sub(p, 0, np + k), sub(p, np + k + n, ns - k))); }, str_(r));
		r = R_(isl_qpolynomial_drop_dims(r.r(), isl_dim_in, k, n)); cmp("isl_qpolynomial_drop_dims", fn_poly(c, r.g()), np + ns, val, str_(r)); break; }
	case 3: { if (!ns) break; int k = c.t.below(ns), n = 1 + c.t.below(ns - k), d = c.t.below(np + 1); QP r = q;
		for (int i = 0; i < n; ++i) r = R_(isl_qpolynomial_set_dim_name(r.r(), isl_dim_in, k + i, ("x" + std::to_string(i)).c_str()));
		r = R_(isl_qpolynomial_move_dims(r.r(), isl_dim_param, d, isl_dim_in, k, n));
		cmp("isl_qpolynomial_move_dims", fn_poly(c, r.g()), np + ns, [&](const Pt &p) { Pt x = cat(sub(p, 0, d), sub(p, d + n, np - d)); x = cat(x, sub(p, np + n, k)); x = cat(x, sub(p, d, n)); x = cat(x, sub(p, np + n + k, ns - n - k)); return val(x); }, str_(r) + ints({d, k, n})); break; }
	case 4: { // constant, degenerate queries
		PV k = take_pv(c, isl_qpolynomial_get_constant_val(q.g())); mpq_class z = 0; for (auto &t : f.t) { bool cst = true; for (int x : t.e) cst = cst && !x; if (cst) z += t.coef; }
		if (k != pval(z)) c.fail("isl_qpolynomial_get_constant_val", str(k) + " instead of " + z.get_str() + "\n" + g.ctx);
		bool zero = B(c, isl_qpolynomial_is_zero(q.g()), "z"); bool any = false; for (auto &p : make_window(np + ns, 200).pts) any = any || e.eval(p) != 0; if (zero && any) c.fail("isl_qpolynomial_is_zero", g.ctx); c.label("isl_qpolynomial_get_constant_val"); break; }
	case 5: { // gist
		Set s = g.some_set(g.dom); MMap m = extract(c, s.g()); QP r = R_(isl_qpolynomial_gist(q.c(), s.c())); FPoly h = fn_poly(c, r.g());
		for (auto &p : make_window(np + ns, 300).pts) if (m.has(p) && h.eval(p) != val(p)) c.fail("isl_qpolynomial_gist", "at " + str(p) + " " + str(h.eval(p)) + " instead of " + str(val(p)) + "\n" + g.ctx + S(s) + "\n" + str_(r)); c.label("isl_qpolynomial_gist"); break; }
	case 6: { // homogenization: setting the new variable to 1 gives back the polynomial, all terms have the same degree
		if (!f.divs.empty()) break; QP r = R_(isl_qpolynomial_homogenize(q.c())); FPoly h = fn_poly(c, r.g()); int deg = -1; std::string ex = str_(r);
		for (auto &t : h.t) { int d = 0; for (int i = np; i < np + ns + 1; ++i) d += t.e[i]; if (deg >= 0 && d != deg) c.fail("isl_qpolynomial_homogenize", "terms of different degree\n" + g.ctx + ex); deg = d; }
		for (auto &p : make_window(np + ns, 200).pts) { Pt x = sub(p, 0, np); x.push_back(1); x = cat(x, sub(p, np, ns)); if (h.eval(x) != val(p)) c.fail("isl_qpolynomial_homogenize", "at " + str(p) + "\n" + g.ctx + ex); } c.label("isl_qpolynomial_homogenize"); break; }
	case 7: { // lifting of the integer divisions
		BSet b = gen_bset(c, g.dom, g.opt()); MMap mb = extract(c, b.g());
		struct U { BSet b; QP q; int n = 0; } u;
		if (isl_qpolynomial_as_polynomial_on_domain(q.g(), b.g(), [](isl_basic_set *b, isl_qpolynomial *q, void *p) -> isl_stat { ((U *)p)->b = BSet(b); ((U *)p)->q = QP(q); ((U *)p)->n++; return isl_stat_ok; }, &u) < 0) on_error(c, "as_polynomial_on_domain");
		if (u.n != 1) c.fail("isl_qpolynomial_as_polynomial_on_domain", "callback called " + std::to_string(u.n) + " times");
		FPoly h = fn_poly(c, u.q.g()); MMap ml = extract(c, u.b.g()); if (!h.divs.empty() && h.t.size()) for (auto &t : h.t) for (size_t i = h.nvar; i < t.e.size(); ++i) if (t.e[i]) c.fail("isl_qpolynomial_as_polynomial_on_domain", "integer divisions left\n" + g.ctx);
		for (auto &p : make_window(np + ns, 150).pts) { Pt x = p; int nd = h.nvar - np - ns; // the extra dimensions are the divisions of q in order
			// find them by evaluation of the divisions of q
			if ((int)f.divs.size() != nd) { if (nd == 0) break; break; } for (auto &d : f.divs) { FV v = d.eval(p); x.push_back(fdiv(v.v.get_num(), v.v.get_den()).get_si()); }
			if (ml.has(x) != mb.has(p)) c.fail("isl_qpolynomial_as_polynomial_on_domain", "set at " + str(x) + "\n" + g.ctx + S(u.b)); if (h.eval(x) != val(p)) c.fail("isl_qpolynomial_as_polynomial_on_domain", "value at " + str(x) + "\n" + g.ctx + S(u.b) + str_(u.q)); }
		c.label("isl_qpolynomial_as_polynomial_on_domain"); break; }
	case 8: { // alignment of parameters
		isl_space *m = isl_space_params_alloc(c.ctx, 0); m = isl_space_add_param_id(m, isl_id_alloc(c.ctx, "zz", nullptr)); for (int i = np - 1; i >= 0; --i) m = isl_space_add_param_id(m, isl_id_alloc(c.ctx, g.dom.params[i].c_str(), nullptr));
		QP r = R_(isl_qpolynomial_align_params(q.c(), m)); cmp("isl_qpolynomial_align_params", fn_poly(c, r.g()), np + 1 + ns, [&](const Pt &p) { Pt x; for (int i = 0; i < np; ++i) x.push_back(p[np - i]); return val(cat(x, sub(p, np + 1, ns))); }, str_(r)); break; }
	case 9: { // relation of an affine polynomial
		bool aff = true; for (auto &t : f.t) { int d = 0; for (int x : t.e) d += x; aff = aff && d <= 1; } if (!aff) { e = PE(); e.q = gen_qe(c, np + ns, 3); q = e.build(c, sp.g()); g.ctx += "affine q = " + str_(q) + "\n"; }
		BMap m = R_(isl_basic_map_from_qpolynomial(q.c())); MMap mm = extract(c, m.g()); g.ctx += "result " + S(m) + "\n";
		for (auto &p : make_window(np + ns, 60).pts) { mpq_class v = e.eval(p); for (int d = -1; d <= 1; ++d) { mpz_class y = fdiv(v.get_num(), v.get_den()) + d; if (!y.fits_sint_p()) break; Pt x = p; x.push_back(y.get_si()); bool in = v == mpq_class(y); if (mm.has(x) != in) c.fail("isl_basic_map_from_qpolynomial", "at " + str(x) + "\n" + g.ctx); } } c.label("isl_basic_map_from_qpolynomial"); break; }
	case 10: { // equality after a different construction order
		QP r = R_(isl_qpolynomial_sub(isl_qpolynomial_add(q.c(), q.c()), q.c())); bool eq = B(c, isl_qpolynomial_plain_is_equal(q.g(), r.g()), "pe"); (void)eq; cmp("2q-q", fn_poly(c, r.g()), np + ns, val);
		QP z = R_(isl_qpolynomial_sub(q.c(), q.c())); cmp("q-q", fn_poly(c, z.g()), np + ns, [](const Pt &) { return PV(); }); break; }
	default: { int s = isl_qpolynomial_sgn(q.g()); // sign if constant, 0 if unknown
		for (auto &p : make_window(np + ns, 100).pts) if (s && sgn(e.eval(p)) != s) c.fail("isl_qpolynomial_sgn", g.ctx); c.label("isl_qpolynomial_sgn"); break; }
	}
}
void approx(G &g)
{
	Case &c = g.c; V a = g.operand(g.dom, "a"); if (g.special(a)) return;
	int sgn_ = c.t.range(-1, 1);
	PWQ r = R_(isl_pw_qpolynomial_to_polynomial(a.p.c(), sgn_)); V v = g.mk(r); std::string how = g.ctx + "sign " + std::to_string(sgn_) + "\nresult " + S(r);
	for (auto &p : v.f.p) for (auto &t : p.q.t) for (size_t i = p.q.nvar; i < t.e.size(); ++i) if (t.e[i]) c.fail("isl_pw_qpolynomial_to_polynomial", "the result has integer divisions\n" + how);
	for (auto &p : make_window(g.np + g.ns, 400).pts) { int k; PV x = v.f.eval(p, &k), y = a.f.eval(p); if (k > 1) c.fail("overlap:isl_pw_qpolynomial_to_polynomial", str(p) + "\n" + how);
		if ((sgn_ > 0 && pless(x, y)) || (sgn_ < 0 && pless(y, x))) c.fail("isl_pw_qpolynomial_to_polynomial", "at " + str(p) + " approximation " + str(x) + " of " + str(y) + "\n" + how); }
	c.label("isl_pw_qpolynomial_to_polynomial"); c.nontrivial = true;
}
void extremum(G &g)
{
	Case &c = g.c; std::vector<PMod> m; GenOpt o = g.opt(); o.bounded = true; o.box = 3; Sp sp = set_sp(flat(0, 0), mk_tup(tup_name(c), 1 + c.t.below(2)));
	// for the optimum, parameters are part of the scanned points as well
	PWQ p = gen_pwq(c, sp, m, o, 3); p = R_(isl_pw_qpolynomial_intersect_domain(p.r(), clip(c, Set(isl_set_universe(mk_space(c, sp))), -7, 7).r()));
	FPW f = fn_pw(c, p.g()); bool any = false; PV mx, mn; for (auto &x : box_points(sp.no(), -7, 7)) { int k; PV v = f.eval(x, &k); if (!k) continue; if (!any || pless(mx, v)) mx = v; if (!any || pless(v, mn)) mn = v; any = true; }
	std::string how = S(p); PV a = take_pv(c, isl_pw_qpolynomial_max(p.c())), b = take_pv(c, isl_pw_qpolynomial_min(p.c()));
	if (a != mx || b != mn) c.fail("isl_pw_qpolynomial_max", "max " + str(a) + " instead of " + str(mx) + ", min " + str(b) + " instead of " + str(mn) + "\n" + how); c.label("isl_pw_qpolynomial_max"); c.nontrivial = any; c.log << how << "\n";
}
void lifted(G &g)
{
	Case &c = g.c; V a = g.operand(g.dom, "a"); if (g.special(a)) return; int n = g.np + g.ns;
	std::vector<std::pair<Set, QP>> ps;
	if (isl_pw_qpolynomial_foreach_lifted_piece(a.p.g(), [](isl_set *s, isl_qpolynomial *q, void *v) -> isl_stat { ((std::vector<std::pair<Set, QP>> *)v)->push_back({Set(s), QP(q)}); return isl_stat_ok; }, &ps) < 0) on_error(c, "foreach_lifted_piece");
	std::vector<std::pair<MMap, FPoly>> ms;
	for (auto &x : ps) { for (int i = 0; i < isl_set_n_basic_set(x.first.g()); ++i) if (isl_set_involves_locals(x.first.g()) != isl_bool_false) c.fail("isl_pw_qpolynomial_foreach_lifted_piece", "set with local variables " + S(x.first) + "\n" + g.ctx);
		Set d = R_(isl_set_coalesce(x.first.c())); MMap m = extract(c, x.first.g()); ms.push_back({m, fn_poly(c, x.second.g())}); }
	for (auto &p : make_window(n, 100).pts) { int k; PV v = a.f.eval(p, &k); bool hit = false;
		for (size_t i = 0; i < ms.size(); ++i) { // search over the lifted dimensions
			int extra = ms[i].second.nvar - n; if (extra > 3) continue; std::vector<std::pair<int, int64_t>> fx; for (int j = 0; j < n; ++j) fx.push_back({j, p[j]});
			for (auto &b : ms[i].first.d) { if (!sat(fix(b, fx))) continue; hit = true; if (!k) c.fail("isl_pw_qpolynomial_foreach_lifted_piece", "extra point " + str(p) + "\n" + g.ctx + S(ps[i].first));
				Pt x = p; x.resize(n + extra, 0); PV w = ms[i].second.eval(x); if (w != v) c.fail("isl_pw_qpolynomial_foreach_lifted_piece", "at " + str(p) + " value " + str(w) + " instead of " + str(v) + "\n" + g.ctx + S(ps[i].first)); } }
		if (k && !hit) { bool big = false; for (auto &x : ms) big = big || x.second.nvar - n > 3; if (!big) c.fail("isl_pw_qpolynomial_foreach_lifted_piece", "point " + str(p) + " is missing\n" + g.ctx); } }
	c.label("isl_pw_qpolynomial_foreach_lifted_piece"); c.nontrivial = true;
}
// unions: one piecewise quasi-polynomial per domain space
struct U1 { std::map<std::string, std::pair<Sp, V>> m; UPWQ u; };
void unions(G &g)
{
	Case &c = g.c;
	static const char *NM[] = {"", "A", "B"};
	std::vector<std::string> par; if (c.t.chance(1, 2)) par.push_back("n");
	auto tk = [](const Sp &s) { return s.out.name + "/" + std::to_string(s.out.n); };
	auto pick_sp = [&] { Sp s; s.params = par; s.out = mk_tup(NM[c.t.below(3)], c.t.below(3)); return s; };
	auto gen = [&](const char *nm) { U1 r; r.u = R_(isl_union_pw_qpolynomial_zero_ctx(c.ctx)); int n = c.t.below(4);
		for (int i = 0; i < n; ++i) { Sp s = pick_sp(); std::vector<PMod> m; V v = g.mk(gen_pwq(c, s, m, g.opt(), 2, true, 1)); auto it = r.m.find(tk(s)); bool had = it != r.m.end(); if (!had) r.m[tk(s)] = {s, v}; else { V o = it->second.second; it->second.second = g.mk(R_(isl_pw_qpolynomial_add(o.p.c(), v.p.c()))); }
			r.u = !had && c.t.chance(1, 2) ? R_(isl_union_pw_qpolynomial_add_pw_qpolynomial(r.u.r(), v.p.c())) : R_(isl_union_pw_qpolynomial_add(isl_union_pw_qpolynomial_from_pw_qpolynomial(v.p.c()), r.u.r())); }
		g.ctx += std::string(nm) + " = " + S(r.u) + "\n"; return r; };
	auto chk = [&](const std::string &op, const UPWQ &u, const std::function<PV(const Sp &, const Pt &)> &want, std::vector<const U1 *> in) {
		std::string how = g.ctx + op + "\nresult " + S(u); std::map<std::string, Sp> sps; for (auto i : in) for (auto &x : i->m) sps[x.first] = x.second.first;
		std::vector<PWQ> ps; isl_union_pw_qpolynomial_foreach_pw_qpolynomial(u.g(), [](isl_pw_qpolynomial *p, void *v) { ((std::vector<PWQ> *)v)->push_back(PWQ(p)); return isl_stat_ok; }, &ps);
		std::map<std::string, FPW> got; for (auto &p : ps) { Space s(isl_pw_qpolynomial_get_domain_space(p.g())); const char *nm = isl_space_get_tuple_name(s.g(), isl_dim_set); std::string k = std::string(nm ? nm : "") + "/" + std::to_string(isl_space_dim(s.g(), isl_dim_set)); if (got.count(k)) c.fail(op, "two components on " + k + "\n" + how);
			if (!par.empty() && isl_space_find_dim_by_name(s.g(), isl_dim_param, "n") < 0) { p = R_(isl_pw_qpolynomial_insert_dims(p.r(), isl_dim_param, 0, 1)); } got[k] = fn_pw(c, p.g()); if (!sps.count(k)) { for (auto &x : got[k].p) if (x.q.k || !x.q.t.empty()) c.fail(op, "extra component on " + k + "\n" + how); } }
		if ((int)ps.size() != N(c, isl_union_pw_qpolynomial_n_pw_qpolynomial(u.g()), "n")) c.fail("isl_union_pw_qpolynomial_n_pw_qpolynomial", how);
		for (auto &x : sps) { auto it = got.find(x.first); FPW f; if (it != got.end()) f = it->second; g.compare(op, f, x.second.np() + x.second.no(), [&](const Pt &p) { return want(x.second, p); }, "component " + x.first + "\n" + how, 100);
			if (c.t.chance(1, 3)) { auto w = make_window(x.second.np() + x.second.no(), 60); Pt p = c.t.pick(w.pts); Point q = mk_point(c, mk_space(c, x.second), x.second.np(), p); PV v = take_pv(c, isl_union_pw_qpolynomial_eval(u.c(), q.c())); if (v != want(x.second, p)) c.fail("isl_union_pw_qpolynomial_eval", "at " + x.first + str(p) + " " + str(v) + "\n" + how); c.label("isl_union_pw_qpolynomial_eval"); } }
	};
	U1 a = gen("a"); auto ev = [&](const U1 &u, const Sp &s, const Pt &p, int *k = nullptr) { auto it = u.m.find(tk(s)); if (k) *k = 0; return it == u.m.end() ? PV() : it->second.second.f.eval(p, k); };
	c.nontrivial = a.m.size() >= 2;
	chk("construction", a.u, [&](const Sp &s, const Pt &p) { return ev(a, s, p); }, {&a});
	auto uset = [&](std::map<std::string, MMap> &ms) { USet u = R_(isl_union_set_empty_ctx(c.ctx)); for (auto &x : a.m) if (c.t.chance(2, 3)) { Set s = g.some_set(x.second.first); ms[x.first] = extract(c, s.g()); u = R_(isl_union_set_add_set(u.r(), s.r())); } g.ctx += "set " + S(u) + "\n"; return u; };
	switch (c.t.below(11)) {
	case 0: { U1 b = gen("b"); chk("isl_union_pw_qpolynomial_add", R_(isl_union_pw_qpolynomial_add(a.u.c(), b.u.c())), [&](const Sp &s, const Pt &p) { return ev(a, s, p) + ev(b, s, p); }, {&a, &b}); break; }
	case 1: { U1 b = gen("b"); chk("isl_union_pw_qpolynomial_sub", R_(isl_union_pw_qpolynomial_sub(a.u.c(), b.u.c())), [&](const Sp &s, const Pt &p) { return ev(a, s, p) + neg(ev(b, s, p)); }, {&a, &b}); break; }
	case 2: { U1 b = gen("b"); chk("isl_union_pw_qpolynomial_mul", R_(isl_union_pw_qpolynomial_mul(a.u.c(), b.u.c())), [&](const Sp &s, const Pt &p) { int k, l; PV x = ev(a, s, p, &k), y = ev(b, s, p, &l); return k && l ? x * y : PV(); }, {&a, &b}); break; }
	case 3: chk("isl_union_pw_qpolynomial_neg", R_(isl_union_pw_qpolynomial_neg(a.u.c())), [&](const Sp &s, const Pt &p) { return neg(ev(a, s, p)); }, {&a}); break;
	case 4: { int q = c.t.range(-3, 3), d = c.t.range(1, 3); mpq_class f(q, d); f.canonicalize(); UPWQ r = R_(isl_union_pw_qpolynomial_scale_val(a.u.c(), isl_val_int_from_si(c.ctx, q))); r = R_(isl_union_pw_qpolynomial_scale_down_val(r.r(), isl_val_int_from_si(c.ctx, d))); chk("isl_union_pw_qpolynomial_scale_val", r, [&](const Sp &s, const Pt &p) { return pval(f) * ev(a, s, p); }, {&a}); break; }
	case 5: { std::map<std::string, MMap> ms; USet u = uset(ms); chk("isl_union_pw_qpolynomial_intersect_domain", R_(isl_union_pw_qpolynomial_intersect_domain(a.u.c(), u.c())), [&](const Sp &s, const Pt &p) { return ms.count(tk(s)) && ms[tk(s)].has(p) ? ev(a, s, p) : PV(); }, {&a}); break; }
	case 6: { std::map<std::string, MMap> ms; USet u = uset(ms); chk("isl_union_pw_qpolynomial_subtract_domain", R_(isl_union_pw_qpolynomial_subtract_domain(a.u.c(), u.c())), [&](const Sp &s, const Pt &p) { return ms.count(tk(s)) && ms[tk(s)].has(p) ? PV() : ev(a, s, p); }, {&a}); break; }
	case 7: { std::map<std::string, MMap> ms; USet u = uset(ms); UPWQ r = R_(isl_union_pw_qpolynomial_gist(a.u.c(), u.c())); g.ctx += "gist " + S(r) + "\n"; chk("isl_union_pw_qpolynomial_gist", R_(isl_union_pw_qpolynomial_intersect_domain(r.r(), u.c())), [&](const Sp &s, const Pt &p) { return ms.count(tk(s)) && ms[tk(s)].has(p) ? ev(a, s, p) : PV(); }, {&a}); break; }
	case 8: { int sg = c.t.range(-1, 1); UPWQ r = R_(isl_union_pw_qpolynomial_to_polynomial(a.u.c(), sg)); for (auto &x : a.m) { PWQ p = R_(isl_union_pw_qpolynomial_extract_pw_qpolynomial(r.g(), isl_pw_qpolynomial_get_space(x.second.second.p.g()))); FPW f = fn_pw(c, p.g()); for (auto &q : make_window(x.second.first.np() + x.second.first.no(), 100).pts) { PV y = f.eval(q), z = ev(a, x.second.first, q); if ((sg > 0 && pless(y, z)) || (sg < 0 && pless(z, y))) c.fail("isl_union_pw_qpolynomial_to_polynomial", "at " + str(q) + " " + str(y) + " for " + str(z) + "\n" + g.ctx + S(r)); } } break; }
	case 9: { // transformation by a relation: sum is not involved, only extraction by space
		for (auto &x : a.m) { PWQ p = R_(isl_union_pw_qpolynomial_extract_pw_qpolynomial(a.u.g(), isl_pw_qpolynomial_get_space(x.second.second.p.g()))); FPW f = fn_pw(c, p.g()); g.compare("isl_union_pw_qpolynomial_extract_pw_qpolynomial", f, x.second.first.np() + x.second.first.no(), [&](const Pt &q) { return ev(a, x.second.first, q); }, g.ctx + S(p), 100); } break; }
	default: chk("isl_union_pw_qpolynomial_coalesce", R_(isl_union_pw_qpolynomial_coalesce(a.u.c())), [&](const Sp &s, const Pt &p) { return ev(a, s, p); }, {&a}); break;
	}
}
void wrapped(G &g)
{
	Case &c = g.c; Sp s = gen_map_space(c, 1, 2, 2); Sp d = set_sp(s, wrap_tup(s.in, s.out)); g.dom = d; g.np = d.np(); g.ns = d.no();
	V a = g.operand(d, "a"); bool dm = c.t.chance(1, 2); Sp e = set_sp(s, dm ? s.in : s.out); Set x = g.some_set(e); MMap m = extract(c, x.g()); int ni = s.in.dim();
	g.ok(dm ? "isl_pw_qpolynomial_intersect_domain_wrapped_domain" : "isl_pw_qpolynomial_intersect_domain_wrapped_range", dm ? isl_pw_qpolynomial_intersect_domain_wrapped_domain(a.p.c(), x.c()) : isl_pw_qpolynomial_intersect_domain_wrapped_range(a.p.c(), x.c()), d, [&](const Pt &p) { Pt q = sub(p, 0, g.np); q = cat(q, dm ? sub(p, g.np, ni) : sub(p, g.np + ni, g.ns - ni)); return m.has(q) ? a.f.eval(p) : PV(); }, S(x)); c.nontrivial = true;
}
void run(Case &c)
{
	G g(c); g.dom = gen_set_space(c, 2, 3, false); g.np = g.dom.np(); g.ns = g.dom.no();
	switch (c.t.weighted({9, 5, 2, 2, 2, 4, 1})) {
	case 0: { V a = g.operand(g.dom, "a"); c.nontrivial = a.f.p.size() >= 1 && S(a.p).size() > 20; int n = 1 + c.t.below(3); for (int i = 0; i < n && a.p; ++i) { switch (c.t.weighted({3, 3, 2})) { case 0: a = arith(g, a); break; case 1: a = domain_op(g, a); break; default: a = dims(g, a); break; } if (a.p && isl_pw_qpolynomial_n_piece(a.p.g()) > 12) break; } break; }
	case 1: poly(g); break;
	case 2: approx(g); break;
	case 3: extremum(g); break;
	case 4: lifted(g); break;
	case 5: unions(g); break;
	default: wrapped(g); break;
	}
	c.log << g.ctx;
}
} // namespace
namespace vp { Prop the_prop = {"C12", "random polynomials in quasi-affine expressions on random piecewise domains, then operation sequences; non-trivial: a polynomial of at least two terms or a piecewise one with constraints", run, 40000, 600000}; }
