// C09: piecewise quasi-affine expressions evaluate exactly through every operation.
#include "fn.h"
using namespace vp;

namespace {

struct V { PwAff p; FFun f; };   // object with its extracted meaning

mpz_class qfloor(const mpq_class &q) { return fdiv(q.get_num(), q.get_den()); }
FV fl(const FV &a) { return a.st == 1 ? fval(mpq_class(qfloor(a.v))) : a; }
FV ce(const FV &a) { return a.st == 1 ? fval(mpq_class(-qfloor(-a.v))) : a; }
typedef std::function<FV(const Pt &)> F1;
FV lift2(const FV &a, const FV &b, const std::function<mpq_class(const mpq_class &, const mpq_class &)> &f)
{
	if (a.st == 0 || b.st == 0) return FV();
	if (a.st == 2 || b.st == 2) return fnan();
	return fval(f(a.v, b.v));
}
FV lift1(const FV &a, const std::function<mpq_class(const mpq_class &)> &f) { return a.st == 1 ? fval(f(a.v)) : a; }

struct G {
	Case &c;
	Sp dom;                      // domain space (set)
	int np, ns;
	std::string log;
	bool nan_used = false;
	G(Case &cc) : c(cc) {}
	std::string how(const std::string &op, std::vector<const V *> in, const std::string &res, const std::string &extra = "")
	{
		std::string s;
		char n = 'a';
		for (auto v : in) { s += n++; s += " = " + S(v->p) + "\n"; }
		return s + op + " " + extra + "\nresult: " + res;
	}
	V mk(PwAff p) { V v; v.p = p; v.f = fn(c, p.g()); return v; }
	V operand(bool rat = true)
	{
		PwAff p;
		int k = c.t.weighted({8, 2, 1, 1});
		Space d(mk_space(c, dom));
		if (k == 0) p = gen_pwaff(c, dom, c.t.chance(1, 3), rat && c.t.chance(1, 4));
		else if (k == 1) {
			QE e = gen_qe(c, np + ns, 2, true);
			p = R(c, e.build(c, d.g()), "build");
			V v = mk(p);
			check_fn(c, "expression", v.f, np, ns, 1, [&](const Pt &x) { return std::vector<FV>{fval(e.eval(x))}; }, "expression " + e.text(var_names(dom)) + "\nresult: " + S(p), 150);
			return v;
		} else if (k == 2) p = R(c, isl_pw_aff_empty(isl_space_add_dims(isl_space_from_domain(d.c()), isl_dim_out, 1)), "isl_pw_aff_empty");
		else {
			// partially NaN
			GenOpt o; o.max_basic = 2;
			Set s = gen_set(c, dom, o, false);
			V b = mk(gen_pwaff(c, dom, false, false));
			PwAff n = R(c, isl_pw_aff_nan_on_domain(isl_local_space_from_space(d.c())), "isl_pw_aff_nan_on_domain");
			n = R(c, isl_pw_aff_intersect_domain(n.r(), isl_set_subtract(s.r(), isl_pw_aff_domain(b.p.c()))), "isl_pw_aff_intersect_domain");
			p = R(c, isl_pw_aff_union_add(b.p.r(), n.r()), "isl_pw_aff_union_add");
			nan_used = true;
		}
		return mk(p);
	}
	V constant(bool nonzero, bool pos)
	{
		// piecewise constant
		Space d(mk_space(c, dom));
		GenOpt o; o.max_basic = 2;
		auto cst = [&] { int v = c.t.range(1, 5); if (!pos && c.t.chance(1, 2)) v = -v; if (!nonzero && c.t.chance(1, 6)) v = 0; mpq_class q(v); if (c.t.chance(1, 4)) q = mpq_class(v, 2 + (int)c.t.below(3)); q.canonicalize(); return q; };
		auto pa = [&](const mpq_class &q) { return isl_pw_aff_from_aff(isl_aff_val_on_domain(isl_local_space_from_space(d.c()), mkrat(c.ctx, q))); };
		PwAff a = R(c, pa(cst()), "isl_aff_val_on_domain");
		if (c.t.chance(1, 3)) {
			Set s = gen_set(c, dom, o, false);
			PwAff b = R(c, isl_pw_aff_val_on_domain(s.c(), mkrat(c.ctx, cst())), "isl_pw_aff_val_on_domain");
			a = R(c, isl_pw_aff_subtract_domain(a.r(), s.r()), "isl_pw_aff_subtract_domain");
			a = R(c, isl_pw_aff_union_add(a.r(), b.r()), "isl_pw_aff_union_add");
		}
		return mk(a);
	}
	V ok(const char *op, PwAff res, std::vector<const V *> in, const F1 &want, const std::string &extra = "", int nns = -1, int nnp = -1)
	{
		V r = mk(R(c, res.r(), op));
		if (nns < 0) nns = ns;
		if (nnp < 0) nnp = np;
		check_fn(c, op, r.f, nnp, nns, 1, [&](const Pt &p) { return std::vector<FV>{want(p)}; }, how(op, in, S(r.p), extra), 300);
		return r;
	}
	void set_ok(const char *op, Set s, std::vector<const V *> in, const Pred &want, const std::string &extra = "")
	{
		s = R(c, s.r(), op);
		MMap m = extract(c, s.g());
		same_on(c, make_window(np + ns, 300), op, [&](const Pt &p) { return m.has(p); }, want, [&] { return how(op, in, S(s), extra); });
		c.label(op);
	}
	Set some_set() { GenOpt o; o.max_basic = 2; return gen_set(c, dom, o, c.t.chance(1, 3)); }
};

FV ev(const V &v, const Pt &p) { return v.f.eval(p)[0]; }

// binary operation on common domains / unions
V binary(G &g, const V &a)
{
	Case &c = g.c;
	V b = c.t.chance(1, 4) ? a : g.operand();
	auto E = [&](const Pt &p) { return std::make_pair(ev(a, p), ev(b, p)); };
	auto uni = [&](const Pt &p, const std::function<mpq_class(const mpq_class &, const mpq_class &)> &f) {
		auto e = E(p);
		if (e.first.st == 0) return e.second;
		if (e.second.st == 0) return e.first;
		return lift2(e.first, e.second, f);
	};
	auto mx = [](const mpq_class &x, const mpq_class &y) { return x < y ? y : x; };
	auto mn = [](const mpq_class &x, const mpq_class &y) { return x < y ? x : y; };
	std::vector<const V *> in{&a, &b};
	bool nan = isl_pw_aff_involves_nan(a.p.g()) == isl_bool_true || isl_pw_aff_involves_nan(b.p.g()) == isl_bool_true;
	int op = c.t.below(nan ? 3 : 12);
	switch (op) {
	case 0: return g.ok("isl_pw_aff_add", isl_pw_aff_add(a.p.c(), b.p.c()), in, [&](const Pt &p) { auto e = E(p); return lift2(e.first, e.second, [](auto &x, auto &y) { return mpq_class(x + y); }); });
	case 1: return g.ok("isl_pw_aff_sub", isl_pw_aff_sub(a.p.c(), b.p.c()), in, [&](const Pt &p) { auto e = E(p); return lift2(e.first, e.second, [](auto &x, auto &y) { return mpq_class(x - y); }); });
	case 2: return g.ok("isl_pw_aff_union_add", isl_pw_aff_union_add(a.p.c(), b.p.c()), in, [&](const Pt &p) { return uni(p, [](auto &x, auto &y) { return mpq_class(x + y); }); });
	case 3: return g.ok("isl_pw_aff_min", isl_pw_aff_min(a.p.c(), b.p.c()), in, [&](const Pt &p) { auto e = E(p); return lift2(e.first, e.second, mn); });
	case 4: return g.ok("isl_pw_aff_max", isl_pw_aff_max(a.p.c(), b.p.c()), in, [&](const Pt &p) { auto e = E(p); return lift2(e.first, e.second, mx); });
	case 5: return g.ok("isl_pw_aff_union_min", isl_pw_aff_union_min(a.p.c(), b.p.c()), in, [&](const Pt &p) { return uni(p, mn); });
	case 6: return g.ok("isl_pw_aff_union_max", isl_pw_aff_union_max(a.p.c(), b.p.c()), in, [&](const Pt &p) { return uni(p, mx); });
	case 7: {
		V t = g.operand(), e = g.operand();
		std::vector<const V *> i3{&a, &t, &e};
		return g.ok("isl_pw_aff_cond", isl_pw_aff_cond(a.p.c(), t.p.c(), e.p.c()), i3, [&](const Pt &p) {
			FV x = ev(a, p); if (x.st != 1) return FV(); return x.v != 0 ? ev(t, p) : ev(e, p); }); }
	case 8: {
		V k = g.constant(false, false);
		std::vector<const V *> i2{&a, &k};
		bool sw = c.t.chance(1, 2);
		return g.ok("isl_pw_aff_mul", sw ? isl_pw_aff_mul(k.p.c(), a.p.c()) : isl_pw_aff_mul(a.p.c(), k.p.c()), i2, [&](const Pt &p) { return lift2(ev(a, p), ev(k, p), [](auto &x, auto &y) { return mpq_class(x * y); }); }); }
	case 9: {
		V k = g.constant(true, false);
		std::vector<const V *> i2{&a, &k};
		return g.ok("isl_pw_aff_div", isl_pw_aff_div(a.p.c(), k.p.c()), i2, [&](const Pt &p) { return lift2(ev(a, p), ev(k, p), [](auto &x, auto &y) { return mpq_class(x / y); }); }); }
	case 10: case 11: {
		V k = g.constant(true, false);
		std::vector<const V *> i2{&a, &k};
		auto tq = [](const mpq_class &x, const mpq_class &y) { mpq_class q = x / y; return q >= 0 ? mpq_class(qfloor(q)) : mpq_class(-qfloor(-q)); };
		if (op == 10) return g.ok("isl_pw_aff_tdiv_q", isl_pw_aff_tdiv_q(a.p.c(), k.p.c()), i2, [&](const Pt &p) { return lift2(ev(a, p), ev(k, p), tq); });
		return g.ok("isl_pw_aff_tdiv_r", isl_pw_aff_tdiv_r(a.p.c(), k.p.c()), i2, [&](const Pt &p) { return lift2(ev(a, p), ev(k, p), [&](auto &x, auto &y) { return mpq_class(x - y * tq(x, y)); }); }); }
	}
	return a;
}

V unary(G &g, const V &a)
{
	Case &c = g.c;
	std::vector<const V *> in{&a};
	auto rat = [&] { mpq_class q(c.t.range(-5, 5), c.t.chance(1, 3) ? 1 + (int)c.t.below(4) : 1); q.canonicalize(); return q; };
	switch (c.t.below(17)) {
	case 0: { mpq_class q = rat(); return g.ok("isl_pw_aff_scale_val", isl_pw_aff_scale_val(a.p.c(), mkrat(c.ctx, q)), in, [&](const Pt &p) { return lift1(ev(a, p), [&](auto &x) { return mpq_class(x * q); }); }, q.get_str()); }
	case 1: { mpq_class q = abs(rat()); if (q == 0) q = 3; return g.ok("isl_pw_aff_scale_down_val", isl_pw_aff_scale_down_val(a.p.c(), mkrat(c.ctx, q)), in, [&](const Pt &p) { return lift1(ev(a, p), [&](auto &x) { return mpq_class(x / q); }); }, q.get_str()); }
	case 2: return g.ok("isl_pw_aff_floor", isl_pw_aff_floor(a.p.c()), in, [&](const Pt &p) { return fl(ev(a, p)); });
	case 3: return g.ok("isl_pw_aff_ceil", isl_pw_aff_ceil(a.p.c()), in, [&](const Pt &p) { return ce(ev(a, p)); });
	case 4: return g.ok("isl_pw_aff_neg", isl_pw_aff_neg(a.p.c()), in, [&](const Pt &p) { return lift1(ev(a, p), [](auto &x) { return mpq_class(-x); }); });
	case 5: { mpq_class q = rat(); return g.ok("isl_pw_aff_add_constant_val", isl_pw_aff_add_constant_val(a.p.c(), mkrat(c.ctx, q)), in, [&](const Pt &p) { return lift1(ev(a, p), [&](auto &x) { return mpq_class(x + q); }); }, q.get_str()); }
	case 6: { int m = 2 + c.t.below(6); return g.ok("isl_pw_aff_mod_val", isl_pw_aff_mod_val(a.p.c(), mkval(c.ctx, Z(m))), in, [&](const Pt &p) { return lift1(ev(a, p), [&](auto &x) { return mpq_class(x - m * mpq_class(qfloor(x / m))); }); }, std::to_string(m)); }
	case 7: { int m = 2 + c.t.below(4); return g.ok("isl_pw_aff_floor_scale", isl_pw_aff_floor(isl_pw_aff_scale_down_val(a.p.c(), mkval(c.ctx, m))), in, [&](const Pt &p) { return lift1(ev(a, p), [&](auto &x) { return mpq_class(qfloor(x / m)); }); }, std::to_string(m)); }
	case 8: { Set s = g.some_set(); MMap m = extract(c, s.g()); return g.ok("isl_pw_aff_intersect_domain", isl_pw_aff_intersect_domain(a.p.c(), s.c()), in, [&](const Pt &p) { return m.has(p) ? ev(a, p) : FV(); }, S(s)); }
	case 9: { Set s = g.some_set(); MMap m = extract(c, s.g()); return g.ok("isl_pw_aff_subtract_domain", isl_pw_aff_subtract_domain(a.p.c(), s.c()), in, [&](const Pt &p) { return m.has(p) ? FV() : ev(a, p); }, S(s)); }
	case 10: { // gist: equal on the context
		Set s = g.some_set(); MMap m = extract(c, s.g());
		V r = g.mk(R(c, isl_pw_aff_gist(a.p.c(), s.c()), "isl_pw_aff_gist"));
		Window w = make_window(g.np + g.ns, 300);
		for (auto &p : w.pts) if (m.has(p) && ev(r, p) != ev(a, p)) c.fail("isl_pw_aff_gist", "at " + str(p) + " inside the context: " + str(ev(r, p)) + " instead of " + str(ev(a, p)) + "\n" + g.how("gist", in, S(r.p), S(s)));
		c.label("isl_pw_aff_gist");
		// pieces may overlap outside of the context
		return g.mk(R(c, isl_pw_aff_intersect_domain(r.p.r(), s.r()), "isl_pw_aff_intersect_domain")); }
	case 11: return g.ok("isl_pw_aff_coalesce", isl_pw_aff_coalesce(a.p.c()), in, [&](const Pt &p) { return ev(a, p); });
	case 12: { Sp ps; ps.params = g.dom.params; GenOpt o; o.max_basic = 2;
		Sp z = ps; z.out = mk_tup("", 0);
		Set s0 = gen_set(c, z, o, false);
		Set s = R(c, isl_set_params(s0.c()), "isl_set_params");
		MMap m = extract(c, s0.g());
		bool gist = c.t.chance(1, 3);
		if (gist) {
			V r = g.mk(R(c, isl_pw_aff_gist_params(a.p.c(), s.c()), "isl_pw_aff_gist_params"));
			for (auto &p : make_window(g.np + g.ns, 300).pts) if (m.has(sub(p, 0, g.np)) && ev(r, p) != ev(a, p)) c.fail("isl_pw_aff_gist_params", "at " + str(p) + " inside the context: " + str(ev(r, p)) + " instead of " + str(ev(a, p)) + "\n" + g.how("gist_params", in, S(r.p), S(s)));
			c.label("isl_pw_aff_gist_params");
			return g.mk(R(c, isl_pw_aff_intersect_params(r.p.r(), s.r()), "isl_pw_aff_intersect_params"));
		}
		return g.ok("isl_pw_aff_intersect_params", isl_pw_aff_intersect_params(a.p.c(), s.c()), in, [&](const Pt &p) { return m.has(sub(p, 0, g.np)) ? ev(a, p) : FV(); }, S(s)); }
	case 13: { // pullback by a (piecewise) multi-affine function from another space
		Sp d2 = g.dom; d2.out = mk_tup("", c.t.below(3));
		Sp ms = map_sp(g.dom, d2.out, g.dom.out);
		int how = c.t.below(3);
		FFun h; PwAff r; std::string t; const char *op;
		if (how == 0) { MAff m = gen_maff(c, ms); h = fn(c, m.g()); t = S(m); op = "isl_pw_aff_pullback_multi_aff"; r = R(c, isl_pw_aff_pullback_multi_aff(a.p.c(), m.r()), op); }
		else if (how == 1) { PMA m = gen_pma(c, ms); h = fn(c, m.g()); t = S(m); op = "isl_pw_aff_pullback_pw_multi_aff"; r = R(c, isl_pw_aff_pullback_pw_multi_aff(a.p.c(), m.r()), op); }
		else { MPA m = gen_mpa(c, ms); h = fn(c, m.g()); t = S(m); op = "isl_pw_aff_pullback_multi_pw_aff"; r = R(c, isl_pw_aff_pullback_multi_pw_aff(a.p.c(), m.r()), op);
			// components not used by "a" need not be defined: restrict to points where all are
			bool part = false;
			for (auto &p : make_window(g.np + d2.no(), 200).pts) { auto v = h.eval(p); for (auto &x : v) if (x.st != 1) part = true; }
			if (part) return a;
		}
		g.ok(op, r, in, [&](const Pt &p) {
			if (g.ns == 0) { if (!h.def(p)) return FV(); }
			auto v = h.eval(p);
			Pt q = sub(p, 0, g.np);
			for (int i = 0; i < g.ns; ++i) { if (v[i].st != 1) return FV(); if (v[i].v.get_den() != 1) return FV(); q.push_back(v[i].v.get_num().get_si()); }
			return ev(a, q); }, t, d2.no());
		return a; }
	case 14: { // dimension surgery on the (unnamed) domain
		if (!g.dom.out.name.empty() || !g.dom.out.sub.empty()) return a;
		int k = c.t.below(3);
		if (k == 0) {
			int pos = c.t.below(g.ns + 1), n = 1 + c.t.below(2);
			g.ok("isl_pw_aff_insert_dims", isl_pw_aff_insert_dims(a.p.c(), isl_dim_in, pos, n), in, [&](const Pt &p) { Pt q = sub(p, 0, g.np + pos); Pt z = sub(p, g.np + pos + n, g.ns - pos); return ev(a, cat(q, z)); }, ints({pos, n}), g.ns + n);
		} else if (k == 1 && g.ns) {
			int pos = c.t.below(g.ns), n = 1 + c.t.below(g.ns - pos);
			if (isl_pw_aff_involves_dims(a.p.g(), isl_dim_in, pos, n) == isl_bool_false)
				g.ok("isl_pw_aff_drop_dims", isl_pw_aff_drop_dims(a.p.c(), isl_dim_in, pos, n), in, [&](const Pt &p) { Pt q = sub(p, 0, g.np + pos); q.insert(q.end(), n, 7); Pt z = sub(p, g.np + pos, g.ns - pos - n); return ev(a, cat(q, z)); }, ints({pos, n}), g.ns - n);
		} else if (k == 2 && g.ns) {
			int pos = c.t.below(g.ns), n = 1 + c.t.below(g.ns - pos), dst = c.t.below(g.np + 1);
			g.ok("isl_pw_aff_move_dims", isl_pw_aff_move_dims(a.p.c(), isl_dim_param, dst, isl_dim_in, pos, n), in, [&](const Pt &p) {
				Pt q = sub(p, 0, dst); Pt z = sub(p, dst + n, g.np - dst); q = cat(q, z);
				q = cat(q, sub(p, g.np + n, pos)); q = cat(q, sub(p, dst, n)); q = cat(q, sub(p, g.np + n + pos, g.ns - n - pos)); return ev(a, q); }, ints({dst, pos, n}), g.ns - n, g.np + n);
		}
		return a; }
	case 15: { // project domain on parameters when not involved
		if (isl_pw_aff_involves_dims(a.p.g(), isl_dim_in, 0, g.ns) == isl_bool_false) {
			PwAff r = R(c, isl_pw_aff_project_domain_on_params(a.p.c()), "isl_pw_aff_project_domain_on_params");
			g.ok("isl_pw_aff_project_domain_on_params", r, in, [&](const Pt &p) { Pt q = p; q.insert(q.end(), g.ns, -5); return ev(a, q); }, "", 0);
		} else {
			// insert a domain below a parametric expression
			PwAff b = R(c, isl_pw_aff_pullback_multi_aff(a.p.c(), isl_multi_aff_multi_val_on_domain_space(isl_space_params(isl_pw_aff_get_domain_space(a.p.g())), isl_multi_val_zero(isl_pw_aff_get_domain_space(a.p.g())))), "pullback to params");
			V v = g.mk(b);
			std::vector<const V *> i1{&v};
			g.ok("isl_pw_aff_insert_domain", isl_pw_aff_insert_domain(b.c(), mk_space(c, g.dom)), i1, [&](const Pt &p) { return ev(v, sub(p, 0, g.np)); });
		}
		return a; }
	case 16: { // isl_pw_aff_as_aff and back
		if (B(c, isl_pw_aff_isa_aff(a.p.g()), "isl_pw_aff_isa_aff")) {
			Aff f = R(c, isl_pw_aff_as_aff(a.p.c()), "isl_pw_aff_as_aff");
			return g.ok("isl_pw_aff_as_aff", isl_pw_aff_from_aff(f.r()), in, [&](const Pt &p) { return ev(a, p); });
		}
		return a; }
	}
	return a;
}

void queries(G &g, const V &a)
{
	Case &c = g.c;
	std::vector<const V *> in{&a};
	Window w = make_window(g.np + g.ns, 200);
	bool nan = isl_pw_aff_involves_nan(a.p.g()) == isl_bool_true;
	auto cmp = [&](int rel, const mpq_class &x, const mpq_class &y) { switch (rel) { case 0: return x == y; case 1: return x != y; case 2: return x < y; case 3: return x <= y; case 4: return x > y; default: return x >= y; } };
	switch (c.t.below(11)) {
	case 0: { int k = c.t.below(4);
		const char *nm[] = {"isl_pw_aff_pos_set", "isl_pw_aff_nonneg_set", "isl_pw_aff_zero_set", "isl_pw_aff_non_zero_set"};
		Set s = k == 0 ? isl_pw_aff_pos_set(a.p.c()) : k == 1 ? isl_pw_aff_nonneg_set(a.p.c()) : k == 2 ? isl_pw_aff_zero_set(a.p.c()) : isl_pw_aff_non_zero_set(a.p.c());
		g.set_ok(nm[k], s, in, [&](const Pt &p) { FV v = ev(a, p); return v.st == 1 && (k == 0 ? v.v > 0 : k == 1 ? v.v >= 0 : k == 2 ? v.v == 0 : v.v != 0); });
		break; }
	case 1: case 2: {
		V b = g.operand();
		int rel = c.t.below(6);
		typedef isl_set *(*SF)(isl_pw_aff *, isl_pw_aff *);
		SF f[] = {isl_pw_aff_eq_set, isl_pw_aff_ne_set, isl_pw_aff_lt_set, isl_pw_aff_le_set, isl_pw_aff_gt_set, isl_pw_aff_ge_set};
		const char *nm[] = {"isl_pw_aff_eq_set", "isl_pw_aff_ne_set", "isl_pw_aff_lt_set", "isl_pw_aff_le_set", "isl_pw_aff_gt_set", "isl_pw_aff_ge_set"};
		std::vector<const V *> i2{&a, &b};
		g.set_ok(nm[rel], f[rel](a.p.c(), b.p.c()), i2, [&](const Pt &p) { FV x = ev(a, p), y = ev(b, p); return x.st == 1 && y.st == 1 && cmp(rel, x.v, y.v); });
		break; }
	case 3: { // relation between elements with related function values
		V b = g.operand();
		int rel = c.t.weighted({1, 0, 1, 1, 1, 1});
		Map m;
		const char *nm[] = {"isl_pw_aff_eq_map", "", "isl_pw_aff_lt_map", "isl_pw_aff_le_map", "isl_pw_aff_gt_map", "isl_pw_aff_ge_map"};
		switch (rel) { case 0: m = isl_pw_aff_eq_map(a.p.c(), b.p.c()); break; case 2: m = isl_pw_aff_lt_map(a.p.c(), b.p.c()); break; case 3: m = isl_pw_aff_le_map(a.p.c(), b.p.c()); break;
			case 4: m = isl_pw_aff_gt_map(a.p.c(), b.p.c()); break; default: m = isl_pw_aff_ge_map(a.p.c(), b.p.c()); }
		m = R(c, m.r(), nm[rel]);
		MMap mm = extract(c, m.g());
		std::vector<const V *> i2{&a, &b};
		same_on(c, make_window(g.np + 2 * g.ns, 500), nm[rel], [&](const Pt &p) { return mm.has(p); }, [&](const Pt &p) {
			FV x = ev(a, sub(p, 0, g.np + g.ns)), y = ev(b, cat(sub(p, 0, g.np), sub(p, g.np + g.ns, g.ns))); return x.st == 1 && y.st == 1 && cmp(rel, x.v, y.v); }, [&] { return g.how(nm[rel], i2, S(m)); });
		c.label(nm[rel]);
		break; }
	case 4: { // lists
		int n1 = 1 + c.t.below(3), n2 = 1 + c.t.below(2);
		std::vector<V> l1{a}, l2;
		while ((int)l1.size() < n1) l1.push_back(g.operand());
		for (int i = 0; i < n2; ++i) l2.push_back(g.operand());
		auto lst = [&](std::vector<V> &l) { isl_pw_aff_list *r = isl_pw_aff_list_alloc(c.ctx, 0); for (auto &v : l) r = isl_pw_aff_list_add(r, v.p.c()); return r; };
		std::vector<const V *> all; for (auto &v : l1) all.push_back(&v);
		int k = c.t.below(3);
		if (k < 2) {
			for (auto v : all) if (isl_pw_aff_involves_nan(v->p.g()) == isl_bool_true) return;
			g.ok(k ? "isl_pw_aff_list_max" : "isl_pw_aff_list_min", k ? isl_pw_aff_list_max(lst(l1)) : isl_pw_aff_list_min(lst(l1)), all, [&](const Pt &p) {
				FV r; bool first = true;
				for (auto &v : l1) { FV x = ev(v, p); if (x.st == 0) return FV(); if (first) r = x; else r = lift2(r, x, [&](auto &s, auto &t) { return (k ? s < t : t < s) ? t : s; }); first = false; }
				return r; });
		} else {
			for (auto &v : l2) all.push_back(&v);
			int rel = c.t.below(6);
			typedef isl_set *(*SF)(isl_pw_aff_list *, isl_pw_aff_list *);
			SF f[] = {isl_pw_aff_list_eq_set, isl_pw_aff_list_ne_set, isl_pw_aff_list_lt_set, isl_pw_aff_list_le_set, isl_pw_aff_list_gt_set, isl_pw_aff_list_ge_set};
			const char *nm[] = {"isl_pw_aff_list_eq_set", "isl_pw_aff_list_ne_set", "isl_pw_aff_list_lt_set", "isl_pw_aff_list_le_set", "isl_pw_aff_list_gt_set", "isl_pw_aff_list_ge_set"};
			g.set_ok(nm[rel], f[rel](lst(l1), lst(l2)), all, [&](const Pt &p) {
				for (auto &x : l1) for (auto &y : l2) { FV s = ev(x, p), t = ev(y, p); if (s.st != 1 || t.st != 1 || !cmp(rel, s.v, t.v)) return false; }
				return true; });
		}
		break; }
	case 5: { // evaluation at points
		for (int k = 0; k < 4; ++k) {
			Pt p = w.pts[c.t.below(w.pts.size())];
			isl_point *pt = isl_point_zero(mk_space(c, g.dom));
			for (int i = 0; i < g.np; ++i) pt = isl_point_set_coordinate_val(pt, isl_dim_param, i, mkval(c.ctx, Z(p[i])));
			for (int i = 0; i < g.ns; ++i) pt = isl_point_set_coordinate_val(pt, isl_dim_set, i, mkval(c.ctx, Z(p[g.np + i])));
			Val v = R(c, isl_pw_aff_eval(a.p.c(), pt), "isl_pw_aff_eval");
			FV want = ev(a, p);
			bool ok = want.st == 1 ? (isl_val_is_rat(v.g()) == isl_bool_true && mpq_class(val_num(v.g()), val_den(v.g())) == want.v) : isl_val_is_nan(v.g()) == isl_bool_true;
			if (!ok) c.fail("isl_pw_aff_eval", "at " + str(p) + " evaluates to " + S(v) + " instead of " + str(want) + "\n" + S(a.p));
		}
		c.label("isl_pw_aff_eval");
		break; }
	case 6: { // domain, params, as_map, from_range
		g.set_ok("isl_pw_aff_domain", isl_pw_aff_domain(a.p.c()), in, [&](const Pt &p) { return ev(a, p).st != 0; });
		if (!nan) {
			Map m = R(c, isl_pw_aff_as_map(a.p.c()), "isl_pw_aff_as_map");
			MMap mm = extract(c, m.g());
			for (auto &p : w.pts) {
				FV v = ev(a, p);
				bool integral = v.st == 1 && v.v.get_den() == 1;
				int64_t y = v.st == 1 ? qfloor(v.v).get_si() : 0;
				for (int d = -1; d <= 1; ++d) { Pt q = p; q.push_back(y + d); bool want = integral && d == 0; if (mm.has(q) != want) c.fail("isl_pw_aff_as_map", std::string("at ") + str(q) + (want ? " misses" : " contains") + "\n" + g.how("as_map", in, S(m))); }
			}
			c.label("isl_pw_aff_as_map");
		}
		break; }
	case 7: { // equality
		V b = c.t.chance(1, 2) ? a : g.operand();
		if (c.t.chance(1, 2)) b = g.mk(R(c, isl_pw_aff_coalesce(b.p.c()), "isl_pw_aff_coalesce"));
		else { // another representation of the same function
			Set s = g.some_set();
			PwAff x = R(c, isl_pw_aff_intersect_domain(b.p.c(), s.c()), "i"), y = R(c, isl_pw_aff_subtract_domain(b.p.c(), s.r()), "s");
			b = g.mk(R(c, isl_pw_aff_union_add(x.r(), y.r()), "u"));
		}
		bool eq = B(c, isl_pw_aff_is_equal(a.p.g(), b.p.g()), "isl_pw_aff_is_equal");
		bool pe = B(c, isl_pw_aff_plain_is_equal(a.p.g(), b.p.g()), "isl_pw_aff_plain_is_equal");
		std::vector<const V *> i2{&a, &b};
		if (pe && !eq && !nan) c.fail("isl_pw_aff_plain_is_equal", "obviously equal but not equal\n" + g.how("is_equal", i2, ""));
		bool has_nan = false, diff = false;
		for (auto &p : w.pts) { FV x = ev(a, p), y = ev(b, p); if (x.st == 2 || y.st == 2) has_nan = true; if (x != y) diff = true;
			// is_equal compares the graphs, which hold integer values only
			auto gr = [](const FV &v) { return v.st == 1 && v.v.get_den() != 1 ? FV() : v; };
			if ((eq || pe) && (pe ? x != y : gr(x) != gr(y))) c.fail("isl_pw_aff_is_equal", "reported equal but differ at " + str(p) + "\n" + g.how("is_equal", i2, "")); }
		if (!eq && !diff && !has_nan && !nan && isl_pw_aff_involves_nan(b.p.g()) == isl_bool_false) {
			// complete check through the difference in the model is not available: check through sets
			Map ma = R(c, isl_pw_aff_as_map(isl_pw_aff_scale_val(a.p.c(), mkval(c.ctx, 720720))), "m"), mb = R(c, isl_pw_aff_as_map(isl_pw_aff_scale_val(b.p.c(), mkval(c.ctx, 720720))), "m");
			if (B(c, isl_map_is_equal(ma.g(), mb.g()), "isl_map_is_equal") && isl_pw_aff_involves_nan(b.p.g()) != isl_bool_true) c.fail("isl_pw_aff_is_equal", "reported different but the graphs are equal\n" + g.how("is_equal", i2, ""));
		}
		c.label(eq ? "is_equal" : "not_equal");
		break; }
	case 8: { // involvement
		if (!g.ns && !g.np) break;
		int v = c.t.below(g.np + g.ns);
		bool inv = B(c, isl_pw_aff_involves_dims(a.p.g(), v < g.np ? isl_dim_param : isl_dim_in, v < g.np ? v : v - g.np, 1), "isl_pw_aff_involves_dims");
		if (!inv) for (auto &p : w.pts) { Pt q = p; q[v] += 1 + c.t.below(5); if (ev(a, p) != ev(a, q)) c.fail("isl_pw_aff_involves_dims", "claims not to involve variable " + std::to_string(v) + " but values differ at " + str(p) + "\n" + S(a.p)); }
		if (B(c, isl_pw_aff_is_cst(a.p.g()), "isl_pw_aff_is_cst")) {
			for (auto &q : a.f.comp[0].p) { const Pt *f = nullptr; for (auto &p : w.pts) if (q.dom.has(p)) { if (!f) f = &p; if (q.a[0].eval(p) != q.a[0].eval(*f)) c.fail("isl_pw_aff_is_cst", "claims to be piecewise constant\n" + S(a.p)); } }
		}
		if (B(c, isl_pw_aff_is_empty(a.p.g()), "isl_pw_aff_is_empty")) for (auto &p : w.pts) if (ev(a, p).st) c.fail("isl_pw_aff_is_empty", "claims to be empty\n" + S(a.p));
		bool any_nan = false;
		for (auto &p : w.pts) if (ev(a, p).st == 2) any_nan = true;
		if (any_nan && !nan) c.fail("isl_pw_aff_involves_nan", "does not see the NaN\n" + S(a.p));
		c.label("queries");
		break; }
	case 9: { // variables and values on a domain
		Set s = g.some_set(); MMap m = extract(c, s.g());
		if (g.np + g.ns) {
			int v = c.t.below(g.np + g.ns);
			g.ok("isl_pw_aff_var_on_domain", isl_pw_aff_var_on_domain(isl_local_space_from_space(mk_space(c, g.dom)), v < g.np ? isl_dim_param : isl_dim_set, v < g.np ? v : v - g.np), {}, [&](const Pt &p) { return fval(mpq_class((long)p[v])); });
		}
		mpq_class q(c.t.range(-9, 9), 1 + (int)c.t.below(3)); q.canonicalize();
		g.ok("isl_pw_aff_val_on_domain", isl_pw_aff_val_on_domain(s.c(), mkrat(c.ctx, q)), {}, [&](const Pt &p) { return m.has(p) ? fval(q) : FV(); }, S(s));
		g.ok("isl_set_indicator_function", isl_set_indicator_function(s.c()), {}, [&](const Pt &p) { return fval(m.has(p) ? 1 : 0); }, S(s));
		break; }
	case 10: { // binding the domain / value to parameters
		if (g.ns != 1 && g.ns != 2) break;
		isl_multi_id *mi = nullptr;
		{
			isl_space *sp = mk_space(c, g.dom);
			isl_id_list *l = isl_id_list_alloc(c.ctx, g.ns);
			for (int i = 0; i < g.ns; ++i) l = isl_id_list_add(l, isl_id_alloc(c.ctx, i ? "bb" : "aa", nullptr));
			mi = isl_multi_id_from_id_list(sp, l);
		}
		PwAff r = R(c, isl_pw_aff_bind_domain(a.p.c(), mi), "isl_pw_aff_bind_domain");
		// result: a parametric function; bound dimensions become parameters at the end
		FFun f = fn(c, r.g());
		if (f.np != g.np + g.ns || f.nin != 0) c.fail("isl_pw_aff_bind_domain", "wrong dimensions\n" + g.how("bind_domain", in, S(r)));
		for (auto &p : w.pts) if (f.eval(p)[0] != ev(a, p)) c.fail("isl_pw_aff_bind_domain", "at " + str(p) + ": " + str(f.eval(p)[0]) + " instead of " + str(ev(a, p)) + "\n" + g.how("bind_domain", in, S(r)));
		c.label("isl_pw_aff_bind_domain");
		if (!nan) {
			Set b = R(c, isl_pw_aff_bind_id(r.c(), isl_id_alloc(c.ctx, "vv", nullptr)), "isl_pw_aff_bind_id");
			MMap m = extract(c, b.g());
			if (m.np == g.np + g.ns && m.d.empty()) break;   // empty, parameter not introduced
			if (m.np != g.np + g.ns + 1) { c.fail("isl_pw_aff_bind_id", "wrong dimensions\n" + g.how("bind_id", in, S(b))); }
			for (auto &p : w.pts) { FV v = ev(a, p); Pt q = p; q.push_back(v.st == 1 ? qfloor(v.v).get_si() : 0); bool want = v.st == 1 && v.v.get_den() == 1; if (m.has(q) != want) c.fail("isl_pw_aff_bind_id", "at " + str(q) + (want ? " misses" : " contains") + "\n" + g.how("bind_id", in, S(b))); q.back()++; if (want && m.has(q)) c.fail("isl_pw_aff_bind_id", "at " + str(q) + " contains\n" + g.how("bind_id", in, S(b))); }
			c.label("isl_pw_aff_bind_id");
		}
		break; }
	}
}

// single affine expressions
void affs(G &g)
{
	Case &c = g.c;
	Space d(mk_space(c, g.dom));
	auto mkaff = [&](QE &e) { Aff a = R(c, e.build_aff(c, d.g()), "build_aff"); return a; };
	QE e1 = gen_qe(c, g.np + g.ns, 2), e2 = gen_qe(c, g.np + g.ns, 2);
	if (c.t.chance(1, 4)) { QE q; q.k = QE::DIVC; q.c = 2 + (int)c.t.below(3); q.ch.push_back(e1); e1 = q; }
	Aff a = mkaff(e1), b = mkaff(e2);
	std::string t = "a = " + S(a) + "\nb = " + S(b) + "\n";
	Window w = make_window(g.np + g.ns, 200);
	auto chk = [&](const char *op, isl_aff *r0, const std::function<mpq_class(const Pt &)> &want, const std::string &x = "") {
		Aff r = R(c, r0, op);
		FAff f = fn_aff(c, r.g());
		for (auto &p : w.pts) { FV v = f.eval(p); if (v != fval(want(p))) c.fail(op, "at " + str(p) + ": " + str(v) + " instead of " + want(p).get_str() + "\n" + t + x + "\nresult: " + S(r)); }
		c.label(op); c.nontrivial = true;
	};
	auto chks = [&](const char *op, Set s0, const std::function<bool(const mpq_class &, const mpq_class &)> &want) {
		Set s = R(c, s0.r(), op); MMap m = extract(c, s.g());
		for (auto &p : w.pts) { bool x = want(e1.eval(p), e2.eval(p)); if (m.has(p) != x) c.fail(op, "at " + str(p) + (x ? " misses\n" : " contains\n") + t + "result: " + S(s)); }
		c.label(op);
	};
	auto bs = [&](isl_basic_set *x) { return Set(isl_set_from_basic_set(x)); };
	mpq_class q(c.t.range(-5, 5), 1 + (int)c.t.below(3)); q.canonicalize(); if (q == 0) q = 2;
	int m = 2 + c.t.below(5);
	switch (c.t.below(27)) {
	case 0: chk("isl_aff_add", isl_aff_add(a.c(), b.c()), [&](const Pt &p) { return mpq_class(e1.eval(p) + e2.eval(p)); }); break;
	case 1: chk("isl_aff_sub", isl_aff_sub(a.c(), b.c()), [&](const Pt &p) { return mpq_class(e1.eval(p) - e2.eval(p)); }); break;
	case 2: chk("isl_aff_neg", isl_aff_neg(a.c()), [&](const Pt &p) { return mpq_class(-e1.eval(p)); }); break;
	case 3: chk("isl_aff_floor", isl_aff_floor(isl_aff_scale_val(a.c(), mkrat(c.ctx, q))), [&](const Pt &p) { return mpq_class(qfloor(e1.eval(p) * q)); }, q.get_str()); break;
	case 4: chk("isl_aff_ceil", isl_aff_ceil(isl_aff_scale_down_val(a.c(), mkrat(c.ctx, abs(q)))), [&](const Pt &p) { return mpq_class(-qfloor(-e1.eval(p) / abs(q))); }, q.get_str()); break;
	case 5: chk("isl_aff_mod_val", isl_aff_mod_val(a.c(), mkval(c.ctx, m)), [&](const Pt &p) { mpq_class x = e1.eval(p); return mpq_class(x - m * mpq_class(qfloor(x / m))); }, std::to_string(m)); break;
	case 6: chk("isl_aff_mul", isl_aff_mul(a.c(), isl_aff_val_on_domain_space(d.c(), mkrat(c.ctx, q))), [&](const Pt &p) { return mpq_class(e1.eval(p) * q); }, q.get_str()); break;
	case 7: chk("isl_aff_div", isl_aff_div(a.c(), isl_aff_val_on_domain_space(d.c(), mkrat(c.ctx, q))), [&](const Pt &p) { return mpq_class(e1.eval(p) / q); }, q.get_str()); break;
	case 8: chk("isl_aff_add_constant_val", isl_aff_add_constant_val(a.c(), mkrat(c.ctx, q)), [&](const Pt &p) { return mpq_class(e1.eval(p) + q); }, q.get_str()); break;
	case 9: if (g.np + g.ns) { int v = c.t.below(g.np + g.ns); chk("isl_aff_add_coefficient_val", isl_aff_add_coefficient_val(a.c(), v < g.np ? isl_dim_param : isl_dim_in, v < g.np ? v : v - g.np, mkrat(c.ctx, q)), [&](const Pt &p) { return mpq_class(e1.eval(p) + q * (long)p[v]); }, q.get_str()); } break;
	case 10: chks("isl_aff_eq_basic_set", bs(isl_aff_eq_basic_set(a.c(), b.c())), [](auto &x, auto &y) { return x == y; }); break;
	case 11: chks("isl_aff_le_basic_set", bs(isl_aff_le_basic_set(a.c(), b.c())), [](auto &x, auto &y) { return x <= y; }); break;
	case 12: chks("isl_aff_lt_basic_set", bs(isl_aff_lt_basic_set(a.c(), b.c())), [](auto &x, auto &y) { return x < y; }); break;
	case 13: chks("isl_aff_ge_basic_set", bs(isl_aff_ge_basic_set(a.c(), b.c())), [](auto &x, auto &y) { return x >= y; }); break;
	case 14: chks("isl_aff_gt_basic_set", bs(isl_aff_gt_basic_set(a.c(), b.c())), [](auto &x, auto &y) { return x > y; }); break;
	case 15: chks("isl_aff_ne_set", isl_aff_ne_set(a.c(), b.c()), [](auto &x, auto &y) { return x != y; }); break;
	case 16: chks("isl_aff_neg_basic_set", bs(isl_aff_neg_basic_set(a.c())), [](auto &x, auto &) { return x < 0; }); break;
	case 17: chks("isl_aff_zero_basic_set", bs(isl_aff_zero_basic_set(a.c())), [](auto &x, auto &) { return x == 0; }); break;
	case 18: { int rel = c.t.below(5); Set s = rel == 0 ? isl_aff_eq_set(a.c(), b.c()) : rel == 1 ? isl_aff_le_set(a.c(), b.c()) : rel == 2 ? isl_aff_lt_set(a.c(), b.c()) : rel == 3 ? isl_aff_ge_set(a.c(), b.c()) : isl_aff_gt_set(a.c(), b.c());
		chks("isl_aff_rel_set", s, [&](auto &x, auto &y) { return rel == 0 ? x == y : rel == 1 ? x <= y : rel == 2 ? x < y : rel == 3 ? x >= y : x > y; }); break; }
	case 19: { // gist: equal on the context
		Set s = g.some_set(); MMap mm = extract(c, s.g());
		Aff r = R(c, isl_aff_gist(a.c(), s.c()), "isl_aff_gist"); FAff f = fn_aff(c, r.g());
		for (auto &p : w.pts) if (mm.has(p) && f.eval(p) != fval(e1.eval(p))) c.fail("isl_aff_gist", "at " + str(p) + " in the context\n" + t + "context " + S(s) + "\nresult: " + S(r));
		c.label("isl_aff_gist"); break; }
	case 20: { for (int k = 0; k < 3; ++k) { Pt p = w.pts[c.t.below(w.pts.size())]; isl_point *pt = isl_point_zero(d.c());
			for (int i = 0; i < g.np + g.ns; ++i) pt = isl_point_set_coordinate_val(pt, i < g.np ? isl_dim_param : isl_dim_set, i < g.np ? i : i - g.np, mkval(c.ctx, Z(p[i])));
			Val v = R(c, isl_aff_eval(a.c(), pt), "isl_aff_eval"); if (isl_val_is_rat(v.g()) != isl_bool_true || mpq_class(val_num(v.g()), val_den(v.g())) != e1.eval(p)) c.fail("isl_aff_eval", "at " + str(p) + ": " + S(v) + " instead of " + e1.eval(p).get_str() + "\n" + t); }
		c.label("isl_aff_eval"); break; }
	case 21: { // substitution of a variable's value: pullback
		Sp ms = map_sp(g.dom, mk_tup("", c.t.below(3)), g.dom.out);
		MAff ma = gen_maff(c, ms); FFun h = fn(c, ma.g());
		Aff r = R(c, isl_aff_pullback_multi_aff(a.c(), ma.c()), "isl_aff_pullback_multi_aff"); FAff f = fn_aff(c, r.g());
		for (auto &p : make_window(g.np + ms.ni(), 200).pts) { auto v = h.eval(p); Pt x = sub(p, 0, g.np); bool in = true; for (auto &y : v) { if (y.st != 1 || y.v.get_den() != 1) in = false; else x.push_back(y.v.get_num().get_si()); } if (!in) continue;
			if (f.eval(p) != fval(e1.eval(x))) c.fail("isl_aff_pullback_multi_aff", "at " + str(p) + ": " + str(f.eval(p)) + " instead of " + e1.eval(x).get_str() + "\n" + t + S(ma) + "\nresult: " + S(r)); }
		c.label("isl_aff_pullback_multi_aff"); break; }
	case 22: { bool pe = B(c, isl_aff_plain_is_equal(a.g(), b.g()), "isl_aff_plain_is_equal");
		if (pe) for (auto &p : w.pts) if (e1.eval(p) != e2.eval(p)) c.fail("isl_aff_plain_is_equal", t);
		if (B(c, isl_aff_is_cst(a.g()), "isl_aff_is_cst")) for (auto &p : w.pts) if (e1.eval(p) != e1.eval(w.pts[0])) c.fail("isl_aff_is_cst", t);
		if (B(c, isl_aff_plain_is_zero(a.g()), "isl_aff_plain_is_zero")) for (auto &p : w.pts) if (e1.eval(p) != 0) c.fail("isl_aff_plain_is_zero", t);
		if (!B(c, isl_aff_involves_locals(a.g()), "isl_aff_involves_locals")) { // then it is affine
			for (auto &p : w.pts) for (int v = 0; v < g.np + g.ns; ++v) { Pt x = p, y = p; x[v]++; y[v]--; if (e1.eval(x) + e1.eval(y) != 2 * e1.eval(p)) c.fail("isl_aff_involves_locals", t); } }
		c.label("aff predicates"); break; }
	case 23: { // coefficients, denominators and divs describe the expression
		Val cst = R(c, isl_aff_get_constant_val(a.g()), "isl_aff_get_constant_val");
		int nd = isl_aff_dim(a.g(), isl_dim_div);
		std::vector<FAff> dv; std::vector<mpq_class> dc;
		for (int i = 0; i < nd; ++i) { Aff x = R(c, isl_aff_get_div(a.g(), i), "isl_aff_get_div"); dv.push_back(fn_aff(c, x.g())); dc.push_back(take_rat(c, isl_aff_get_coefficient_val(a.g(), isl_dim_div, i))); }
		for (auto &p : w.pts) {
			mpq_class v(val_num(cst.g()), val_den(cst.g()));
			for (int i = 0; i < g.np + g.ns; ++i) v += take_rat(c, isl_aff_get_coefficient_val(a.g(), i < g.np ? isl_dim_param : isl_dim_in, i < g.np ? i : i - g.np)) * (long)p[i];
			bool nested = false;
			std::vector<mpz_class> dval;
			for (int i = 0; i < nd; ++i) {
				FV x = dv[i].eval(p);
				if (x.st != 1) { nested = true; break; }
				v += dc[i] * mpq_class(qfloor(x.v));
			}
			if (!nested && v != e1.eval(p)) c.fail("isl_aff_get_coefficient_val", "at " + str(p) + ": coefficients give " + v.get_str() + " instead of " + e1.eval(p).get_str() + "\n" + t);
			if (&p - &w.pts[0] > 20) break;
		}
		c.label("isl_aff_get_coefficient_val"); break; }
	case 24: { int pos = c.t.below(g.ns + 1), n = 1 + c.t.below(2);
		if (!g.dom.out.name.empty() || !g.dom.out.sub.empty()) break;
		Aff r = R(c, isl_aff_insert_dims(a.c(), isl_dim_in, pos, n), "isl_aff_insert_dims"); FAff f = fn_aff(c, r.g());
		for (auto &p : make_window(g.np + g.ns + n, 200).pts) { Pt x = cat(sub(p, 0, g.np + pos), sub(p, g.np + pos + n, g.ns - pos)); if (f.eval(p) != fval(e1.eval(x))) c.fail("isl_aff_insert_dims", t + ints({pos, n}) + S(r)); }
		c.label("isl_aff_insert_dims"); break; }
	case 25: { if (!g.dom.out.name.empty() || !g.dom.out.sub.empty() || !g.ns) break;
		int pos = c.t.below(g.ns), n = 1 + c.t.below(g.ns - pos), dst = c.t.below(g.np + 1);
		Aff r = R(c, isl_aff_move_dims(a.c(), isl_dim_param, dst, isl_dim_in, pos, n), "isl_aff_move_dims"); FAff f = fn_aff(c, r.g());
		for (auto &p : w.pts) { Pt q = cat(sub(p, 0, dst), sub(p, dst + n, g.np - dst)); q = cat(q, sub(p, g.np + n, pos)); q = cat(q, sub(p, dst, n)); q = cat(q, sub(p, g.np + n + pos, g.ns - n - pos)); if (f.eval(p) != fval(e1.eval(q))) c.fail("isl_aff_move_dims", t + ints({dst, pos, n}) + S(r)); }
		c.label("isl_aff_move_dims"); break; }
	case 26: { // nan
		Aff n = R(c, isl_aff_nan_on_domain_space(d.c()), "isl_aff_nan_on_domain_space");
		isl_aff *rs[] = {isl_aff_add(a.c(), n.c()), isl_aff_sub(n.c(), a.c()), isl_aff_neg(n.c()), isl_aff_floor(n.c()), isl_aff_ceil(n.c()), isl_aff_mod_val(n.c(), mkval(c.ctx, 3)), isl_aff_scale_val(n.c(), mkval(c.ctx, 0)), isl_aff_scale_down_val(n.c(), mkval(c.ctx, 2)), isl_aff_mul(n.c(), isl_aff_zero_on_domain_space(d.c())), isl_aff_div(n.c(), isl_aff_val_on_domain_space(d.c(), mkval(c.ctx, 2))), isl_aff_add_constant_val(a.c(), isl_val_nan(c.ctx))};
		for (auto x : rs) { Aff r = R(c, x, "nan"); if (!B(c, isl_aff_is_nan(r.g()), "isl_aff_is_nan")) c.fail("isl_aff_nan", "operation on NaN yields " + S(r) + "\n" + t); }
		c.label("aff nan"); break; }
	}
}

void run(Case &c)
{
	G g(c);
	g.dom = gen_set_space(c, 2, 2, c.t.chance(1, 4));
	if (c.t.chance(1, 2)) { g.dom.out = mk_tup("", g.dom.no()); }
	g.np = g.dom.np(); g.ns = g.dom.no();
	if (c.t.chance(1, 4)) { affs(g); return; }
	V a = g.operand();
	int n = 1 + c.t.below(4);
	for (int i = 0; i < n; ++i) {
		int k = c.t.weighted({5, 5, 3});
		if (k == 0) a = binary(g, a);
		else if (k == 1) a = unary(g, a);
		else queries(g, a);
		int np = isl_pw_aff_n_piece(a.p.g());
		if (np > 30) c.discard("many pieces");
	}
}
}

Prop vp::the_prop = {
	"C09",
	"Case = a random piecewise quasi-affine expression (0-2 parameters, 0-2 dimensions, nested floors, rational values, NaN, partial domains) taken through 1-4 operations out of ~70; "
	"after every operation the coefficients, integer divisions and pieces of the result are extracted and evaluated at every point of a window and compared with exact rational arithmetic on the operands; "
	"non-trivial: some compared result takes two different values on the window",
	run, 60000, 1500000 };
