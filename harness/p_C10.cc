// C10: multi-dimensional (piecewise) functions behave as functions; conversions preserve the graph.
#include "fn.h"
#include <isl/aff.h>
using namespace vp;

namespace {
typedef std::vector<FV> VV;
// a function in one of the three representations
struct F {
	int kind = 0;          // 0 multi_aff, 1 pw_multi_aff, 2 multi_pw_aff
	MAff ma; PMA pma; MPA mpa;
	Sp sp;
	FFun f;
	// value: outputs; for zero outputs {} (defined) or {undefined}
	VV ev(const Pt &p) const { if (sp.no() == 0) return f.def(p) ? VV{} : VV{FV()}; return f.eval(p); }
	bool def(const Pt &p) const { return sp.no() == 0 ? f.def(p) : [&] { for (auto &v : f.eval(p)) if (v.st == 0) return false; return true; }(); }
	std::string s() const { return kind == 0 ? S(ma) : kind == 1 ? S(pma) : S(mpa); }
};
const char *KN[] = {"isl_multi_aff_", "isl_pw_multi_aff_", "isl_multi_pw_aff_"};
F mk(Case &c, const Sp &sp, MAff m) { F r; r.kind = 0; r.sp = sp; r.ma = m; r.f = fn(c, m.g()); return r; }
F mk(Case &c, const Sp &sp, PMA m) { F r; r.kind = 1; r.sp = sp; r.pma = m; r.f = fn(c, m.g()); return r; }
F mk(Case &c, const Sp &sp, MPA m) { F r; r.kind = 2; r.sp = sp; r.mpa = m; r.f = fn(c, m.g()); return r; }
F gen(Case &c, const Sp &sp, int kind, bool total = false)
{
	if (kind == 0) return mk(c, sp, gen_maff(c, sp, 2));
	if (kind == 1) return mk(c, sp, gen_pma(c, sp, total));
	return mk(c, sp, gen_mpa(c, sp, total));
}
bool undef(const VV &v) { for (auto &x : v) if (x.st == 0) return true; return false; }
VV none(int n) { return VV(n ? n : 1); }
bool small(const VV &v, Pt &out) { out.clear(); for (auto &x : v) { if (x.st != 1 || x.v.get_den() != 1 || abs(x.v) > 1000000000) return false; out.push_back(x.v.get_num().get_si()); } return true; }
struct G {
	Case &c;
	std::string ctx;
	G(Case &c) : c(c) {}
	void in(const F &f) { ctx += "operand " + f.s() + "\n"; }
	void chk(const std::string &op, const F &r, const VFun &want, const std::string &extra = "", int budget = 250)
	{
		Space s(r.kind == 0 ? isl_multi_aff_get_space(r.ma.g()) : r.kind == 1 ? isl_pw_multi_aff_get_space(r.pma.g()) : isl_multi_pw_aff_get_space(r.mpa.g()));
		std::string how = ctx + op + " " + extra + "\nresult: " + r.s();
		want_space(c, op.c_str(), s.r(), r.sp, how);
		check_fn(c, op.c_str(), r.f, r.sp.np(), r.sp.ni(), r.sp.no(), want, how, budget);
	}
	Set dom_set(const Sp &sp) { GenOpt o; o.max_basic = 2; return gen_set(c, set_sp(sp, sp.in), o, c.t.chance(1, 3)); }
};
VV lift2(const VV &a, const VV &b, const std::function<mpq_class(const mpq_class &, const mpq_class &)> &f)
{
	VV r(a.size());
	for (size_t i = 0; i < a.size(); ++i) if (a[i].st && b[i].st) r[i] = a[i].st == 2 || b[i].st == 2 ? fnan() : fval(f(a[i].v, b[i].v));
	return r;
}
// for zero outputs: {} defined
VV bin(const F &a, const F &b, const Pt &p, const std::function<mpq_class(const mpq_class &, const mpq_class &)> &f)
{
	if (a.sp.no() == 0) return a.def(p) && b.def(p) ? VV{} : VV{FV()};
	return lift2(a.ev(p), b.ev(p), f);
}
H<isl_multi_val> gen_mv(Case &c, const Sp &sp, std::vector<mpq_class> &v, bool pos, bool integer)
{
	Space d(mk_space(c, sp));
	isl_multi_val *m = isl_multi_val_zero(isl_space_range(d.r()));
	for (int i = 0; i < sp.no(); ++i) {
		mpq_class q(pos ? c.t.range(1, 5) : c.t.range(-4, 4), integer ? 1 : 1 + (int)c.t.below(3)); q.canonicalize();
		v.push_back(q); m = isl_multi_val_set_at(m, i, mkrat(c.ctx, q));
	}
	return R(c, m, "isl_multi_val_set_at");
}
#define APPLY(r, f, op, ...) do { if ((f).kind == 0) r = mk(c, (r).sp, R(c, isl_multi_aff_##op((f).ma.c(), ##__VA_ARGS__), "isl_multi_aff_" #op)); \
	else if ((f).kind == 1) r = mk(c, (r).sp, R(c, isl_pw_multi_aff_##op((f).pma.c(), ##__VA_ARGS__), "isl_pw_multi_aff_" #op)); \
	else r = mk(c, (r).sp, R(c, isl_multi_pw_aff_##op((f).mpa.c(), ##__VA_ARGS__), "isl_multi_pw_aff_" #op)); } while (0)
#define APPLY2(r, a, b, op) do { if ((a).kind == 0) r = mk(c, (r).sp, R(c, isl_multi_aff_##op((a).ma.c(), (b).ma.c()), "isl_multi_aff_" #op)); \
	else if ((a).kind == 1) r = mk(c, (r).sp, R(c, isl_pw_multi_aff_##op((a).pma.c(), (b).pma.c()), "isl_pw_multi_aff_" #op)); \
	else r = mk(c, (r).sp, R(c, isl_multi_pw_aff_##op((a).mpa.c(), (b).mpa.c()), "isl_multi_pw_aff_" #op)); } while (0)
#define N_(op) (std::string(KN[a.kind]) + (op))

void arith(G &g)
{
	Case &c = g.c;
	Sp sp = gen_map_space(c, 2, 2, 3, true);
	int kind = c.t.weighted({2, 3, 3});
	F a = gen(c, sp, kind), b = c.t.chance(1, 6) ? a : gen(c, sp, kind), r;
	g.in(a); g.in(b);
	r.sp = sp;
	auto A = [&](const Pt &p) { return a.ev(p); };
	auto un = [&](const std::function<mpq_class(const mpq_class &, int)> &f) { return [&, f](const Pt &p) { VV v = a.ev(p); int i = 0; for (auto &x : v) { if (x.st == 1) x.v = f(x.v, i); ++i; } return v; }; };
	switch (c.t.below(14)) {
	case 0: APPLY2(r, a, b, add); g.chk(N_("add"), r, [&](const Pt &p) { return bin(a, b, p, [](auto &x, auto &y) { return mpq_class(x + y); }); }); break;
	case 1: APPLY2(r, a, b, sub); g.chk(N_("sub"), r, [&](const Pt &p) { return bin(a, b, p, [](auto &x, auto &y) { return mpq_class(x - y); }); }); break;
	case 2: APPLY(r, a, neg); g.chk(N_("neg"), r, un([](auto &x, int) { return mpq_class(-x); })); break;
	case 3: { mpq_class q(c.t.range(-5, 5), 1 + (int)c.t.below(3)); q.canonicalize(); isl_val *v = mkrat(c.ctx, q); APPLY(r, a, scale_val, v); g.chk(N_("scale_val"), r, un([&](auto &x, int) { return mpq_class(x * q); }), q.get_str()); break; }
	case 4: { mpq_class q(c.t.range(1, 5), 1 + (int)c.t.below(3)); q.canonicalize(); isl_val *v = mkrat(c.ctx, q); APPLY(r, a, scale_down_val, v); g.chk(N_("scale_down_val"), r, un([&](auto &x, int) { return mpq_class(x / q); }), q.get_str()); break; }
	case 5: { std::vector<mpq_class> q; auto m = gen_mv(c, sp, q, false, false); isl_multi_val *v = m.r(); APPLY(r, a, scale_multi_val, v); g.chk(N_("scale_multi_val"), r, un([&](auto &x, int i) { return mpq_class(x * q[i]); })); break; }
	case 6: { std::vector<mpq_class> q; auto m = gen_mv(c, sp, q, true, false); isl_multi_val *v = m.r(); APPLY(r, a, scale_down_multi_val, v); g.chk(N_("scale_down_multi_val"), r, un([&](auto &x, int i) { return mpq_class(x / q[i]); })); break; }
	case 7: { std::vector<mpq_class> q; auto m = gen_mv(c, sp, q, false, false); isl_multi_val *v = m.r(); APPLY(r, a, add_constant_multi_val, v); g.chk(N_("add_constant_multi_val"), r, un([&](auto &x, int i) { return mpq_class(x + q[i]); })); break; }
	case 8: { mpq_class q(c.t.range(-9, 9)); isl_val *v = mkrat(c.ctx, q); APPLY(r, a, add_constant_val, v); g.chk(N_("add_constant_val"), r, un([&](auto &x, int) { return mpq_class(x + q); }), q.get_str()); break; }
	case 9: { if (kind == 1) break; std::vector<mpq_class> q; auto m = gen_mv(c, sp, q, true, true);
		if (kind == 0) r = mk(c, sp, R(c, isl_multi_aff_mod_multi_val(a.ma.c(), m.r()), "mod")); else r = mk(c, sp, R(c, isl_multi_pw_aff_mod_multi_val(a.mpa.c(), m.r()), "mod"));
		g.chk(N_("mod_multi_val"), r, un([&](auto &x, int i) { return mpq_class(x - q[i] * mpq_class(fdiv(mpq_class(x / q[i]).get_num(), mpq_class(x / q[i]).get_den()))); })); break; }
	case 10: { if (kind != 2) break; bool mn = c.t.chance(1, 2);
		r = mk(c, sp, R(c, mn ? isl_multi_pw_aff_min(a.mpa.c(), b.mpa.c()) : isl_multi_pw_aff_max(a.mpa.c(), b.mpa.c()), "minmax"));
		g.chk(mn ? "isl_multi_pw_aff_min" : "isl_multi_pw_aff_max", r, [&](const Pt &p) { return bin(a, b, p, [&](auto &x, auto &y) { return mpq_class((x < y) == mn ? x : y); }); }); break; }
	case 11: { if (kind == 0) break;
		if (kind == 1) r = mk(c, sp, R(c, isl_pw_multi_aff_union_add(a.pma.c(), b.pma.c()), "ua")); else r = mk(c, sp, R(c, isl_multi_pw_aff_union_add(a.mpa.c(), b.mpa.c()), "ua"));
		g.chk(N_("union_add"), r, [&](const Pt &p) {
			if (sp.no() == 0) return a.def(p) || b.def(p) ? VV{} : VV{FV()};
			VV x = a.ev(p), y = b.ev(p); for (size_t i = 0; i < x.size(); ++i) if (x[i].st == 0) x[i] = y[i]; else if (y[i].st) x[i].v += y[i].v; return x; }); break; }
	case 12: { if (kind != 1) break; bool mx = c.t.chance(1, 2);
		r = mk(c, sp, R(c, mx ? isl_pw_multi_aff_union_lexmax(a.pma.c(), b.pma.c()) : isl_pw_multi_aff_union_lexmin(a.pma.c(), b.pma.c()), "ul"));
		g.chk(mx ? "isl_pw_multi_aff_union_lexmax" : "isl_pw_multi_aff_union_lexmin", r, [&](const Pt &p) {
			if (!a.def(p)) return b.ev(p);
			if (!b.def(p)) return a.ev(p);
			VV x = a.ev(p), y = b.ev(p);
			for (size_t i = 0; i < x.size(); ++i) if (x[i] != y[i]) return (x[i].v < y[i].v) == mx ? y : x;
			return x; }); break; }
	default: { // equality
		if (c.t.chance(1, 2)) b = a;
		if (kind == 1) { PMA x = b.pma; if (c.t.chance(1, 2)) { Set s = g.dom_set(sp); x = R(c, isl_pw_multi_aff_union_add(isl_pw_multi_aff_intersect_domain(x.c(), s.c()), isl_pw_multi_aff_subtract_domain(x.c(), s.c())), "split"); }
			b = mk(c, sp, x); g.in(b);
			bool e = B(c, isl_pw_multi_aff_is_equal(a.pma.g(), b.pma.g()), "is_equal"), pe = B(c, isl_pw_multi_aff_plain_is_equal(a.pma.g(), b.pma.g()), "plain_is_equal"), diff = false;
			for (auto &p : make_window(sp.np() + sp.ni(), 250).pts) if (a.ev(p) != b.ev(p)) { diff = true; if (e || pe) c.fail("isl_pw_multi_aff_is_equal", "equal but differ at " + str(p) + "\n" + g.ctx); }
			if (!e) { Map x1 = R(c, isl_pw_multi_aff_as_map(a.pma.c()), "m"), x2 = R(c, isl_pw_multi_aff_as_map(b.pma.c()), "m"); if (!diff && B(c, isl_map_is_equal(x1.g(), x2.g()), "eq")) c.fail("isl_pw_multi_aff_is_equal", "different but same graph\n" + g.ctx); }
			c.label(e ? "pma equal" : "pma different"); }
		else if (kind == 2) { MPA x = b.mpa; if (c.t.chance(1, 2) && sp.no()) { Set s = g.dom_set(sp); x = R(c, isl_multi_pw_aff_union_add(isl_multi_pw_aff_intersect_domain(x.c(), s.c()), isl_multi_pw_aff_intersect_domain(x.c(), isl_set_complement(s.c()))), "split"); }
			b = mk(c, sp, x); g.in(b);
			bool e = B(c, isl_multi_pw_aff_is_equal(a.mpa.g(), b.mpa.g()), "is_equal"), diff = false;
			for (auto &p : make_window(sp.np() + sp.ni(), 250).pts) if (a.ev(p) != b.ev(p)) { diff = true; if (e) c.fail("isl_multi_pw_aff_is_equal", "equal but differ at " + str(p) + "\n" + g.ctx); }
			(void)diff; c.label(e ? "mpa equal" : "mpa different"); }
		else { bool pe = B(c, isl_multi_aff_plain_is_equal(a.ma.g(), b.ma.g()), "pe"); if (pe) for (auto &p : make_window(sp.np() + sp.ni(), 250).pts) if (a.ev(p) != b.ev(p)) c.fail("isl_multi_aff_plain_is_equal", g.ctx);
			int cm = isl_multi_aff_plain_cmp(a.ma.g(), b.ma.g()); if (pe != (cm == 0)) c.fail("isl_multi_aff_plain_cmp", g.ctx); if (cm != -isl_multi_aff_plain_cmp(b.ma.g(), a.ma.g()) && (cm > 0) == (isl_multi_aff_plain_cmp(b.ma.g(), a.ma.g()) > 0)) c.fail("isl_multi_aff_plain_cmp", "not antisymmetric\n" + g.ctx); c.label("ma cmp"); }
		break; }
	}
}
Pt split(const Pt &p, int np, int f, int n) { return cat(sub(p, 0, np), sub(p, np + f, n)); }
VV vcat(const VV &a, const VV &b, int na, int nb) { // component-wise
	(void)na; (void)nb; VV r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
// product of values: with per-component definedness (mpa) or joint definedness (pma)
VV joint(const F &a, const Pt &pa, const F &b, const Pt &pb, bool percomp)
{
	int n = a.sp.no() + b.sp.no();
	bool da = a.def(pa), db = b.def(pb);
	if (!percomp) { if (!da || !db) return none(n); }
	else {
		if (n == 0) return da && db ? VV{} : VV{FV()};
		// an operand without outputs restricts the whole result
		if (a.sp.no() == 0 && !da) return none(n);
		if (b.sp.no() == 0 && !db) return none(n);
	}
	VV x = a.sp.no() ? a.ev(pa) : VV(), y = b.sp.no() ? b.ev(pb) : VV();
	x.insert(x.end(), y.begin(), y.end());
	return x;
}
Tup flatcat(const Tup &a, const Tup &b) { return flat_tup(a.dim() + b.dim()); }

void products(G &g)
{
	Case &c = g.c;
	int kind = c.t.weighted({2, 3, 3});
	Sp s1 = gen_map_space(c, 2, 2, 2, true), s2 = s1;
	s2.out = gen_tup(c, 2, true);
	F r;
	int np = s1.np();
	switch (c.t.below(5)) {
	case 0: { F a = gen(c, s1, kind), b = gen(c, s2, kind); g.in(a); g.in(b);
		r.sp = map_sp(s1, s1.in, wrap_tup(s1.out, s2.out)); APPLY2(r, a, b, range_product);
		g.chk(N_("range_product"), r, [&](const Pt &p) { return joint(a, p, b, p, kind == 2); }); break; }
	case 1: { F a = gen(c, s1, kind), b = gen(c, s2, kind); g.in(a); g.in(b);
		r.sp = map_sp(s1, s1.in, flatcat(s1.out, s2.out)); APPLY2(r, a, b, flat_range_product);
		g.chk(N_("flat_range_product"), r, [&](const Pt &p) { return joint(a, p, b, p, kind == 2); }); break; }
	case 2: { s2.in = gen_tup(c, 2, false); F a = gen(c, s1, kind), b = gen(c, s2, kind); g.in(a); g.in(b);
		r.sp = map_sp(s1, wrap_tup(s1.in, s2.in), wrap_tup(s1.out, s2.out)); APPLY2(r, a, b, product);
		g.chk(N_("product"), r, [&](const Pt &p) { return joint(a, split(p, np, 0, s1.ni()), b, split(p, np, s1.ni(), s2.ni()), kind == 2); }); break; }
	case 3: { if (kind == 1) kind = 2; // range_splice: insert the outputs of the second
		s1.out = mk_tup(s1.out.name, c.t.below(4));
		F a = gen(c, s1, kind), b = gen(c, s2, kind); g.in(a); g.in(b);
		int pos = c.t.below(s1.no() + 1);
		r.sp = map_sp(s1, s1.in, mk_tup("", s1.no() + s2.no()));
		if (kind == 0) r = mk(c, r.sp, R(c, isl_multi_aff_range_splice(a.ma.c(), pos, b.ma.c()), "rs")); else r = mk(c, r.sp, R(c, isl_multi_pw_aff_range_splice(a.mpa.c(), pos, b.mpa.c()), "rs"));
		// tuple identifiers are not compared
		std::string how = g.ctx + "range_splice " + std::to_string(pos) + "\nresult " + r.s();
		// the definedness of the separate components is not specified here, that of the tuple is
		if (kind == 2 && (s1.no() == 0 || s2.no() == 0)) { Set d = R(c, isl_multi_pw_aff_domain(r.mpa.c()), "d"), da = R(c, isl_multi_pw_aff_domain(a.mpa.c()), "d"), db = R(c, isl_multi_pw_aff_domain(b.mpa.c()), "d"); da = R(c, isl_set_intersect(da.r(), db.r()), "i"); if (!B(c, isl_set_is_equal(d.g(), da.g()), "eq")) c.fail(N_("range_splice"), "wrong domain\n" + how);
			break; }
		check_fn(c, N_("range_splice").c_str(), r.f, np, s1.ni(), r.sp.no(), [&](const Pt &p) { VV v = joint(a, p, b, p, kind == 2); if (r.sp.no() == 0 || (int)v.size() != r.sp.no()) return v;
			VV x(v.begin(), v.begin() + s1.no()), y(v.begin() + s1.no(), v.end()); x.insert(x.begin() + pos, y.begin(), y.end()); return x; }, how, 250);
		break; }
	default: { // factors
		Sp w = map_sp(s1, s1.in, wrap_tup(s1.out, s2.out));
		F a = gen(c, w, kind); g.in(a);
		bool first = c.t.chance(1, 2);
		int n1 = s1.no(), n2 = s2.no();
		r.sp = map_sp(s1, s1.in, first ? s1.out : s2.out);
		if (first) APPLY(r, a, range_factor_domain); else APPLY(r, a, range_factor_range);
		g.chk(N_(first ? "range_factor_domain" : "range_factor_range"), r, [&](const Pt &p) {
			int n = r.sp.no();
			if (w.no() == 0) return a.def(p) ? VV{} : VV{FV()};
			VV v = a.ev(p);
			if (n == 0) return kind == 2 || a.def(p) ? VV{} : VV{FV()};
			return first ? VV(v.begin(), v.begin() + n1) : VV(v.begin() + n1, v.begin() + n1 + n2); }, "", 250);
		break; }
	}
}

void compose(G &g)
{
	Case &c = g.c;
	Sp s1 = gen_map_space(c, 2, 3, 3, true), s2 = s1;   // g : s1, f : s1.out -> s2.out
	s2 = map_sp(s1, s1.out, gen_tup(c, 3, true));
	int kf = c.t.weighted({2, 3, 3}), kg = kf == 0 ? 0 : kf == 1 ? c.t.below(2) : c.t.below(3);
	F a = gen(c, s2, kf), b = gen(c, s1, kg), r;
	g.ctx += "f " + a.s() + "\ng " + b.s() + "\n";
	r.sp = map_sp(s1, s1.in, s2.out);
	std::string op;
	switch (kf * 3 + kg) {
	case 0: op = "isl_multi_aff_pullback_multi_aff"; r = mk(c, r.sp, R(c, isl_multi_aff_pullback_multi_aff(a.ma.c(), b.ma.c()), op.c_str())); break;
	case 3: op = "isl_pw_multi_aff_pullback_multi_aff"; r = mk(c, r.sp, R(c, isl_pw_multi_aff_pullback_multi_aff(a.pma.c(), b.ma.c()), op.c_str())); break;
	case 4: op = "isl_pw_multi_aff_pullback_pw_multi_aff"; r = mk(c, r.sp, R(c, isl_pw_multi_aff_pullback_pw_multi_aff(a.pma.c(), b.pma.c()), op.c_str())); break;
	case 6: op = "isl_multi_pw_aff_pullback_multi_aff"; r = mk(c, r.sp, R(c, isl_multi_pw_aff_pullback_multi_aff(a.mpa.c(), b.ma.c()), op.c_str())); break;
	case 7: op = "isl_multi_pw_aff_pullback_pw_multi_aff"; r = mk(c, r.sp, R(c, isl_multi_pw_aff_pullback_pw_multi_aff(a.mpa.c(), b.pma.c()), op.c_str())); break;
	default: op = "isl_multi_pw_aff_pullback_multi_pw_aff"; r = mk(c, r.sp, R(c, isl_multi_pw_aff_pullback_multi_pw_aff(a.mpa.c(), b.mpa.c()), op.c_str())); break;
	}
	int np = s1.np();
	// the explicit domain of f / pieces of f may be independent of g: only checked where g is entirely defined
	g.chk(op, r, [&](const Pt &p) {
		VV v = b.sp.no() ? b.ev(p) : VV();
		Pt q;
		if (!b.def(p)) {
			// per component definedness of the result is unspecified; keep the library's answer if it is undefined or consistent
			if (kg == 2) return r.ev(p);
			return none(r.sp.no());
		}
		if (!small(v, q)) return r.ev(p);
		return a.ev(cat(sub(p, 0, np), q)); });
	if (kg == 2) {
		// whole-tuple view: the composition is defined exactly where g is defined and f is at g(p), if every component of g matters
		for (auto &p : make_window(np + s1.ni(), 150).pts) if (!b.def(p) && !undef(r.ev(p))) {
			// allowed only if f is the same whatever the undefined components are
			VV v = b.sp.no() ? b.ev(p) : VV(); bool hasund = undef(v);
			if (!hasund) c.fail(op, "defined at " + str(p) + " although g is not\n" + g.ctx + r.s());
			Pt q; for (auto &x : v) q.push_back(x.st == 1 && x.v.get_den() == 1 && abs(x.v) < 100000 ? x.v.get_num().get_si() : 0);
			for (int t = 0; t < 6; ++t) {
				Pt z = q; for (size_t i = 0; i < v.size(); ++i) if (v[i].st == 0) z[i] = t * 3 - 8;
				if (a.ev(cat(sub(p, 0, np), z)) != r.ev(p)) c.fail(op, "defined at " + str(p) + " although g is not and f depends on the undefined component\n" + g.ctx + r.s());
			}
		}
	}
}

void restrict_(G &g)
{
	Case &c = g.c;
	Sp sp = gen_map_space(c, 2, 2, 3, true);
	if (c.t.chance(1, 4)) sp.in = wrap_tup(gen_tup(c, 1, false), gen_tup(c, 2, false));
	int kind = c.t.weighted({1, 3, 3});
	F a = gen(c, sp, kind), r;
	g.in(a);
	r.sp = sp;
	int np = sp.np();
	GenOpt o; o.max_basic = 2;
	int k = c.t.below(9);
	if (kind == 0 && k < 6) k = 4 + k % 2;
	switch (k) {
	case 0: { Set s = g.dom_set(sp); MMap m = extract(c, s.g()); g.ctx += "set " + S(s) + "\n"; isl_set *t = s.r();
		if (kind == 1) r = mk(c, sp, R(c, isl_pw_multi_aff_intersect_domain(a.pma.c(), t), "id")); else r = mk(c, sp, R(c, isl_multi_pw_aff_intersect_domain(a.mpa.c(), t), "id"));
		g.chk(N_("intersect_domain"), r, [&](const Pt &p) { return m.has(p) ? a.ev(p) : none(sp.no()); }); break; }
	case 1: { Sp ps; ps.params = sp.params; Set s = gen_set(c, ps, o, false); Set t = R(c, isl_set_params(s.r()), "p"); MMap m = extract(c, t.g()); g.ctx += "params " + S(t) + "\n";
		if (kind == 1) r = mk(c, sp, R(c, isl_pw_multi_aff_intersect_params(a.pma.c(), t.r()), "ip")); else r = mk(c, sp, R(c, isl_multi_pw_aff_intersect_params(a.mpa.c(), t.r()), "ip"));
		g.chk(N_("intersect_params"), r, [&](const Pt &p) { return m.has(sub(p, 0, np)) ? a.ev(p) : none(sp.no()); }); break; }
	case 2: { if (kind != 1) return; Set s = g.dom_set(sp); MMap m = extract(c, s.g()); g.ctx += "set " + S(s) + "\n";
		r = mk(c, sp, R(c, isl_pw_multi_aff_subtract_domain(a.pma.c(), s.r()), "sd")); g.chk(N_("subtract_domain"), r, [&](const Pt &p) { return m.has(p) ? none(sp.no()) : a.ev(p); }); break; }
	case 3: { if (kind != 1 || sp.in.sub.empty()) return; bool dm = c.t.chance(1, 2); Set s = gen_set(c, set_sp(sp, sp.in.sub[dm ? 0 : 1]), o, false); MMap m = extract(c, s.g()); g.ctx += "set " + S(s) + "\n";
		int n0 = sp.in.sub[0].dim(), n1 = sp.in.sub[1].dim();
		r = mk(c, sp, R(c, dm ? isl_pw_multi_aff_intersect_domain_wrapped_domain(a.pma.c(), s.r()) : isl_pw_multi_aff_intersect_domain_wrapped_range(a.pma.c(), s.r()), "idw"));
		g.chk(dm ? "isl_pw_multi_aff_intersect_domain_wrapped_domain" : "isl_pw_multi_aff_intersect_domain_wrapped_range", r, [&](const Pt &p) { return m.has(split(p, np, dm ? 0 : n0, dm ? n0 : n1)) ? a.ev(p) : none(sp.no()); }); break; }
	case 4: { Set s = g.dom_set(sp); MMap m = extract(c, s.g()); g.ctx += "context " + S(s) + "\n"; isl_set *t = s.r(); APPLY(r, a, gist, t);
		std::string how = g.ctx + "gist\n" + r.s();
		for (auto &p : make_window(np + sp.ni(), 250).pts) if (m.has(p) && r.ev(p) != a.ev(p)) c.fail(N_("gist"), "differs inside the context at " + str(p) + "\n" + how);
		c.label(N_("gist")); break; }
	case 5: { Sp ps; ps.params = sp.params; Set s = gen_set(c, ps, o, false); Set t = R(c, isl_set_params(s.r()), "p"); MMap m = extract(c, t.g()); g.ctx += "context " + S(t) + "\n"; isl_set *tt = t.r(); APPLY(r, a, gist_params, tt);
		std::string how = g.ctx + "gist_params\n" + r.s();
		for (auto &p : make_window(np + sp.ni(), 250).pts) if (m.has(sub(p, 0, np)) && r.ev(p) != a.ev(p)) c.fail(N_("gist_params"), "differs inside the context at " + str(p) + "\n" + how);
		c.label(N_("gist_params")); break; }
	case 6: { if (kind == 0) return; if (kind == 1) r = mk(c, sp, R(c, isl_pw_multi_aff_coalesce(a.pma.c()), "co")); else r = mk(c, sp, R(c, isl_multi_pw_aff_coalesce(a.mpa.c()), "co"));
		g.chk(N_("coalesce"), r, [&](const Pt &p) { return a.ev(p); }); break; }
	case 7: { // outputs dropped, replaced, extracted
		if (sp.no() == 0) return;
		int pos = c.t.below(sp.no()), n = 1 + c.t.below(sp.no() - pos), w = c.t.below(3);
		if (!sp.out.sub.empty()) w = 2;
		if (w == 0) { r.sp = map_sp(sp, sp.in, mk_tup("", sp.no() - n)); Space dummy; unsigned first = pos, cnt = n; APPLY(r, a, drop_dims, isl_dim_out, first, cnt);
			check_fn(c, N_("drop_dims").c_str(), r.f, np, sp.ni(), r.sp.no(), [&](const Pt &p) { VV v = a.ev(p); if (r.sp.no() == 0) return kind == 1 ? (a.def(p) ? VV{} : VV{FV()}) : r.ev(p); v.erase(v.begin() + pos, v.begin() + pos + n); return v; }, g.ctx + "drop_dims " + std::to_string(pos) + " " + std::to_string(n) + "\n" + r.s(), 250); }
		else if (w == 1 && kind) { PwAff pa = gen_pwaff(c, set_sp(sp, sp.in)); FFun pf = fn(c, pa.g()); g.ctx += "component " + S(pa) + "\n";
			if (kind == 1) r = mk(c, sp, R(c, isl_pw_multi_aff_set_pw_aff(a.pma.c(), pos, pa.r()), "set")); else r = mk(c, sp, R(c, isl_multi_pw_aff_set_at(a.mpa.c(), pos, pa.r()), "set"));
			g.chk(N_("set_at"), r, [&](const Pt &p) { VV v = a.ev(p); FV x = pf.eval(p)[0]; if (kind == 1) { if (!a.def(p) || x.st == 0) return none(sp.no()); } v[pos] = x; return v; }, std::to_string(pos)); }
		else if (kind) { PwAff pa = R(c, kind == 1 ? isl_pw_multi_aff_get_at(a.pma.g(), pos) : isl_multi_pw_aff_get_at(a.mpa.g(), pos), "get_at"); FFun pf = fn(c, pa.g());
			check_fn(c, N_("get_at").c_str(), pf, np, sp.ni(), 1, [&](const Pt &p) { return VV{a.ev(p)[pos]}; }, g.ctx + "get_at " + std::to_string(pos) + "\n" + S(pa), 250); }
		break; }
	default: { // domain, conversion to sets
		if (kind == 0) return;
		Set d = R(c, kind == 1 ? isl_pw_multi_aff_domain(a.pma.c()) : isl_multi_pw_aff_domain(a.mpa.c()), "domain");
		check(c, N_("domain").c_str(), d, set_sp(sp, sp.in), [&](const Pt &p) { return a.def(p); }, g.ctx, 300); break; }
	}
}

void convert(G &g)
{
	Case &c = g.c;
	Sp sp = gen_map_space(c, 2, 2, 2, true);
	int kind = c.t.weighted({2, 3, 3});
	F a = gen(c, sp, kind);
	g.in(a);
	int np = sp.np(), ni = sp.ni();
	auto graph = [&](const Pt &p) { Pt q; if (!a.def(sub(p, 0, np + ni))) return false; VV v = sp.no() ? a.ev(sub(p, 0, np + ni)) : VV(); for (int i = 0; i < sp.no(); ++i) if (v[i] != fval(Z(p[np + ni + i]))) return false; return true; };
	switch (c.t.below(9)) {
	case 0: { Map m = R(c, kind == 0 ? isl_map_from_multi_aff(a.ma.c()) : kind == 1 ? isl_map_from_pw_multi_aff(a.pma.c()) : isl_map_from_multi_pw_aff(a.mpa.c()), "as_map");
		check(c, (std::string("isl_map_from_") + (KN[kind] + 4)).c_str(), m, sp, graph, g.ctx); break; }
	case 1: case 2: { // relation -> function, from a scrambled representation
		Map m = R(c, kind == 0 ? isl_multi_aff_as_map(a.ma.c()) : kind == 1 ? isl_pw_multi_aff_as_map(a.pma.c()) : isl_multi_pw_aff_as_map(a.mpa.c()), "as_map");
		GenOpt o;
		if (c.t.chance(2, 3)) { // split the relation along another one
			Map x = gen_map(c, sp, o, false);
			Map m1 = R(c, isl_map_intersect(m.c(), x.c()), "i"), m2 = R(c, isl_map_subtract(m.c(), x.c()), "s");
			m = R(c, c.t.chance(1, 2) ? isl_map_union(m1.c(), m2.c()) : isl_map_union(m2.c(), m1.c()), "u");
		}
		switch (c.t.below(5)) {
		case 0: m = R(c, isl_map_compute_divs(m.r()), "cd"); break;
		case 1: m = R(c, isl_map_coalesce(m.r()), "co"); break;
		case 2: m = R(c, isl_map_detect_equalities(m.r()), "de"); break;
		case 3: m = R(c, isl_map_remove_redundancies(m.r()), "rr"); break;
		default: break;
		}
		g.ctx += "relation " + S(m) + "\n";
		if (!B(c, isl_map_is_single_valued(m.g()), "sv")) c.fail("isl_map_is_single_valued", "the graph of a function is reported as not single valued\n" + g.ctx);
		PMA p = R(c, c.t.chance(1, 2) ? isl_pw_multi_aff_from_map(m.c()) : isl_map_as_pw_multi_aff(m.c()), "isl_pw_multi_aff_from_map");
		F r = mk(c, sp, p);
		g.chk("isl_pw_multi_aff_from_map", r, [&](const Pt &q) { return a.def(q) ? a.ev(q) : none(sp.no()); });
		break; }
	case 3: { // set -> function of the parameters
		Sp ss; ss.params = sp.params; ss.is_map = false; ss.out = sp.out;
		GenOpt o; o.max_basic = 1;
		std::vector<QE> es; std::vector<FV> dummy;
		Set dom = R(c, isl_set_params(gen_set(c, ss, o, false).r()), "p"); MMap dm = extract(c, dom.g());
		if (!sp.out.sub.empty()) return;
		std::string txt = sp_params(sp) + "{ " + sp.out.name + "[";
				for (int i = 0; i < sp.no(); ++i) { es.push_back(gen_qe(c, np, 2, false)); // (the grammar has no nested conditionals)
				 txt += std::string(i ? ", (" : "(") + es[i].text(sp.params) + ")"; }
		isl_set *s = isl_set_read_from_str(c.ctx, (txt + "] }").c_str());
		if (!s) c.log << "text " << txt << "\n";
		s = isl_set_intersect_params(s, dom.c());
		Set st = R(c, s, "build");
		g.ctx = "set " + S(st) + "\n";
		PMA p = R(c, c.t.chance(1, 2) ? isl_pw_multi_aff_from_set(st.c()) : isl_set_as_pw_multi_aff(st.c()), "isl_pw_multi_aff_from_set");
		FFun f = fn(c, p.g());
		check_fn(c, "isl_pw_multi_aff_from_set", f, np, 0, sp.no(), [&](const Pt &q) { if (!dm.has(q)) return none(sp.no()); VV v; for (auto &e : es) v.push_back(fval(e.eval(q))); return v; }, g.ctx + "result " + S(p), 200);
		Set back = R(c, isl_pw_multi_aff_as_set(p.r()), "isl_pw_multi_aff_as_set");
		if (!B(c, isl_set_is_equal(back.g(), st.g()), "eq")) c.fail("isl_pw_multi_aff_as_set", g.ctx + S(back));
		break; }
	case 4: { // between representations
		F r;
		r.sp = sp;
		if (kind == 0) { if (c.t.chance(1, 2)) r = mk(c, sp, R(c, isl_multi_aff_to_pw_multi_aff(a.ma.c()), "to")); else r = mk(c, sp, R(c, isl_multi_aff_to_multi_pw_aff(a.ma.c()), "to")); }
		else if (kind == 1) r = mk(c, sp, R(c, isl_pw_multi_aff_to_multi_pw_aff(a.pma.c()), "to"));
		else r = mk(c, sp, R(c, isl_pw_multi_aff_from_multi_pw_aff(a.mpa.c()), "from"));
		g.chk(kind == 0 ? "isl_multi_aff_to_*" : kind == 1 ? "isl_pw_multi_aff_to_multi_pw_aff" : "isl_pw_multi_aff_from_multi_pw_aff", r, [&](const Pt &p) { return kind == 2 && !a.def(p) ? none(sp.no()) : a.ev(p); });
		break; }
	case 5: { if (kind == 0) return;
		bool isa = B(c, kind == 1 ? isl_pw_multi_aff_isa_multi_aff(a.pma.g()) : isl_multi_pw_aff_isa_multi_aff(a.mpa.g()), "isa");
		if (isa) { F r = mk(c, sp, R(c, kind == 1 ? isl_pw_multi_aff_as_multi_aff(a.pma.c()) : isl_multi_pw_aff_as_multi_aff(a.mpa.c()), "as")); g.chk(N_("as_multi_aff"), r, [&](const Pt &p) { return a.ev(p); }); }
		break; }
	case 6: { // images through the function agree with images through its graph
		if (kind != 1) return;
		Set s = g.dom_set(sp); g.ctx += "set " + S(s) + "\n";
		Map m = R(c, isl_pw_multi_aff_as_map(a.pma.c()), "as_map");
		Set x = R(c, isl_set_apply(s.c(), m.c()), "apply"), y = R(c, isl_map_range(isl_map_intersect_domain(m.c(), s.c())), "range");
		if (!B(c, isl_set_is_equal(x.g(), y.g()), "eq")) c.fail("isl_set_apply", g.ctx);
		PMA q = R(c, isl_pw_multi_aff_intersect_domain(a.pma.c(), s.c()), "i");
		Map m2 = R(c, isl_map_from_pw_multi_aff(q.c()), "m"), m3 = R(c, isl_map_intersect_domain(m.c(), s.c()), "m");
		if (!B(c, isl_map_is_equal(m2.g(), m3.g()), "eq")) c.fail("isl_pw_multi_aff_intersect_domain", "graph mismatch\n" + g.ctx);
		c.label("graph image");
		break; }
	default: { // projections and identities
		F r; int w = c.t.below(7);
		Space ms(mk_space(c, sp)), ds(mk_space(c, set_sp(sp, sp.in)));
		g.ctx = "space " + S(ms) + "\n";
		if (w == 0) { r.sp = map_sp(sp, wrap_tup(sp.in, sp.out), sp.in); r = mk(c, r.sp, R(c, isl_multi_aff_domain_map(ms.c()), "dm")); g.chk("isl_multi_aff_domain_map", r, [&](const Pt &p) { VV v; for (int i = 0; i < ni; ++i) v.push_back(fval(Z(p[np + i]))); return v; }); }
		else if (w == 1) { r.sp = map_sp(sp, wrap_tup(sp.in, sp.out), sp.out); r = mk(c, r.sp, R(c, isl_multi_aff_range_map(ms.c()), "rm")); g.chk("isl_multi_aff_range_map", r, [&](const Pt &p) { VV v; for (int i = 0; i < sp.no(); ++i) v.push_back(fval(Z(p[np + ni + i]))); return v; }); }
		else if (w == 2) { r.sp = map_sp(sp, sp.in, sp.in); int k = c.t.below(3); if (k == 0) r = mk(c, r.sp, R(c, isl_multi_aff_identity_on_domain_space(ds.c()), "id")); else if (k == 1) r = mk(c, r.sp, R(c, isl_pw_multi_aff_identity_on_domain_space(ds.c()), "id")); else r = mk(c, r.sp, R(c, isl_multi_pw_aff_identity_on_domain_space(ds.c()), "id"));
			g.chk("identity_on_domain_space", r, [&](const Pt &p) { VV v; for (int i = 0; i < ni; ++i) v.push_back(fval(Z(p[np + i]))); return v; }); }
		else if (w == 3) { if (!ni || !sp.in.sub.empty()) return; int f = c.t.below(ni), n = c.t.below(ni - f + 1); bool pw = c.t.chance(1, 2);
			r.sp = map_sp(sp, sp.in, flat_tup(ni - n));
			if (pw) r = mk(c, r.sp, R(c, isl_pw_multi_aff_project_out_map(ds.c(), isl_dim_set, f, n), "po")); else r = mk(c, r.sp, R(c, isl_multi_aff_project_out_map(ds.c(), isl_dim_set, f, n), "po"));
			check_fn(c, "project_out_map", r.f, np, ni, ni - n, [&](const Pt &p) { VV v; for (int i = 0; i < ni; ++i) if (i < f || i >= f + n) v.push_back(fval(Z(p[np + i]))); return v; }, g.ctx + ints({f, n}) + r.s(), 100); }
		else if (w == 4) { std::vector<mpq_class> q; auto mv = gen_mv(c, sp, q, false, false);
			Set s = g.dom_set(sp); MMap m = extract(c, s.g()); r.sp = sp;
			r = mk(c, sp, R(c, isl_pw_multi_aff_multi_val_on_domain(s.r(), mv.r()), "mvd")); g.chk("isl_pw_multi_aff_multi_val_on_domain", r, [&](const Pt &p) { if (!m.has(p)) return none(sp.no()); VV v; for (auto &x : q) v.push_back(fval(x)); return v; }); }
		else if (w == 5) { if (kind != 0) return; std::vector<mpq_class> q; auto mv = gen_mv(c, sp, q, false, false); r.sp = sp; r = mk(c, sp, R(c, isl_multi_aff_multi_val_on_domain_space(ds.c(), mv.r()), "mvs")); g.chk("isl_multi_aff_multi_val_on_domain_space", r, [&](const Pt &) { VV v; for (auto &x : q) v.push_back(fval(x)); return v; });
			H<isl_multi_val> cv(isl_multi_aff_get_constant_multi_val(r.ma.g())); for (int i = 0; i < sp.no(); ++i) if (take_rat(c, isl_multi_val_get_at(cv.g(), i)) != q[i]) c.fail("isl_multi_aff_get_constant_multi_val", g.ctx); }
		else { F z; z.sp = sp; if (kind == 0) r = mk(c, sp, R(c, isl_multi_aff_zero(ms.c()), "z")); else if (kind == 1) r = mk(c, sp, R(c, isl_pw_multi_aff_zero(ms.c()), "z")); else r = mk(c, sp, R(c, isl_multi_pw_aff_zero(ms.c()), "z")); g.chk("zero", r, [&](const Pt &) { return VV(sp.no(), fval(0)); }, "", 60); }
		break; }
	}
}

// operations that turn dimensions into parameters and back
H<isl_multi_id> gen_mid(Case &c, const Tup &t, const Sp &sp, std::vector<std::string> &names, bool may_exist)
{
	isl_id_list *l = isl_id_list_alloc(c.ctx, t.dim());
	for (int i = 0; i < t.dim(); ++i) {
		std::string n = "X" + std::to_string(i);
		if (may_exist && sp.np() && c.t.chance(1, 4)) n = sp.params[c.t.below(sp.np())];
		else if (may_exist && i && c.t.chance(1, 8)) n = names[c.t.below(i)];
		names.push_back(n);
		l = isl_id_list_add(l, isl_id_alloc(c.ctx, n.c_str(), nullptr));
	}
	return R(c, isl_multi_id_from_id_list(mk_space(c, set_sp(sp, t)), l), "isl_multi_id_from_id_list");
}
void binding(G &g)
{
	Case &c = g.c;
	Sp sp = gen_map_space(c, 2, 2, 2, true);
	int kind = c.t.weighted({2, 3, 3});
	int np = sp.np(), ni = sp.ni(), no = sp.no();
	switch (c.t.below(5)) {
	case 0: case 1: { // bind: where the outputs equal the bound parameters
		if (kind == 1) kind = 2;
		F a = gen(c, sp, kind); g.in(a);
		std::vector<std::string> nm; auto mid = gen_mid(c, sp.out, sp, nm, true);
		std::vector<std::string> all = sp.params;
		std::string ids; for (auto &n : nm) { ids += n + " "; if (std::find(all.begin(), all.end(), n) == all.end()) all.push_back(n); }
		Set s = R(c, kind == 0 ? isl_set_from_basic_set(isl_multi_aff_bind(a.ma.c(), mid.r())) : isl_multi_pw_aff_bind(a.mpa.c(), mid.r()), "bind");
		Sp want = set_sp(sp, sp.in); want.params = all;
		s = R(c, isl_set_align_params(s.r(), isl_space_params(mk_space(c, want))), "align");
		if (no == 0) { want.params = sp.params; }
		check(c, N_("bind").c_str(), s, want, [&](const Pt &p) {
			int n = want.np(); Pt q = cat(sub(p, 0, np), sub(p, n, ni));
			if (!a.def(q)) return false;
			if (no == 0) return true;
			VV v = a.ev(q);
			for (int i = 0; i < no; ++i) { int k = std::find(all.begin(), all.end(), nm[i]) - all.begin(); if (v[i] != fval(Z(p[k]))) return false; }
			return true; }, g.ctx + "ids " + ids);
		break; }
	case 2: { // bind_domain: domain dimensions become parameters
		F a = gen(c, sp, kind); g.in(a);
		std::vector<std::string> nm; auto mid = gen_mid(c, sp.in, sp, nm, c.t.chance(1, 3));
		bool dup = false; for (size_t i = 0; i < nm.size(); ++i) for (size_t j = 0; j < i; ++j) dup = dup || nm[i] == nm[j];
		if (dup) return; // the identifiers of a parameter tuple are distinct
		std::vector<std::string> all = sp.params; std::string ids;
		for (auto &n : nm) { ids += n + " "; if (std::find(all.begin(), all.end(), n) == all.end()) all.push_back(n); }
		Sp want; want.params = all; want.out = sp.out;
		isl_multi_id *t = mid.r();
		Space al(isl_space_params(mk_space(c, want)));
		FFun f; std::string rs;
		if (kind == 0) { MAff m = R(c, isl_multi_aff_align_params(isl_multi_aff_bind_domain(a.ma.c(), t), al.c()), "bd"); f = fn(c, m.g()); rs = S(m); }
		else if (kind == 1) { PMA m = R(c, isl_pw_multi_aff_align_params(isl_pw_multi_aff_bind_domain(a.pma.c(), t), al.c()), "bd"); f = fn(c, m.g()); rs = S(m); }
		else { MPA m = R(c, isl_multi_pw_aff_align_params(isl_multi_pw_aff_bind_domain(a.mpa.c(), t), al.c()), "bd"); f = fn(c, m.g()); rs = S(m); }
		check_fn(c, N_("bind_domain").c_str(), f, all.size(), 0, no, [&](const Pt &p) {
			Pt q = sub(p, 0, np);
			for (auto &n : nm) q.push_back(p[std::find(all.begin(), all.end(), n) - all.begin()]);
			return a.ev(q); }, g.ctx + "bind_domain " + ids + "\nresult " + rs, 250);
		break; }
	case 3: { // insert_domain: function of the parameters only becomes a function on any domain
		Sp ps = sp; ps.in = Tup();
		Tup nd = sp.in;
		// parameter-domain function through bind_domain of a generated function with zero inputs
		Sp z = map_sp(sp, mk_tup("", 0), sp.out);
		F a = gen(c, z, kind); g.in(a);
		isl_multi_id *e = isl_multi_id_from_id_list(mk_space(c, set_sp(sp, mk_tup("", 0))), isl_id_list_alloc(c.ctx, 0));
		Space ds(mk_space(c, set_sp(sp, nd)));
		F r; r.sp = map_sp(sp, nd, sp.out);
		if (kind == 0) r = mk(c, r.sp, R(c, isl_multi_aff_insert_domain(isl_multi_aff_bind_domain(a.ma.c(), e), ds.c()), "insd"));
		else if (kind == 1) r = mk(c, r.sp, R(c, isl_pw_multi_aff_insert_domain(isl_pw_multi_aff_bind_domain(a.pma.c(), e), ds.c()), "insd"));
		else r = mk(c, r.sp, R(c, isl_multi_pw_aff_insert_domain(isl_multi_pw_aff_bind_domain(a.mpa.c(), e), ds.c()), "insd"));
		g.chk(N_("insert_domain"), r, [&](const Pt &p) { return a.ev(sub(p, 0, np)); });
		break; }
	default: { // unbind_params_insert_domain: parameters become domain dimensions
		if (kind == 1) kind = 2;
		Sp z = map_sp(sp, mk_tup("", 0), sp.out);
		F a = gen(c, z, kind); g.in(a);
		isl_multi_id *e = isl_multi_id_from_id_list(mk_space(c, set_sp(sp, mk_tup("", 0))), isl_id_list_alloc(c.ctx, 0));
		// choose the parameters to unbind (also unused ones)
		std::vector<std::string> nm; isl_id_list *l = isl_id_list_alloc(c.ctx, 2);
		for (auto &n : sp.params) if (c.t.chance(1, 2)) nm.push_back(n);
		if (c.t.chance(1, 3)) nm.push_back("Q");
		if (nm.size() > 1 && c.t.chance(1, 2)) std::swap(nm[0], nm[1]);
		std::string ids; for (auto &n : nm) { ids += n + " "; l = isl_id_list_add(l, isl_id_alloc(c.ctx, n.c_str(), nullptr)); }
		Sp os; os.out = mk_tup("D", nm.size());
		isl_multi_id *mid = isl_multi_id_from_id_list(mk_space(c, os), l);
		Sp rs; rs.is_map = true; rs.in = os.out; rs.out = sp.out;
		for (auto &n : sp.params) if (std::find(nm.begin(), nm.end(), n) == nm.end()) rs.params.push_back(n);
		F r; r.sp = rs;
		if (kind == 0) r = mk(c, rs, R(c, isl_multi_aff_unbind_params_insert_domain(isl_multi_aff_bind_domain(a.ma.c(), e), mid), "ubp"));
		else r = mk(c, rs, R(c, isl_multi_pw_aff_unbind_params_insert_domain(isl_multi_pw_aff_bind_domain(a.mpa.c(), e), mid), "ubp"));
		g.chk(N_("unbind_params_insert_domain"), r, [&](const Pt &p) {
			Pt q; for (auto &n : sp.params) { auto it = std::find(nm.begin(), nm.end(), n); if (it != nm.end()) q.push_back(p[rs.np() + (it - nm.begin())]); else q.push_back(p[std::find(rs.params.begin(), rs.params.end(), n) - rs.params.begin()]); }
			return a.ev(q); }, ids);
		break; }
	}
}
void run(Case &c)
{
	G g(c);
	switch (c.t.weighted({5, 4, 5, 5, 6, 3})) {
	case 0: arith(g); break;
	case 1: products(g); break;
	case 2: compose(g); break;
	case 3: restrict_(g); break;
	case 4: convert(g); break;
	default: binding(g); break;
	}
}
}
Prop vp::the_prop = {"C10", "Random quasi-affine multi_aff / pw_multi_aff / multi_pw_aff over random (nested, parametric) spaces; every operation is compared point by point (per component where components are independent) with composition/arithmetic on extracted values; relations, sets, binding and domain insertion included; non-trivial: at least two different values in the window.", run, 60000, 3000000};
