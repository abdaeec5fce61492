#include "poly.h"

namespace vp {
PV operator+(const PV &a, const PV &b)
{
	if (a.k == 2 || b.k == 2 || (a.k && b.k && a.k != b.k)) return pspec(2);
	if (a.k || b.k) return pspec(a.k ? a.k : b.k);
	return pval(a.v + b.v);
}
PV operator*(const PV &a, const PV &b)
{
	if (a.k == 2 || b.k == 2) return pspec(2);
	if (!a.k && !b.k) return pval(a.v * b.v);
	int s = (a.k ? a.k : sgn(a.v)) * (b.k ? b.k : sgn(b.v));
	return pspec(s == 0 ? 2 : s);
}
PV neg(const PV &a) { return a.k == 0 ? pval(-a.v) : a.k == 2 ? a : pspec(-a.k); }
bool pless(const PV &a, const PV &b) { if (a.k || b.k) return a.k < b.k; return a.v < b.v; }
std::string str(const PV &v) { return v.k == 0 ? v.v.get_str() : v.k == 2 ? "NaN" : v.k > 0 ? "infty" : "-infty"; }
PV take_pv(Case &c, isl_val *v)
{
	if (!v) on_error(c, "value");
	PV r;
	if (isl_val_is_nan(v) == isl_bool_true) r.k = 2;
	else if (isl_val_is_infty(v) == isl_bool_true) r.k = 1;
	else if (isl_val_is_neginfty(v) == isl_bool_true) r.k = -1;
	else { r.v = mpq_class(val_num(v), val_den(v)); r.v.canonicalize(); }
	isl_val_free(v);
	return r;
}
static mpq_class ipow(mpq_class b, int e) { mpq_class r = 1; while (e-- > 0) r *= b; return r; }
PV FPoly::eval(const Pt &p) const
{
	if (k) return pspec(k);
	std::vector<mpq_class> x;
	for (int i = 0; i < nvar; ++i) x.push_back(Z(p[i]));
	for (auto &d : divs) { FV v = d.eval(p); x.push_back(mpq_class(fdiv(v.v.get_num(), v.v.get_den()))); }
	mpq_class s = 0;
	for (auto &q : t) {
		mpq_class m = q.coef;
		for (size_t i = 0; i < q.e.size(); ++i) if (q.e[i]) m *= ipow(x[i], q.e[i]);
		s += m;
	}
	return pval(s);
}
FPoly fn_poly(Case &c, isl_qpolynomial *q)
{
	FPoly f;
	if (!q) on_error(c, "fn_poly");
	isl_space *sp = isl_qpolynomial_get_domain_space(q);
	int np = N(c, isl_space_dim(sp, isl_dim_param), "dim");
	int ns = isl_space_is_params(sp) == isl_bool_true ? 0 : N(c, isl_space_dim(sp, isl_dim_set), "dim");
	isl_space_free(sp);
	f.nvar = np + ns;
	if (B(c, isl_qpolynomial_is_nan(q), "is_nan")) { f.k = 2; return f; }
	if (B(c, isl_qpolynomial_is_infty(q), "is_infty")) { f.k = 1; return f; }
	if (B(c, isl_qpolynomial_is_neginfty(q), "is_neginfty")) { f.k = -1; return f; }
	struct U { Case *c; FPoly *f; int np, ns; bool first = true; std::string err; } u{&c, &f, np, ns};
	isl_stat st = isl_qpolynomial_foreach_term(q, [](isl_term *t, void *p) -> isl_stat {
		U &u = *(U *)p;
		PTerm r;
		isl_val *v = isl_term_get_coefficient_val(t);
		if (v && isl_val_is_rat(v) == isl_bool_true) { r.coef = mpq_class(val_num(v), val_den(v)); r.coef.canonicalize(); }
		else u.err = "coefficient of a term is not a rational number";
		isl_val_free(v);
		int nd = isl_term_dim(t, isl_dim_div);
		if ((int)isl_term_dim(t, isl_dim_param) != u.np || (int)isl_term_dim(t, isl_dim_set) != u.ns) u.err = "dimensions of a term";
		else {
			for (int i = 0; i < u.np; ++i) r.e.push_back(isl_term_get_exp(t, isl_dim_param, i));
			for (int i = 0; i < u.ns; ++i) r.e.push_back(isl_term_get_exp(t, isl_dim_set, i));
			for (int i = 0; i < nd; ++i) r.e.push_back(isl_term_get_exp(t, isl_dim_div, i));
			for (int e : r.e) if (e < 0) u.err = "negative exponent";
		}
		if (u.first) for (int i = 0; i < nd; ++i) { Aff a(isl_term_get_div(t, i)); if (!a) { u.err = "isl_term_get_div"; break; } u.f->divs.push_back(fn_aff(*u.c, a.g())); }
		u.first = false;
		isl_term_free(t);
		u.f->t.push_back(r);
		return isl_stat_ok;
	}, &u);
	if (st < 0) on_error(c, "isl_qpolynomial_foreach_term");
	if (!u.err.empty()) c.fail("isl_qpolynomial_foreach_term", u.err);
	return f;
}
PV FPW::eval(const Pt &p0, int *n) const
{
	PV r; int k = 0;
	for (auto &x : p) if (x.dom.has(p0)) { if (!k) r = x.q.eval(p0); k++; if (!n) break; }
	if (n) *n = k;
	return r;
}
FPW fn_pw(Case &c, isl_pw_qpolynomial *p)
{
	FPW f;
	if (!p) on_error(c, "fn_pw");
	std::vector<std::pair<Set, QP>> ps;
	if (isl_pw_qpolynomial_foreach_piece(p, [](isl_set *s, isl_qpolynomial *q, void *v) -> isl_stat {
		((std::vector<std::pair<Set, QP>> *)v)->push_back({Set(s), QP(q)}); return isl_stat_ok; }, &ps) < 0) on_error(c, "isl_pw_qpolynomial_foreach_piece");
	for (auto &x : ps) f.p.push_back({extract(c, x.first.g()), fn_poly(c, x.second.g())});
	return f;
}
mpq_class PE::eval(const Pt &p) const
{
	switch (k) {
	case LEAF: return q.eval(p);
	case CST: return f;
	case ADD: return ch[0].eval(p) + ch[1].eval(p);
	case SUB: return ch[0].eval(p) - ch[1].eval(p);
	case MUL: return ch[0].eval(p) * ch[1].eval(p);
	case POW: return ipow(ch[0].eval(p), n);
	default: return f * ch[0].eval(p);
	}
}
std::string PE::text(const std::vector<std::string> &nm) const
{
	switch (k) {
	case LEAF: return q.text(nm);
	case CST: return f.get_str();
	case ADD: return "(" + ch[0].text(nm) + " + " + ch[1].text(nm) + ")";
	case SUB: return "(" + ch[0].text(nm) + " - " + ch[1].text(nm) + ")";
	case MUL: return "(" + ch[0].text(nm) + " * " + ch[1].text(nm) + ")";
	case POW: return "(" + ch[0].text(nm) + ")^" + std::to_string(n);
	default: return f.get_str() + " * (" + ch[0].text(nm) + ")";
	}
}
QP PE::build(Case &c, isl_space *dom) const
{
	switch (k) {
	case LEAF:
		if (q.k == QE::VAR && c.t.chance(1, 2)) {
			int np = isl_space_dim(dom, isl_dim_param);
			return R(c, isl_qpolynomial_var_on_domain(isl_space_copy(dom), q.var < np ? isl_dim_param : isl_dim_set, q.var < np ? q.var : q.var - np), "isl_qpolynomial_var_on_domain");
		}
		return R(c, isl_qpolynomial_from_aff(q.build_aff(c, dom)), "isl_qpolynomial_from_aff");
	case CST:
		if (f == 0 && c.t.chance(1, 2)) return R(c, isl_qpolynomial_zero_on_domain(isl_space_copy(dom)), "isl_qpolynomial_zero_on_domain");
		if (f == 1 && c.t.chance(1, 2)) return R(c, isl_qpolynomial_one_on_domain(isl_space_copy(dom)), "isl_qpolynomial_one_on_domain");
		return R(c, isl_qpolynomial_val_on_domain(isl_space_copy(dom), mkrat(c.ctx, f)), "isl_qpolynomial_val_on_domain");
	case ADD: { QP a = ch[0].build(c, dom), b = ch[1].build(c, dom); return R(c, isl_qpolynomial_add(a.r(), b.r()), "isl_qpolynomial_add"); }
	case SUB: { QP a = ch[0].build(c, dom), b = ch[1].build(c, dom); return R(c, isl_qpolynomial_sub(a.r(), b.r()), "isl_qpolynomial_sub"); }
	case MUL: { QP a = ch[0].build(c, dom), b = ch[1].build(c, dom); return R(c, isl_qpolynomial_mul(a.r(), b.r()), "isl_qpolynomial_mul"); }
	case POW: { QP a = ch[0].build(c, dom); return R(c, isl_qpolynomial_pow(a.r(), n), "isl_qpolynomial_pow"); }
	default: {
		QP a = ch[0].build(c, dom);
		if (f == -1 && c.t.chance(1, 2)) return R(c, isl_qpolynomial_neg(a.r()), "isl_qpolynomial_neg");
		if (f != 0 && c.t.chance(1, 2)) return R(c, isl_qpolynomial_scale_down_val(a.r(), mkrat(c.ctx, 1 / f)), "isl_qpolynomial_scale_down_val");
		return R(c, isl_qpolynomial_scale_val(a.r(), mkrat(c.ctx, f)), "isl_qpolynomial_scale_val"); }
	}
}
static bool has_floor(const QE &e)
{
	if (e.k == QE::FLOORD || e.k == QE::CEILD || e.k == QE::MOD) return true;
	for (auto &x : e.ch) if (has_floor(x)) return true;
	return false;
}
static mpq_class gen_q(Case &c)
{
	mpq_class q(c.t.chance(1, 12) ? mpz_class("1234567890123456789") : mpz_class(c.t.range(-5, 5)), 1 + (int)c.t.below(4));
	q.canonicalize();
	return q;
}
PE gen_pe(Case &c, int nv, int depth, bool div)
{
	PE e;
	int kind = depth <= 0 ? c.t.weighted({3, 1}) : c.t.weighted({2, 1, 3, 1, 4, 1, 2});
	switch (kind) {
	case 0:
		e.k = PE::LEAF;
		e.q = gen_qe(c, nv, c.t.below(3));
		if (!div && has_floor(e.q)) { e.q = QE(); if (nv) { e.q.k = QE::VAR; e.q.var = c.t.below(nv); } else e.q.c = c.t.range(-4, 4); }
		break;
	case 1: e.k = PE::CST; e.f = gen_q(c); break;
	case 2: case 3: case 4: e.k = kind == 2 ? PE::ADD : kind == 3 ? PE::SUB : PE::MUL; e.ch.push_back(gen_pe(c, nv, depth - 1, div)); e.ch.push_back(gen_pe(c, nv, depth - 1, div)); break;
	case 5: e.k = PE::POW; e.n = c.t.below(4); e.ch.push_back(gen_pe(c, nv, depth - 1, div)); break;
	default: e.k = PE::SCALE; e.f = gen_q(c); e.ch.push_back(gen_pe(c, nv, depth - 1, div)); break;
	}
	return e;
}
PWQ gen_pwq(Case &c, const Sp &dom, std::vector<PMod> &model, const GenOpt &o, int max_piece, bool div, int depth)
{
	int n = 1 + c.t.below(max_piece);
	Space sp(mk_space(c, dom));
	PWQ r = R(c, isl_pw_qpolynomial_zero(isl_space_add_dims(isl_space_from_domain(sp.c()), isl_dim_out, 1)), "isl_pw_qpolynomial_zero");
	std::vector<Set> used;
	for (int i = 0; i < n; ++i) {
		Set s = c.t.chance(1, 6) && !o.bounded ? R(c, isl_set_universe(sp.c()), "universe") : gen_set(c, dom, o, false);
		for (auto &u : used) s = R(c, isl_set_subtract(s.r(), u.c()), "isl_set_subtract");
		used.push_back(s);
		PMod m; m.dom = extract(c, s.g()); m.e = gen_pe(c, dom.np() + dom.no(), depth, div);
		QP q = m.e.build(c, sp.g());
		model.push_back(m);
		PWQ p = R(c, isl_pw_qpolynomial_alloc(s.c(), q.r()), "isl_pw_qpolynomial_alloc");
		r = R(c, isl_pw_qpolynomial_add_disjoint(r.r(), p.r()), "isl_pw_qpolynomial_add_disjoint");
	}
	return r;
}
PV eval(const std::vector<PMod> &m, const Pt &p) { for (auto &x : m) if (x.dom.has(p)) return pval(x.e.eval(p)); return PV(); }
std::string text(const std::vector<PMod> &m, const Sp &dom)
{
	std::string s;
	for (auto &x : m) s += "  " + x.e.text(var_names(dom)) + " on " + str(x.dom) + "\n";
	return s;
}
Point mk_point(Case &c, isl_space *sp, int np, const Pt &p)
{
	Point r = R(c, isl_point_zero(sp), "isl_point_zero");
	for (size_t i = 0; i < p.size(); ++i) r = R(c, isl_point_set_coordinate_val(r.r(), (int)i < np ? isl_dim_param : isl_dim_set, (int)i < np ? i : i - np, isl_val_int_from_si(c.ctx, p[i])), "set_coordinate");
	return r;
}
} // namespace vp
