#include "fn.h"
#include <algorithm>

namespace vp {

std::string str(const FV &v) { return v.st == 0 ? "undefined" : v.st == 2 ? "NaN" : v.v.get_str(); }
std::string str(const std::vector<FV> &v)
{
	std::string s = "[";
	for (size_t i = 0; i < v.size(); ++i) { if (i) s += ", "; s += str(v[i]); }
	return s + "]";
}

FV FAff::eval(const Pt &p) const
{
	if (nan) return fnan();
	std::vector<mpz_class> x(nvar + divs.size());
	for (int i = 0; i < nvar; ++i) x[i] = Z(p[i]);
	for (size_t i = 0; i < divs.size(); ++i) {
		mpz_class s = divs[i].num[0];
		for (size_t j = 0; j < x.size(); ++j) if (divs[i].num[1 + j] != 0) s += divs[i].num[1 + j] * x[j];
		x[nvar + i] = fdiv(s, divs[i].den);
	}
	mpz_class s = num[0];
	for (size_t j = 0; j < x.size(); ++j) if (num[1 + j] != 0) s += num[1 + j] * x[j];
	mpq_class q(s, den);
	q.canonicalize();
	return fval(q);
}
const FPiece *FPA::at(const Pt &pt, int *n) const
{
	const FPiece *r = nullptr;
	int k = 0;
	for (auto &q : p) if (q.dom.has(pt)) { if (!r) r = &q; k++; if (!n) break; }
	if (n) *n = k;
	return r;
}
bool FFun::def(const Pt &p) const
{
	if (has_expl && !expl.has(p)) return false;
	for (auto &q : comp) if (!q.at(p)) return false;
	return true;
}
std::vector<FV> FFun::eval(const Pt &p) const
{
	std::vector<FV> r(nout);
	if (has_expl && !expl.has(p)) return r;
	if (!per_comp) {
		const FPiece *q = comp[0].at(p);
		if (q) for (int i = 0; i < nout; ++i) r[i] = q->a[i].eval(p);
	} else
		for (int i = 0; i < nout; ++i) { const FPiece *q = comp[i].at(p); if (q) r[i] = q->a[0].eval(p); }
	return r;
}
bool FFun::ambiguous(const Pt &p) const
{
	for (auto &q : comp) { int n; q.at(p, &n); if (n > 1) return true; }
	return false;
}

static mpq_class q_of(Case &c, isl_val *v)
{
	if (!v) on_error(c, "coefficient");
	mpq_class q(val_num(v), val_den(v));
	isl_val_free(v);
	q.canonicalize();
	return q;
}
static void aff_row(Case &c, isl_aff *a, int nvar, int ndiv, ZRow &num, mpz_class &den)
{
	int np = N(c, isl_aff_dim(a, isl_dim_param), "dim"), ni = N(c, isl_aff_dim(a, isl_dim_in), "dim"), nd = N(c, isl_aff_dim(a, isl_dim_div), "dim");
	isl_val *dv = isl_aff_get_denominator_val(a);
	if (!dv) on_error(c, "isl_aff_get_denominator_val");
	den = val_num(dv);
	isl_val_free(dv);
	num.assign(1 + nvar + ndiv, 0);
	auto put = [&](int pos, isl_val *v) {
		mpq_class q = q_of(c, v) * den;
		if (q.get_den() != 1) c.fail("aff-denominator", "coefficient not a multiple of 1/denominator");
		num[pos] = q.get_num();
	};
	put(0, isl_aff_get_constant_val(a));
	for (int i = 0; i < np; ++i) put(1 + i, isl_aff_get_coefficient_val(a, isl_dim_param, i));
	for (int i = 0; i < ni; ++i) put(1 + np + i, isl_aff_get_coefficient_val(a, isl_dim_in, i));
	for (int i = 0; i < nd && i < ndiv; ++i) put(1 + nvar + i, isl_aff_get_coefficient_val(a, isl_dim_div, i));
}
FAff fn_aff(Case &c, isl_aff *a)
{
	FAff f;
	if (!a) on_error(c, "fn_aff");
	int np = N(c, isl_aff_dim(a, isl_dim_param), "dim"), ni = N(c, isl_aff_dim(a, isl_dim_in), "dim"), nd = N(c, isl_aff_dim(a, isl_dim_div), "dim");
	f.nvar = np + ni;
	f.num.assign(1 + f.nvar + nd, 0);
	isl_bool nan = isl_aff_is_nan(a);
	if (nan == isl_bool_error) on_error(c, "isl_aff_is_nan");
	if (nan) { f.nan = true; return f; }
	f.divs.resize(nd);
	for (int i = 0; i < nd; ++i) {
		Aff d(isl_aff_get_div(a, i));
		if (!d) on_error(c, "isl_aff_get_div");
		f.divs[i].known = true;
		aff_row(c, d.g(), f.nvar, nd, f.divs[i].num, f.divs[i].den);
	}
	aff_row(c, a, f.nvar, nd, f.num, f.den);
	return f;
}
static FFun single(Case &c, isl_space *dom, int nout)
{
	FFun f;
	f.np = isl_space_dim(dom, isl_dim_param);
	f.nin = isl_space_is_params(dom) == isl_bool_true ? 0 : isl_space_dim(dom, isl_dim_set);
	f.nout = nout;
	isl_space_free(dom);
	return f;
}
static MMap univ(int np, int ns) { MMap m(np, 0, ns); MBasic b; b.nvar = np + ns; m.d.push_back(b); return m; }
FFun fn(Case &c, isl_aff *a)
{
	FFun f = single(c, isl_aff_get_domain_space(a), 1);
	f.comp.resize(1);
	f.comp[0].p.push_back({univ(f.np, f.nin), {fn_aff(c, a)}});
	return f;
}
FFun fn(Case &c, isl_pw_aff *a)
{
	if (!a) on_error(c, "fn");
	FFun f = single(c, isl_pw_aff_get_domain_space(a), 1);
	f.comp.resize(1);
	struct U { Case *c; FFun *f; std::string err; } u{&c, &f};
	std::vector<std::pair<Set, Aff>> ps;
	isl_pw_aff_foreach_piece(a, [](isl_set *s, isl_aff *q, void *v) -> isl_stat {
		((std::vector<std::pair<Set, Aff>> *)v)->push_back({Set(s), Aff(q)}); return isl_stat_ok; }, &ps);
	for (auto &p : ps) f.comp[0].p.push_back({extract(c, p.first.g()), {fn_aff(c, p.second.g())}});
	return f;
}
static std::vector<FAff> mrow(Case &c, isl_multi_aff *m)
{
	std::vector<FAff> r;
	int n = N(c, isl_multi_aff_size(m), "size");
	for (int i = 0; i < n; ++i) { Aff a(isl_multi_aff_get_at(m, i)); r.push_back(fn_aff(c, a.g())); }
	return r;
}
FFun fn(Case &c, isl_multi_aff *m)
{
	if (!m) on_error(c, "fn");
	FFun f = single(c, isl_multi_aff_get_domain_space(m), N(c, isl_multi_aff_size(m), "size"));
	f.comp.resize(1);
	f.comp[0].p.push_back({univ(f.np, f.nin), mrow(c, m)});
	return f;
}
FFun fn(Case &c, isl_pw_multi_aff *m)
{
	if (!m) on_error(c, "fn");
	FFun f = single(c, isl_pw_multi_aff_get_domain_space(m), N(c, isl_pw_multi_aff_dim(m, isl_dim_out), "dim"));
	f.comp.resize(1);
	std::vector<std::pair<Set, MAff>> ps;
	isl_pw_multi_aff_foreach_piece(m, [](isl_set *s, isl_multi_aff *q, void *v) -> isl_stat {
		((std::vector<std::pair<Set, MAff>> *)v)->push_back({Set(s), MAff(q)}); return isl_stat_ok; }, &ps);
	for (auto &p : ps) f.comp[0].p.push_back({extract(c, p.first.g()), mrow(c, p.second.g())});
	return f;
}
FFun fn(Case &c, isl_multi_pw_aff *m)
{
	if (!m) on_error(c, "fn");
	FFun f = single(c, isl_multi_pw_aff_get_domain_space(m), N(c, isl_multi_pw_aff_size(m), "size"));
	f.per_comp = true;
	f.comp.resize(f.nout);
	for (int i = 0; i < f.nout; ++i) {
		PwAff a(isl_multi_pw_aff_get_at(m, i));
		FFun g = fn(c, a.g());
		f.comp[i] = g.comp[0];
	}
	if (f.nout == 0) {
		Set d = R(c, isl_multi_pw_aff_domain(isl_multi_pw_aff_copy(m)), "isl_multi_pw_aff_domain");
		f.has_expl = true;
		f.expl = extract(c, d.g());
	}
	return f;
}

// ------------------------------------------------------------------ expressions
bool QE::affine() const
{
	if (k == MIN || k == MAX || k == COND) return false;
	for (auto &x : ch) if (!x.affine()) return false;
	return true;
}
std::string QE::text(const std::vector<std::string> &n) const
{
	switch (k) {
	case CST: return c < 0 ? "(" + c.get_str() + ")" : c.get_str();
	case VAR: return n[var];
	case ADD: return "(" + ch[0].text(n) + " + " + ch[1].text(n) + ")";
	case SUB: return "(" + ch[0].text(n) + " - " + ch[1].text(n) + ")";
	case MULC: return c.get_str() + " * " + ch[0].text(n);
	case FLOORD: return "floor((" + ch[0].text(n) + ")/" + c.get_str() + ")";
	case CEILD: return "ceil((" + ch[0].text(n) + ")/" + c.get_str() + ")";
	case MOD: return "((" + ch[0].text(n) + ") mod " + c.get_str() + ")";
	case NEG: return "(-" + ch[0].text(n) + ")";
	case MIN: return "min(" + ch[0].text(n) + ", " + ch[1].text(n) + ")";
	case MAX: return "max(" + ch[0].text(n) + ", " + ch[1].text(n) + ")";
	case COND: return "(" + ch[0].text(n) + " >= 0 ? " + ch[1].text(n) + " : " + ch[2].text(n) + ")";
	case DIVC: return "(" + ch[0].text(n) + ")/" + c.get_str();
	}
	return "?";
}
static mpz_class qfloor(const mpq_class &q) { return fdiv(q.get_num(), q.get_den()); }
mpq_class QE::eval(const Pt &p) const
{
	switch (k) {
	case CST: return c;
	case VAR: return Z(p[var]);
	case ADD: return ch[0].eval(p) + ch[1].eval(p);
	case SUB: return ch[0].eval(p) - ch[1].eval(p);
	case MULC: return ch[0].eval(p) * c;
	case FLOORD: return qfloor(ch[0].eval(p) / c);
	case CEILD: return -qfloor(-ch[0].eval(p) / c);
	case MOD: { mpq_class e = ch[0].eval(p); return e - c * qfloor(e / c); }
	case NEG: return -ch[0].eval(p);
	case MIN: { mpq_class a = ch[0].eval(p), b = ch[1].eval(p); return a < b ? a : b; }
	case MAX: { mpq_class a = ch[0].eval(p), b = ch[1].eval(p); return a > b ? a : b; }
	case COND: return ch[0].eval(p) >= 0 ? ch[1].eval(p) : ch[2].eval(p);
	case DIVC: return ch[0].eval(p) / c;
	}
	return 0;
}
isl_aff *QE::build_aff(Case &c_, isl_space *sp) const
{
	isl_ctx *ctx = c_.ctx;
	auto ls = [&]() { return isl_local_space_from_space(isl_space_copy(sp)); };
	auto A = [&](int i) { return ch[i].build_aff(c_, sp); };
	switch (k) {
	case CST: return isl_aff_val_on_domain(ls(), mkval(ctx, c));
	case VAR: { int np = isl_space_dim(sp, isl_dim_param);
		return isl_aff_var_on_domain(ls(), var < np ? isl_dim_param : isl_dim_set, var < np ? var : var - np); }
	case ADD: return isl_aff_add(A(0), A(1));
	case SUB: return isl_aff_sub(A(0), A(1));
	case MULC: return isl_aff_scale_val(A(0), mkval(ctx, c));
	case FLOORD: return isl_aff_floor(isl_aff_scale_down_val(A(0), mkval(ctx, c)));
	case CEILD: return isl_aff_ceil(isl_aff_scale_down_val(A(0), mkval(ctx, c)));
	case MOD: return isl_aff_mod_val(A(0), mkval(ctx, c));
	case NEG: return isl_aff_neg(A(0));
	case DIVC: return isl_aff_scale_down_val(A(0), mkval(ctx, c));
	default: return nullptr;
	}
}
isl_pw_aff *QE::build(Case &c_, isl_space *sp) const
{
	isl_ctx *ctx = c_.ctx;
	if (affine()) return isl_pw_aff_from_aff(build_aff(c_, sp));
	auto A = [&](int i) { return ch[i].build(c_, sp); };
	switch (k) {
	case ADD: return isl_pw_aff_add(A(0), A(1));
	case SUB: return isl_pw_aff_sub(A(0), A(1));
	case MULC: return isl_pw_aff_scale_val(A(0), mkval(ctx, c));
	case FLOORD: return isl_pw_aff_floor(isl_pw_aff_scale_down_val(A(0), mkval(ctx, c)));
	case CEILD: return isl_pw_aff_ceil(isl_pw_aff_scale_down_val(A(0), mkval(ctx, c)));
	case MOD: return isl_pw_aff_mod_val(A(0), mkval(ctx, c));
	case NEG: return isl_pw_aff_neg(A(0));
	case MIN: return isl_pw_aff_min(A(0), A(1));
	case MAX: return isl_pw_aff_max(A(0), A(1));
	case COND: {
		isl_set *s = isl_pw_aff_nonneg_set(A(0));
		isl_pw_aff *t = isl_pw_aff_intersect_domain(A(1), isl_set_copy(s));
		isl_pw_aff *e = isl_pw_aff_intersect_domain(A(2), isl_set_complement(s));
		return isl_pw_aff_union_add(t, e); }
	case DIVC: return isl_pw_aff_scale_down_val(A(0), mkval(ctx, c));
	default: return nullptr;
	}
}
QE gen_qe(Case &c, int nv, int depth, bool pw)
{
	QE e;
	int kind = depth <= 0 ? c.t.weighted({1, nv ? 2 : 0}) : c.t.weighted({1, nv ? 2 : 0, 3, 2, 2, 3, 1, 2, 1, pw ? 1 : 0, pw ? 1 : 0, pw ? 2 : 0});
	e.k = (QE::K)kind;
	switch (e.k) {
	case QE::CST: e.c = c.t.range(-6, 6); break;
	case QE::VAR: e.var = c.t.below(nv); break;
	case QE::ADD: case QE::SUB: case QE::MIN: case QE::MAX:
		e.ch.push_back(gen_qe(c, nv, depth - 1, pw)); e.ch.push_back(gen_qe(c, nv, depth - 1, pw)); break;
	case QE::MULC: e.c = c.t.range(-3, 3); if (e.c == 0) e.c = 2; e.ch.push_back(gen_qe(c, nv, depth - 1, pw)); break;
	case QE::FLOORD: case QE::CEILD: case QE::MOD: e.c = 2 + (int)c.t.below(4); e.ch.push_back(gen_qe(c, nv, depth - 1, pw)); break;
	case QE::NEG: e.ch.push_back(gen_qe(c, nv, depth - 1, pw)); break;
	case QE::COND: for (int i = 0; i < 3; ++i) e.ch.push_back(gen_qe(c, nv, depth - 1, false)); break;
	default: break;
	}
	return e;
}

// ------------------------------------------------------------------ comparisons
Sp set_sp(const Sp &m, const Tup &t) { Sp s; s.params = m.params; s.out = t; return s; }
Sp map_sp(const Sp &m, const Tup &a, const Tup &b) { Sp s; s.params = m.params; s.is_map = true; s.in = a; s.out = b; return s; }
Tup wrap_tup(const Tup &a, const Tup &b) { Tup t; t.sub.push_back(a); t.sub.push_back(b); return t; }
Tup flat_tup(int n) { return mk_tup("", n); }
std::string ints(std::initializer_list<long> l) { std::string s; for (long v : l) s += " " + std::to_string(v); return s; }
std::vector<int> seq(int from, int n) { std::vector<int> r; for (int i = 0; i < n; ++i) r.push_back(from + i); return r; }

void want_space(Case &c, const char *op, isl_space *got_taken, const Sp &sp, const std::string &how)
{
	Space got(got_taken), want(mk_space(c, sp));
	if (!got) on_error(c, "get_space");
	if (!B(c, isl_space_is_equal(got.g(), want.g()), "isl_space_is_equal"))
		c.fail(std::string("space:") + op, "result space " + S(got) + ", expected " + S(want) + "\n" + how);
}
template <class T> static void check_pred(Case &c, const char *op, const T &res, const Sp &sp, const Pred &want, const std::string &how, int budget)
{
	MMap m = extract(c, res.g());
	Window w = make_window(sp.np() + sp.ni() + sp.no(), budget);
	bool any_in = false, any_out = false;
	for (auto &p : w.pts) {
		bool a = m.has(p), b = want(p);
		(b ? any_in : any_out) = true;
		if (a != b)
			c.fail(op, "at (params,in,out) " + str(p) + ": library says " + (a ? "in" : "not in") + ", definition says " + (b ? "in" : "not in") +
				"\n" + how + "\nresult: " + S(res));
	}
	if (any_in && any_out) c.nontrivial = true;
	c.label(op);
	// pieces of a disjoint decomposition: marks carried along by the operation must still hold
	if (m.d.size() > 1 && c.index % 4 == 1) {
		T dj;
		if constexpr (std::is_same<T, Set>::value) dj = R(c, isl_set_make_disjoint(res.c()), "isl_set_make_disjoint"); else dj = R(c, isl_map_make_disjoint(res.c()), "isl_map_make_disjoint");
		MMap q = extract(c, dj.g());
		if (q.d.size() <= 30) for (auto &p : w.pts) {
			int k = 0; for (auto &b : q.d) k += b.has(p);
			if (k != (int)m.has(p)) c.fail(std::string("make_disjoint:") + op, "point " + str(p) + " lies in " + std::to_string(k) + " pieces of the disjoint form " + S(dj) + "\n" + how + "\nresult: " + S(res));
		}
	}
	// far points exhibited by the library
	if (!c.t.chance(1, 6)) return;
	isl_set *s;
	if constexpr (std::is_same<T, Set>::value) s = res.c(); else s = isl_map_wrap(res.c());
	isl_point *pp = isl_set_sample_point(s);
	if (!pp) { clear_error(c); return; }
	Point pt(pp);
	if (isl_point_is_void(pt.g()) == isl_bool_true) return;
	Pt x;
	int np = sp.np(), n = np + sp.ni() + sp.no();
	for (int i = 0; i < n; ++i) {
		isl_val *v = isl_point_get_coordinate_val(pt.g(), i < np ? isl_dim_param : isl_dim_set, i < np ? i : i - np);
		if (!v) { clear_error(c); return; }
		mpz_class z = val_num(v);
		isl_val_free(v);
		if (!z.fits_slong_p() || abs(z) > (mpz_class(1) << 50)) return;
		x.push_back(z.get_si());
	}
	if (!want(x)) c.fail(std::string("sample:") + op, "sample point " + str(x) + " of the result is not in it by definition\n" + how + "\nresult: " + S(res));
}
void check(Case &c, const char *op, const Set &res, const Sp &sp, const Pred &want, const std::string &how, int budget)
{
	want_space(c, op, isl_set_get_space(res.g()), sp, how);
	check_pred(c, op, res, sp, want, how, budget);
}
void check(Case &c, const char *op, const Map &res, const Sp &sp, const Pred &want, const std::string &how, int budget)
{
	want_space(c, op, isl_map_get_space(res.g()), sp, how);
	check_pred(c, op, res, sp, want, how, budget);
}
void check_fn(Case &c, const char *op, const FFun &got, int np, int nin, int nout, const VFun &want, const std::string &how, int budget)
{
	if (got.np != np || got.nin != nin || got.nout != nout)
		c.fail(std::string("space:") + op, "unexpected dimensions of the result\n" + how);
	Window w = make_window(np + nin, budget);
	std::set<std::string> seen;
	for (auto &p : w.pts) {
		std::vector<FV> g = got.eval(p), e = want(p);
		if (got.ambiguous(p)) c.fail(std::string("overlap:") + op, "pieces overlap at " + str(p) + "\n" + how);
		bool gd = got.def(p);
		bool ed = nout == 0 ? !(e.size() == 1 && e[0].st == 0) : true;
		bool bad = false;
		if (nout == 0) bad = gd != ed;
		else {
			if (e.empty()) e.resize(nout);
			for (int i = 0; i < nout; ++i) if (g[i] != e[i]) bad = true;
		}
		if (bad) c.fail(op, "at (params,in) " + str(p) + ": library says " + (nout == 0 ? (gd ? "defined" : "undefined") : str(g)) + ", definition says " +
			(nout == 0 ? (ed ? "defined" : "undefined") : str(e)) + "\n" + how);
		if (seen.size() < 3) seen.insert(str(g));
	}
	if (seen.size() >= 2) c.nontrivial = true;
	c.label(op);
}

// ------------------------------------------------------------------ function generators
static std::string tup_out(const Tup &t, const std::vector<std::string> &ex, int &pos)
{
	std::string s = t.name + "[";
	if (!t.sub.empty()) { s += tup_out(t.sub[0], ex, pos); s += " -> "; s += tup_out(t.sub[1], ex, pos); }
	else for (int i = 0; i < t.n; ++i) { if (i) s += ", "; s += "(" + ex[pos++] + ")"; }
	return s + "]";
}
static std::string tup_in(const Tup &t, const std::vector<std::string> &names, int &pos)
{
	std::string s = t.name + "[";
	if (!t.sub.empty()) { s += tup_in(t.sub[0], names, pos); s += " -> "; s += tup_in(t.sub[1], names, pos); }
	else for (int i = 0; i < t.n; ++i) { if (i) s += ", "; s += names[pos++]; }
	return s + "]";
}
static std::string fun_text(const Sp &sp, const std::vector<QE> &es, const std::string &cond)
{
	auto names = var_names(sp);
	int pos = sp.np();
	std::string s = tup_in(sp.in, names, pos) + " -> ";
	std::vector<std::string> ex;
	for (auto &e : es) ex.push_back(e.text(names));
	int q = 0;
	s += tup_out(sp.out, ex, q);
	if (!cond.empty()) s += " : " + cond;
	return s;
}
static MAff build_maff(Case &c, const Sp &sp, const std::vector<QE> &es)
{
	Space dom(mk_space(c, set_sp(sp, sp.in)));
	isl_multi_aff *m = isl_multi_aff_zero(mk_space(c, sp));
	for (size_t i = 0; i < es.size(); ++i) m = isl_multi_aff_set_at(m, i, es[i].build_aff(c, dom.g()));
	return R(c, m, "build_maff");
}
MAff gen_maff(Case &c, const Sp &sp, int depth)
{
	std::vector<QE> es;
	for (int i = 0; i < sp.no(); ++i) es.push_back(gen_qe(c, sp.np() + sp.ni(), depth));
	MAff m;
	std::string txt = sp_params(sp) + "{ " + fun_text(sp, es, "") + " }";
	if (c.t.chance(1, 2)) m = R(c, isl_multi_aff_read_from_str(c.ctx, txt.c_str()), "isl_multi_aff_read_from_str");
	else m = build_maff(c, sp, es);
	FFun f = fn(c, m.g());
	Window w = make_window(sp.np() + sp.ni(), 100);
	for (auto &p : w.pts) {
		auto v = f.eval(p);
		for (int i = 0; i < sp.no(); ++i)
			if (v[i] != fval(es[i].eval(p))) c.fail("construct-maff", "output " + std::to_string(i) + " at " + str(p) + " value " + str(v[i]) + " expected " + es[i].eval(p).get_str() + "\n" + txt + "\n" + S(m));
	}
	return m;
}
// disjoint pieces
static void gen_pieces(Case &c, const Sp &sp, bool total, std::vector<MMap> &doms)
{
	Sp ds = set_sp(sp, sp.in);
	GenOpt o; o.max_basic = 1; o.allow_empty = false; o.extra = 2; o.allow_exist = false;
	int n = 1 + c.t.weighted({3, 3, 1});
	int nv = ds.np() + ds.no();
	MMap base(ds.np(), 0, ds.no());
	if (total || c.t.chance(1, 3)) { MBasic b; b.nvar = nv; base.d.push_back(b); }
	else { base = gen_mmap(c, ds, o); if (base.d.size() != 1) base.d.resize(1), base.d[0].nvar = nv; }
	MBasic cur = base.d[0];
	for (int i = 0; i + 1 < n && nv; ++i) {
		ZRow r = gen_row(c, nv, 2, 4);
		MBasic a = cur;
		a.compiled = 0;
		ZRow x = r; x.resize(a.width());
		a.ineq.push_back(x);
		MMap m(ds.np(), 0, ds.no()); m.d.push_back(a); doms.push_back(m);
		for (auto &v : r) v = -v;
		r[0] -= 1;
		r.resize(cur.width());
		cur.ineq.push_back(r);
		cur.compiled = 0;
	}
	if (doms.empty() || total || c.t.chance(2, 3)) { MMap m(ds.np(), 0, ds.no()); m.d.push_back(cur); doms.push_back(m); }
}
PMA gen_pma(Case &c, const Sp &sp, bool total)
{
	std::vector<MMap> doms;
	gen_pieces(c, sp, total, doms);
	Sp ds = set_sp(sp, sp.in);
	isl_pw_multi_aff *r = isl_pw_multi_aff_empty(mk_space(c, sp));
	for (auto &d : doms) {
		MAff m = gen_maff(c, sp, 1 + c.t.below(2));
		Set s = build_set(c, d, ds);
		r = isl_pw_multi_aff_union_add(r, isl_pw_multi_aff_alloc(s.r(), m.r()));
	}
	return R(c, r, "gen_pma");
}
PwAff gen_pwaff(Case &c, const Sp &dom, bool total, bool rat)
{
	Sp ms = map_sp(dom, dom.out, flat_tup(1));
	std::vector<MMap> doms;
	gen_pieces(c, ms, total, doms);
	Space dsp(mk_space(c, dom));
	isl_pw_aff *r = isl_pw_aff_empty(isl_space_add_dims(isl_space_from_domain(dsp.c()), isl_dim_out, 1));
	for (auto &d : doms) {
		QE e = gen_qe(c, dom.np() + dom.no(), 1 + c.t.below(2), false);
		if (rat && c.t.chance(1, 2)) { QE q; q.k = QE::DIVC; q.c = 2 + (int)c.t.below(3); q.ch.push_back(e); e = q; }
		Set s = build_set(c, d, dom);
		isl_pw_aff *pa = isl_pw_aff_alloc(s.r(), e.build_aff(c, dsp.g()));
		FFun f = fn(c, PwAff(isl_pw_aff_copy(pa)).g());
		for (auto &p : make_window(dom.np() + dom.no(), 60).pts) {
			FV want; if (d.has(p)) want = fval(e.eval(p));
			if (f.eval(p)[0] != want) { std::string t = S(pa); isl_pw_aff_free(pa); isl_pw_aff_free(r); c.fail("construct-pwaff", "at " + str(p) + " expected " + str(want) + "\n" + t); }
		}
		r = isl_pw_aff_union_add(r, pa);
	}
	return R(c, r, "gen_pwaff");
}
MPA gen_mpa(Case &c, const Sp &sp, bool total)
{
	if (sp.no() == 0) {
		Space s(mk_space(c, sp));
		isl_multi_pw_aff *m = isl_multi_pw_aff_zero(s.r());
		if (!total && c.t.chance(1, 2)) {
			GenOpt o; o.max_basic = 2;
			Set d = gen_set(c, set_sp(sp, sp.in), o, false);
			m = isl_multi_pw_aff_intersect_domain(m, d.r());
		}
		return R(c, m, "gen_mpa");
	}
	if (c.t.chance(1, 3)) return R(c, isl_multi_pw_aff_from_pw_multi_aff(gen_pma(c, sp, total).r()), "isl_multi_pw_aff_from_pw_multi_aff");
	isl_multi_pw_aff *m = isl_multi_pw_aff_zero(mk_space(c, sp));
	for (int i = 0; i < sp.no(); ++i) m = isl_multi_pw_aff_set_at(m, i, gen_pwaff(c, set_sp(sp, sp.in), total).r());
	return R(c, m, "gen_mpa");
}

} // namespace vp
