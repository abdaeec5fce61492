// C07: optimisation, bounds and sampling are exact and witnesses are valid.
#include "fn.h"
#include "lp.h"
#include <isl/ilp.h>
#include <isl/lp.h>
using namespace vp;

namespace {
typedef H<isl_multi_val> MVal;

std::string vs(isl_val *v) { return S(v); }

// "v" is the claimed optimum of obj (over all variables) on m
void check_opt(Case &c, const char *op, isl_val *v, const MMap &m, const ZRow &obj, bool max, const std::string &how)
{
	std::string h = "result: " + vs(v) + "\n" + how;
	int n = m.nvar();
	auto any = [&](const ZRow *extra, bool eq) {
		for (auto &b : m.d) {
			MBasic e = b;
			if (extra) { ZRow r = *extra; r.resize(e.width()); (eq ? e.eq : e.ineq).push_back(r); }
			if (sat(e)) return true;
		}
		return false;
	};
	ZRow o = obj; o.resize(1 + n);
	ZRow neg = o; for (auto &x : neg) x = -x;
	bool nonempty = any(nullptr, false);
	if (isl_val_is_nan(v)) { if (nonempty) c.fail(op, "NaN although the set is not empty\n" + h); c.label("empty"); c.label(op); return; }
	if (!nonempty) c.fail(op, "the set is empty but the result is not NaN\n" + h);
	if (isl_val_is_infty(v) || isl_val_is_neginfty(v)) {
		if (isl_val_is_infty(v) != max) c.fail(op, "infinity of the wrong sign\n" + h);
		mpz_class big("1000000000000000000000");
		ZRow r = max ? o : neg;
		r[0] -= big;
		if (!any(&r, false)) c.fail(op, "the objective is bounded but the result is infinite\n" + h);
		c.label("unbounded"); c.label(op);
		return;
	}
	if (!isl_val_is_int(v)) c.fail(op, "not an integer\n" + h);
	mpz_class z = val_num(v);
	ZRow at = o; at[0] -= z;
	if (!any(&at, true)) c.fail(op, "the optimal value is not attained\n" + h);
	ZRow bt = max ? o : neg;
	bt[0] -= (max ? z : mpz_class(-z)) + 1;
	if (any(&bt, false)) c.fail(op, "there is a better value\n" + h);
	c.label(op);
	c.nontrivial = true;
}

isl_aff *aff_of(Case &c, isl_space *sp_taken, const ZRow &r, const Sp &sp)
{
	isl_local_space *ls = isl_local_space_from_space(sp_taken);
	isl_aff *a = isl_aff_zero_on_domain(ls);
	a = isl_aff_set_constant_val(a, mkval(c.ctx, r[0]));
	for (int i = 0; i < sp.np(); ++i) a = isl_aff_set_coefficient_val(a, isl_dim_param, i, mkval(c.ctx, r[1 + i]));
	for (int i = 0; i < sp.no(); ++i) a = isl_aff_set_coefficient_val(a, isl_dim_in, i, mkval(c.ctx, r[1 + sp.np() + i]));
	return a;
}

Set gen(Case &c, const Sp &sp, bool &bounded)
{
	GenOpt o;
	o.coef = c.t.chance(1, 4) ? 7 : 3;
	Set a = gen_set(c, sp, o);
	bounded = c.t.chance(1, 2);
	if (bounded) a = clip(c, a, -5, 5);
	return a;
}
BSet pick(Case &c, const Set &a)
{
	H<isl_basic_set_list> l(isl_set_get_basic_set_list(a.g()));
	int n = isl_basic_set_list_n_basic_set(l.g());
	if (n < 1) return R(c, isl_basic_set_empty(isl_set_get_space(a.g())), "empty");
	return R(c, isl_basic_set_list_get_basic_set(l.g(), c.t.below(n)), "get");
}

void run_obj(Case &c)
{
	Sp sp = gen_set_space(c, 2, 3);
	bool bounded;
	Set a = gen(c, sp, bounded);
	int n = sp.np() + sp.no();
	bool max = c.t.chance(1, 2);
	int kind = c.t.weighted({5, 2, 3, 3});
	std::string how = "a = " + S(a);
	if (kind == 0 || kind == 1) {
		ZRow r = gen_row(c, n, 4, 5);
		if (kind == 1) {
			BSet b = pick(c, a);
			Aff o = R(c, aff_of(c, isl_basic_set_get_space(b.g()), r, sp), "obj");
			how = "b = " + S(b) + "\nmax " + S(o);
			c.log << how << "\n";
			Val v = R(c, isl_basic_set_max_val(b.g(), o.g()), "isl_basic_set_max_val");
			return check_opt(c, "isl_basic_set_max_val", v.g(), extract(c, b.g()), r, true, how);
		}
		Aff o = R(c, aff_of(c, isl_set_get_space(a.g()), r, sp), "obj");
		how += (max ? "\nmax " : "\nmin ") + S(o);
		c.log << how << "\n";
		Val v = R(c, max ? isl_set_max_val(a.g(), o.g()) : isl_set_min_val(a.g(), o.g()), "isl_set_opt_val");
		return check_opt(c, max ? "isl_set_max_val" : "isl_set_min_val", v.g(), extract(c, a.g()), r, max, how);
	}
	if (kind == 2) {   // a single dimension
		if (!sp.no()) return;
		int pos = c.t.below(sp.no());
		ZRow r(1 + n); r[1 + sp.np() + pos] = 1;
		how += (max ? "\ndim_max_val " : "\ndim_min_val ") + std::to_string(pos);
		if (max && c.t.chance(1, 3)) {
			BSet b = pick(c, a);
			how = "b = " + S(b) + "\nbasic_set_dim_max_val " + std::to_string(pos);
			c.log << how << "\n";
			MMap mb = extract(c, b.g());
			Val v = R(c, isl_basic_set_dim_max_val(b.c(), pos), "isl_basic_set_dim_max_val");
			return check_opt(c, "isl_basic_set_dim_max_val", v.g(), mb, r, true, how);
		}
		c.log << how << "\n";
		Val v = R(c, max ? isl_set_dim_max_val(a.c(), pos) : isl_set_dim_min_val(a.c(), pos), "isl_set_dim_opt_val");
		return check_opt(c, max ? "isl_set_dim_max_val" : "isl_set_dim_min_val", v.g(), extract(c, a.g()), r, max, how);
	}
	// quasi-affine objective over a bounded set
	a = clip(c, a, -4, 4);
	QE e = gen_qe(c, n, 2);
	Aff o = R(c, e.build_aff(c, isl_space_copy(Space(isl_set_get_space(a.g())).g())), "obj");
	how = "a = " + S(a) + (max ? "\nmax " : "\nmin ") + S(o);
	c.log << how << "\n";
	FFun f = fn(c, o.g());
	Val v = R(c, max ? isl_set_max_val(a.g(), o.g()) : isl_set_min_val(a.g(), o.g()), "isl_set_opt_val");
	MMap m = extract(c, a.g());
	bool have = false; mpq_class best;
	for (auto &p : box_points(n, -4, 4)) if (m.has(p)) { auto x = f.eval(p)[0].v; if (!have || (max ? x > best : x < best)) best = x; have = true; }
	if (!have) { if (!isl_val_is_nan(v.g())) c.fail("quasi-affine objective", "empty set but the result is " + S(v) + "\n" + how); return; }
	if (!isl_val_is_rat(v.g()) || mpq_class(val_num(v.g()), val_den(v.g())) != best) c.fail("quasi-affine objective", "the result is " + S(v) + " instead of " + best.get_str() + "\n" + how);
	c.nontrivial = true;
	c.label("quasi-affine objective");
}

void run_lp(Case &c)
{
	Sp sp = gen_set_space(c, 2, 3);
	GenOpt o;
	o.max_basic = 1; o.allow_exist = o.allow_div = false; o.extra = 5; o.coef = 5;
	BSet b = gen_bset(c, sp, o);
	MMap m = extract(c, b.g());
	if (m.d.size() != 1 || !m.d[0].divs.empty()) return;
	int n = sp.np() + sp.no();
	ZRow r = gen_row(c, n, 4, 5);
	// "empty" may be reported for sets without integer elements
	if (!sat(m.d[0])) { c.label("lp_val: integer empty"); return; }
	mpz_class den = c.t.chance(1, 3) ? c.t.range(2, 5) : 1;
	bool max = c.t.chance(1, 2);
	isl_aff *oa = aff_of(c, isl_basic_set_get_space(b.g()), r, sp);
	if (den > 1) oa = isl_aff_scale_down_val(oa, mkval(c.ctx, den));
	Aff ob = R(c, oa, "obj");
	std::string how = "b = " + S(b) + (max ? "\nmax " : "\nmin ") + S(ob);
	c.log << how << "\n";
	Val v = R(c, max ? isl_basic_set_max_lp_val(b.g(), ob.g()) : isl_basic_set_min_lp_val(b.g(), ob.g()), "isl_basic_set_opt_lp_val");
	QRow q1 = q(r); if (max) for (auto &x : q1) x = -x;
	mpq_class val;
	LPStat st = lp_min(n, q(m.d[0].eq), q(m.d[0].ineq), q1, val);
	const char *op = "lp_val";
	how = "result: " + S(v) + "\n" + how;
	if (st == LP_EMPTY) { if (!isl_val_is_nan(v.g())) c.fail(op, "the relaxation is empty but the result is not NaN\n" + how); }
	else if (st == LP_UNB) { if (!(max ? isl_val_is_infty(v.g()) : isl_val_is_neginfty(v.g()))) c.fail(op, "the problem is unbounded\n" + how); }
	else {
		if (max) val = -val;
		val /= den;
		if (!isl_val_is_rat(v.g()) || mpq_class(val_num(v.g()), val_den(v.g())) != val) c.fail(op, "the rational optimum is " + val.get_str() + "\n" + how);
		c.nontrivial = true;
	}
	c.label(op);
}

// parametric optimum of a dimension
void run_param(Case &c)
{
	bool map = c.t.chance(1, 2), max = c.t.chance(1, 2);
	GenOpt o; o.max_basic = 2;
	if (!map) {
		Sp sp = gen_set_space(c, 2, 3);
		int no = sp.no(), W = no >= 3 ? 3 : 5;
		isl_set *s = gen_set(c, sp, o).r();
		for (int i = 0; i < no; ++i) s = isl_set_upper_bound_si(isl_set_lower_bound_si(s, isl_dim_set, i, -W), isl_dim_set, i, W);
		Set a = R(c, s, "clip");
		MMap m = extract(c, a.g());
		bool multi = c.t.chance(1, 2) || !no;
		int pos = no ? c.t.below(no) : 0;
		std::string how = "a = " + S(a) + (max ? "\nmax" : "\nmin") + (multi ? " multi" : " dim " + std::to_string(pos));
		c.log << how << "\n";
		auto outs = box_points(no, -W, W);
		auto opt = [&](const Pt &x, int d) { FV r; for (auto &y : outs) if (m.has(cat(x, y))) { mpq_class v = mpz_class((long)y[d]); if (r.st == 0 || (max ? v > r.v : v < r.v)) r = fval(v); } return r; };
		if (multi) {
			MPA r = R(c, max ? isl_set_max_multi_pw_aff(a.c()) : isl_set_min_multi_pw_aff(a.c()), "isl_set_opt_multi_pw_aff");
			how += "\nresult: " + S(r);
			check_fn(c, max ? "isl_set_max_multi_pw_aff" : "isl_set_min_multi_pw_aff", fn(c, r.g()), sp.np(), 0, no, [&](const Pt &p) {
				if (!no) { std::vector<FV> u(1); return m.has(p) ? std::vector<FV>() : u; }
				std::vector<FV> v; for (int d = 0; d < no; ++d) v.push_back(opt(p, d)); return v; }, how, 120);
			return;
		}
		PwAff r = R(c, max ? isl_set_dim_max(a.c(), pos) : isl_set_dim_min(a.c(), pos), "isl_set_dim_opt");
		how += "\nresult: " + S(r);
		check_fn(c, max ? "isl_set_dim_max" : "isl_set_dim_min", fn(c, r.g()), sp.np(), 0, 1, [&](const Pt &p) { return std::vector<FV>{opt(p, pos)}; }, how, 150);
		return;
	}
	Sp sp = gen_map_space(c, 1, 2, 2);
	int no = sp.no(), W = 5;
	isl_map *s = gen_map(c, sp, o).r();
	for (int i = 0; i < no; ++i) s = isl_map_upper_bound_si(isl_map_lower_bound_si(s, isl_dim_out, i, -W), isl_dim_out, i, W);
	Map a = R(c, s, "clip");
	MMap m = extract(c, a.g());
	bool multi = c.t.chance(1, 2) || !no;
	int pos = no ? c.t.below(no) : 0;
	std::string how = "a = " + S(a) + (max ? "\nmax" : "\nmin") + (multi ? " multi" : " dim " + std::to_string(pos));
	c.log << how << "\n";
	auto outs = box_points(no, -W, W);
	auto opt = [&](const Pt &x, int d) { FV r; for (auto &y : outs) if (m.has(cat(x, y))) { mpq_class v = mpz_class((long)y[d]); if (r.st == 0 || (max ? v > r.v : v < r.v)) r = fval(v); } return r; };
	if (multi) {
		MPA r = R(c, max ? isl_map_max_multi_pw_aff(a.c()) : isl_map_min_multi_pw_aff(a.c()), "isl_map_opt_multi_pw_aff");
		how += "\nresult: " + S(r);
		want_space(c, "isl_map_opt_multi_pw_aff", isl_multi_pw_aff_get_space(r.g()), sp, how);
		check_fn(c, max ? "isl_map_max_multi_pw_aff" : "isl_map_min_multi_pw_aff", fn(c, r.g()), sp.np(), sp.ni(), no, [&](const Pt &p) {
			if (!no) { std::vector<FV> u(1); return m.has(p) ? std::vector<FV>() : u; }
			std::vector<FV> v; for (int d = 0; d < no; ++d) v.push_back(opt(p, d)); return v; }, how, 150);
		return;
	}
	PwAff r = R(c, max ? isl_map_dim_max(a.c(), pos) : isl_map_dim_min(a.c(), pos), "isl_map_dim_opt");
	how += "\nresult: " + S(r);
	check_fn(c, max ? "isl_map_dim_max" : "isl_map_dim_min", fn(c, r.g()), sp.np(), sp.ni(), 1, [&](const Pt &p) { return std::vector<FV>{opt(p, pos)}; }, how, 200);
}

// minimum or maximum of a piecewise (multi-dimensional) function over its domain
void run_fun(Case &c)
{
	bool max = c.t.chance(1, 2);
	Sp sp = gen_map_space(c, 1, 2, 2);
	int n = sp.np() + sp.ni(), no = sp.no();
	GenOpt o; o.max_basic = 2;
	int W = n <= 2 ? 6 : 4;
	Set dom = clip(c, gen_set(c, set_sp(sp, sp.in), o, false), -W, W);
	auto box = box_points(n, -W, W);
	// only integer affine expressions are supported
	auto rational = [&](const FFun &f) { for (auto &q : f.comp) for (auto &x : q.p) for (auto &y : x.a) if (y.den != 1 || y.nan) return true; return false; };
	int kind = c.t.below(3);
	FFun f;
	MVal mv; Val v1;
	std::string how;
	const char *op;
	auto want = [&](int d) { FV r; for (auto &p : box) { auto v = f.eval(p); if (v[d].st == 1 && (r.st == 0 || (max ? v[d].v > r.v : v[d].v < r.v))) r = v[d]; } return r; };
	auto cmp = [&](isl_val *v, int d) {
		FV w = want(d);
		std::string h = "output " + std::to_string(d) + ": result " + S(v) + ", enumeration gives " + str(w) + "\n" + how;
		if (w.st == 0) { if (!isl_val_is_nan(v)) c.fail(op, h); }
		else if (!isl_val_is_rat(v) || mpq_class(val_num(v), val_den(v)) != w.v) c.fail(op, h);
		else c.nontrivial = true;
	};
	if (kind == 0) {
		PwAff a = gen_pwaff(c, set_sp(sp, sp.in));
		a = R(c, isl_pw_aff_intersect_domain(a.r(), dom.c()), "intersect_domain");
		how = "a = " + S(a) + (max ? "\nmax" : "\nmin"); c.log << how << "\n";
		f = fn(c, a.g()); if (rational(f)) return; op = max ? "isl_pw_aff_max_val" : "isl_pw_aff_min_val";
		v1 = R(c, max ? isl_pw_aff_max_val(a.c()) : isl_pw_aff_min_val(a.c()), op);
		cmp(v1.g(), 0);
		c.label(op);
		return;
	}
	if (kind == 1) {
		PMA a = gen_pma(c, sp);
		a = R(c, isl_pw_multi_aff_intersect_domain(a.r(), dom.c()), "intersect_domain");
		how = "a = " + S(a) + (max ? "\nmax" : "\nmin"); c.log << how << "\n";
		f = fn(c, a.g()); if (rational(f)) return; op = max ? "isl_pw_multi_aff_max_multi_val" : "isl_pw_multi_aff_min_multi_val";
		mv = R(c, max ? isl_pw_multi_aff_max_multi_val(a.c()) : isl_pw_multi_aff_min_multi_val(a.c()), op);
	} else {
		MPA a = gen_mpa(c, sp);
		a = R(c, isl_multi_pw_aff_intersect_domain(a.r(), dom.c()), "intersect_domain");
		how = "a = " + S(a) + (max ? "\nmax" : "\nmin"); c.log << how << "\n";
		f = fn(c, a.g()); if (rational(f)) return; op = max ? "isl_multi_pw_aff_max_multi_val" : "isl_multi_pw_aff_min_multi_val";
		mv = R(c, max ? isl_multi_pw_aff_max_multi_val(a.c()) : isl_multi_pw_aff_min_multi_val(a.c()), op);
	}
	if (isl_multi_val_size(mv.g()) != no) c.fail(op, "wrong number of values\n" + how);
	for (int d = 0; d < no; ++d) { Val v = R(c, isl_multi_val_get_val(mv.g(), d), "get_val"); cmp(v.g(), d); }
	c.label(op);
}

void run_sample(Case &c)
{
	int kind = c.t.below(8);
	if (kind < 5) {
		Sp sp = gen_set_space(c, 2, 3);
		bool bounded;
		Set a = gen(c, sp, bounded);
		BSet b;
		bool basic = kind == 0 || kind == 2;
		if (basic) b = pick(c, a);
		MMap m = basic ? extract(c, b.g()) : extract(c, a.g());
		std::string how = basic ? "b = " + S(b) : "a = " + S(a);
		bool empty = true;
		for (auto &x : m.d) if (sat(x)) empty = false;
		static const char *ops[] = {"isl_basic_set_sample", "isl_set_sample", "isl_basic_set_sample_point", "isl_set_sample_point", "isl_union_set_sample_point"};
		const char *op = ops[kind];
		how += std::string("\n") + op;
		c.log << how << "\n";
		if (kind < 2) {
			BSet r = R(c, kind ? isl_set_sample(a.c()) : isl_basic_set_sample(b.c()), op);
			how += "\nresult: " + S(r);
			want_space(c, op, isl_basic_set_get_space(r.g()), sp, how);
			bool e = B(c, isl_basic_set_is_empty(r.g()), "isl_basic_set_is_empty");
			if (e != empty) c.fail(op, e ? "empty sample of a non-empty set\n" + how : "sample of an empty set\n" + how);
			if (!e) {
				MMap mr = extract(c, r.g());
				Point pt = R(c, isl_basic_set_sample_point(r.c()), "sample_point");
				Pt p = point_of(c, pt.g(), sp.np(), sp.no());
				if (!m.has(p) || !mr.has(p)) c.fail(op, "the sample " + str(p) + " is not in the set\n" + how);
				// a singleton
				for (int i = 0; i < (int)p.size(); ++i) for (int s : {-1, 1}) {
					MBasic x = mr.d[0]; ZRow rr(x.width()); rr[1 + i] = s; rr[0] = -s * p[i] - 1;
					x.ineq.push_back(rr);
					if (sat(x)) c.fail(op, "the sample is not a singleton\n" + how);
				}
				c.nontrivial = true;
			}
		} else {
			isl_point *q = kind == 2 ? isl_basic_set_sample_point(b.c()) : kind == 3 ? isl_set_sample_point(a.c()) : isl_union_set_sample_point(isl_union_set_from_set(a.c()));
			Point pt = R(c, q, op);
			bool v = B(c, isl_point_is_void(pt.g()), "isl_point_is_void");
			how += "\nresult: " + S(pt);
			if (v != empty) c.fail(op, v ? "void sample of a non-empty set\n" + how : "sample of an empty set\n" + how);
			if (!v) {
				Pt p = point_of(c, pt.g(), sp.np(), sp.no());
				if (!m.has(p)) c.fail(op, "the sample " + str(p) + " is not in the set\n" + how);
				c.nontrivial = true;
			}
		}
		c.label(op);
		return;
	}
	Sp sp = gen_map_space(c, 1, 2, 2);
	GenOpt o;
	Map a = gen_map(c, sp, o);
	if (kind == 5) {
		H<isl_basic_map_list> l(isl_map_get_basic_map_list(a.g()));
		if (isl_basic_map_list_n_basic_map(l.g()) < 1) return;
		a = R(c, isl_map_from_basic_map(isl_basic_map_list_get_basic_map(l.g(), 0)), "first");
		if (n_basic(a) < 1) return;
	}
	MMap m = extract(c, a.g());
	bool empty = true;
	for (auto &x : m.d) if (sat(x)) empty = false;
	static const char *ops[] = {"isl_basic_map_sample", "isl_map_sample", "isl_union_map_sample"};
	const char *op = ops[kind - 5];
	std::string how = "a = " + S(a) + "\n" + op;
	c.log << how << "\n";
	BMap r;
	if (kind == 5) { H<isl_basic_map_list> l(isl_map_get_basic_map_list(a.g())); r = R(c, isl_basic_map_sample(isl_basic_map_list_get_basic_map(l.g(), 0)), op); }
	else if (kind == 6) r = R(c, isl_map_sample(a.c()), op);
	else r = R(c, isl_union_map_sample(isl_union_map_from_map(a.c())), op);
	how += "\nresult: " + S(r);
	bool e = B(c, isl_basic_map_is_empty(r.g()), "isl_basic_map_is_empty");
	if (e != empty) c.fail(op, e ? "empty sample of a non-empty relation\n" + how : "sample of an empty relation\n" + how);
	if (!e) {
		if (kind < 7) want_space(c, op, isl_basic_map_get_space(r.g()), sp, how);
		Point pt = R(c, isl_basic_set_sample_point(isl_basic_map_wrap(r.c())), "sample_point");
		Pt p = point_of(c, pt.g(), sp.np(), sp.ni() + sp.no());
		if (!m.has(p)) c.fail(op, "the sample " + str(p) + " is not in the relation\n" + how);
		if (!B(c, isl_basic_map_is_subset(r.g(), r.g()), "subset")) c.fail(op, "subset");
		c.nontrivial = true;
	}
	c.label(op);
}

void run(Case &c)
{
	switch (c.t.weighted({5, 2, 3, 2, 4})) {
	case 0: return run_obj(c);
	case 1: return run_lp(c);
	case 2: return run_param(c);
	case 3: return run_fun(c);
	case 4: return run_sample(c);
	}
}
} // namespace

Prop vp::the_prop = {"C07",
	"Case = a random (basic) set or relation (up to 5 variables, possibly unbounded, empty, strided, with existentials), or a piecewise function on a bounded domain, and one query: integer optimum of an affine or quasi-affine objective, rational optimum, optimum of one dimension (also as function of parameters/inputs), optimum of a function, or a sample. "
	"Integer optima are decided exactly by satisfiability queries (attained and no better value; unboundedness by exceeding 10^21) with the complete Omega test, rational ones by an exact simplex, parametric ones and functions by enumeration; samples must lie in the set and exist iff it is non-empty. Non-trivial: finite optimum / actual sample / at least two different parametric values.",
	run, 60000, 2000000};
