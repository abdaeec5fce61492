// C03: yes/no questions about sets and relations are answered correctly.
#include "fn.h"
using namespace vp;

namespace {

bool empty(const MMap &m) { for (auto &b : m.d) if (sat(b)) return false; return true; }

// checks a yes/no answer; "plain" answers may miss a true one
void ans(Case &c, const char *op, isl_bool r, bool truth, const std::string &how, bool plain = false)
{
	bool got = B(c, r, op);
	c.label(std::string(op) + (got ? ":yes" : ":no"));
	if (got != truth && !(plain && !got))
		c.fail(std::string("answer:") + op, std::string(op) + " says " + (got ? "true" : "false") + " but the truth is " + (truth ? "true" : "false") + "\n" + how);
	c.nontrivial = true;
}

typedef std::vector<char> Bits;
Bits bits(const MMap &m, const std::vector<Pt> &w) { Bits b(w.size()); for (size_t i = 0; i < w.size(); ++i) b[i] = m.has(w[i]); return b; }

template <class T> T derive(Case &c, const T &a, const T &b, const T &other);
template <> Set derive(Case &c, const Set &a, const Set &b, const Set &o)
{
	switch (c.t.below(6)) {
	case 0: return b;
	case 1: return R(c, isl_set_union(a.c(), b.c()), "isl_set_union");
	case 2: return R(c, isl_set_intersect(a.c(), b.c()), "isl_set_intersect");
	case 3: return R(c, isl_set_subtract(a.c(), b.c()), "isl_set_subtract");
	case 4: return R(c, isl_set_coalesce(isl_set_union(isl_set_subtract(a.c(), b.c()), isl_set_intersect(a.c(), b.c()))), "same set");
	default: return R(c, isl_set_make_disjoint(a.c()), "isl_set_make_disjoint");
	}
}
template <> Map derive(Case &c, const Map &a, const Map &b, const Map &o)
{
	switch (c.t.below(6)) {
	case 0: return b;
	case 1: return R(c, isl_map_union(a.c(), b.c()), "isl_map_union");
	case 2: return R(c, isl_map_intersect(a.c(), b.c()), "isl_map_intersect");
	case 3: return R(c, isl_map_subtract(a.c(), b.c()), "isl_map_subtract");
	case 4: return R(c, isl_map_coalesce(isl_map_union(isl_map_subtract(a.c(), b.c()), isl_map_intersect(a.c(), b.c()))), "same map");
	default: return R(c, isl_map_make_disjoint(a.c()), "isl_map_make_disjoint");
	}
}

// fixed value of variable v over all members; 0: not fixed, 1: fixed (val), 2: no members
int fixed_at(const std::vector<Pt> &w, const Bits &b, int v, int64_t &val)
{
	int st = 2;
	for (size_t i = 0; i < w.size(); ++i) if (b[i]) {
		if (st == 2) { st = 1; val = w[i][v]; }
		else if (w[i][v] != val) return 0;
	}
	return st;
}

void check_fixed(Case &c, const char *op, isl_val *v, int st, int64_t val, const std::string &how)
{
	if (!v) on_error(c, op);
	c.step();
	if (isl_val_is_nan(v) == isl_bool_true) { isl_val_free(v); return; }
	mpq_class q = take_rat(c, v);
	c.label(std::string(op) + ":fixed");
	if (st == 0 || (st == 1 && q != val)) c.fail(std::string("fixed:") + op, std::string(op) + " reports the fixed value " + q.get_str() + "\n" + how);
}

void bounded_sets(Case &c)
{
	Sp sp = gen_set_space(c, 1, 2, c.t.chance(1, 4));
	int np = sp.np(), ns = sp.no(), n = np + ns;
	GenOpt o;
	o.max_basic = 3; o.box = 5;
	int lo = -5, hi = 6;
	Set a = clip(c, gen_set(c, sp, o), lo, hi);
	Set b = clip(c, gen_set(c, sp, o), lo, hi);
	b = derive<Set>(c, a, b, a);
	std::string how = "a = " + S(a) + "\nb = " + S(b);
	c.log << how << "\n";
	MMap ma = extract(c, a.g()), mb = extract(c, b.g());
	auto w = box_points(n, lo, hi);
	Bits A = bits(ma, w), Bb = bits(mb, w);
	bool ea = true, eb = true, sub = true, sup = true, dis = true;
	for (size_t i = 0; i < w.size(); ++i) {
		if (A[i]) ea = false;
		if (Bb[i]) eb = false;
		if (A[i] && !Bb[i]) sub = false;
		if (!A[i] && Bb[i]) sup = false;
		if (A[i] && Bb[i]) dis = false;
	}
	ans(c, "isl_set_is_empty", isl_set_is_empty(a.g()), ea, how);
	ans(c, "isl_set_plain_is_empty", isl_set_plain_is_empty(a.g()), ea, how, true);
	ans(c, "isl_set_is_subset", isl_set_is_subset(a.g(), b.g()), sub, how);
	ans(c, "isl_set_is_subset", isl_set_is_subset(b.g(), a.g()), sup, how);
	ans(c, "isl_set_is_strict_subset", isl_set_is_strict_subset(a.g(), b.g()), sub && !sup, how);
	ans(c, "isl_set_is_equal", isl_set_is_equal(a.g(), b.g()), sub && sup, how);
	ans(c, "isl_set_plain_is_equal", isl_set_plain_is_equal(a.g(), b.g()), sub && sup, how, true);
	ans(c, "isl_set_is_disjoint", isl_set_is_disjoint(a.g(), b.g()), dis, how);
	ans(c, "isl_set_plain_is_disjoint", isl_set_plain_is_disjoint(a.g(), b.g()), dis, how, true);
	// at most one element for each parameter value
	std::map<Pt, int> cnt;
	for (size_t i = 0; i < w.size(); ++i) if (A[i]) cnt[vp::sub(w[i], 0, np)]++;
	bool single = true;
	for (auto &q : cnt) if (q.second > 1) single = false;
	ans(c, "isl_set_is_singleton", isl_set_is_singleton(a.g()), single, how);
	ans(c, "isl_set_is_bounded", isl_set_is_bounded(a.g()), true, how, true);
	bool has_empty = false;           // pieces without elements may come without bounds
	for (auto &bb : ma.d) if (!sat(bb)) has_empty = true;
	for (int i = 0; i < ns; ++i) {
		int64_t v = 0;
		int st = fixed_at(w, A, np + i, v);
		check_fixed(c, "isl_set_plain_get_val_if_fixed", isl_set_plain_get_val_if_fixed(a.g(), isl_dim_set, i), st, v, how);
		// every dimension has a bound in every piece
		ans(c, "isl_set_dim_is_bounded", isl_set_dim_is_bounded(a.g(), isl_dim_set, i), true, how, has_empty);
	}
	for (int i = 0; i < np; ++i) {
		int64_t v = 0;
		int st = fixed_at(w, A, i, v);
		check_fixed(c, "isl_set_plain_get_val_if_fixed", isl_set_plain_get_val_if_fixed(a.g(), isl_dim_param, i), st, v, how);
	}
	// a box description is a product of intervals for every parameter value
	if (B(c, isl_set_is_box(a.g()), "isl_set_is_box") && ns > 0) {
		c.label("isl_set_is_box:yes");
		std::map<Pt, std::pair<Pt, Pt>> ext;
		for (size_t i = 0; i < w.size(); ++i) if (A[i]) {
			Pt p = vp::sub(w[i], 0, np);
			auto it = ext.find(p);
			if (it == ext.end()) ext[p] = {w[i], w[i]};
			else for (int k = 0; k < n; ++k) { it->second.first[k] = std::min(it->second.first[k], w[i][k]); it->second.second[k] = std::max(it->second.second[k], w[i][k]); }
		}
		for (auto &e : ext) {
			long vol = 1;
			for (int k = np; k < n; ++k) vol *= e.second.second[k] - e.second.first[k] + 1;
			if (vol != cnt[e.first]) c.fail("answer:isl_set_is_box", "not a box for parameters " + str(e.first) + "\n" + how);
		}
	}
	// what is claimed not to be involved does not matter
	for (int i = 0; i < n; ++i) {
		isl_dim_type ty = i < np ? isl_dim_param : isl_dim_set;
		if (B(c, isl_set_involves_dims(a.g(), ty, i < np ? i : i - np, 1), "isl_set_involves_dims")) continue;
		c.label("involves:no");
		for (size_t k = 0; k < w.size(); ++k) { Pt q = w[k]; q[i] += 17; if (ma.has(q) != (bool)A[k]) c.fail("answer:isl_set_involves_dims", "depends on dimension " + std::to_string(i) + "\n" + how); }
	}
	// lists of basic sets: pairwise facts on the pieces
	if (n_basic(a) >= 1 && n_basic(b) >= 1) {
		H<isl_basic_set_list> la(isl_set_get_basic_set_list(a.g())), lb(isl_set_get_basic_set_list(b.g()));
		BSet x(isl_basic_set_list_get_basic_set(la.g(), 0)), y(isl_basic_set_list_get_basic_set(lb.g(), c.t.below(isl_basic_set_list_n_basic_set(lb.g()))));
		MMap mx = extract(c, x.g()), my = extract(c, y.g());
		Bits X = bits(mx, w), Y = bits(my, w);
		bool e = true, s = true, q = true, d = true;
		for (size_t i = 0; i < w.size(); ++i) { if (X[i]) e = false; if (X[i] && !Y[i]) s = false; if (!X[i] && Y[i]) q = false; if (X[i] && Y[i]) d = false; }
		std::string h2 = "x = " + S(x) + "\ny = " + S(y);
		ans(c, "isl_basic_set_is_empty", isl_basic_set_is_empty(x.g()), e, h2);
		ans(c, "isl_basic_set_plain_is_empty", isl_basic_set_plain_is_empty(x.g()), e, h2, true);
		ans(c, "isl_basic_set_is_subset", isl_basic_set_is_subset(x.g(), y.g()), s, h2);
		ans(c, "isl_basic_set_is_equal", isl_basic_set_is_equal(x.g(), y.g()), s && q, h2);
		ans(c, "isl_basic_set_plain_is_equal", isl_basic_set_plain_is_equal(x.g(), y.g()), s && q, h2, true);
		ans(c, "isl_basic_set_is_disjoint", isl_basic_set_is_disjoint(x.g(), y.g()), d, h2);
		if (n > 0) { ans(c, "isl_basic_set_is_universe", isl_basic_set_is_universe(x.g()), false, h2); ans(c, "isl_basic_set_plain_is_universe", isl_basic_set_plain_is_universe(x.g()), false, h2); }
		ans(c, "isl_basic_set_is_bounded", isl_basic_set_is_bounded(x.g()), true, h2, true);
	}
	if (n > 0) ans(c, "isl_set_plain_is_universe", isl_set_plain_is_universe(a.g()), false, how);
}

void bounded_maps(Case &c)
{
	Sp sp = gen_map_space(c, 1, 1 + c.t.below(2), 1, false);
	if (c.t.chance(1, 3)) { sp.in = sp.out = gen_tup(c, sp.np() ? 1 : 2, false); }
	int np = sp.np(), ni = sp.ni(), no = sp.no(), n = np + ni + no;
	if (n > 4) return;
	GenOpt o;
	o.max_basic = 3; o.box = 4;
	int lo = n >= 4 ? -2 : -4, hi = n >= 4 ? 3 : 5;
	Map a, b;
	int how_a = c.t.below(4);
	if (how_a == 0) a = R(c, isl_map_from_pw_multi_aff(gen_pma(c, sp).r()), "isl_map_from_pw_multi_aff");
	else if (how_a == 1 && sp.in.dim() == sp.out.dim() && sp.in.sub.empty()) {
		// identity or translation with a few elements changed
		Map id = R(c, isl_map_identity(mk_space(c, map_sp(sp, sp.out, sp.out))), "isl_map_identity");
		Set dm = gen_set(c, set_sp(sp, sp.out), o);
		sp.in = sp.out;
		a = R(c, isl_map_intersect_domain(id.c(), dm.c()), "isl_map_intersect_domain");
		if (c.t.chance(1, 2)) {
			MAff f = gen_maff(c, sp, 0);
			a = R(c, isl_map_sum(a.c(), isl_map_from_multi_aff(f.c())), "isl_map_sum");
		}
		ni = sp.ni(); no = sp.no(); n = np + ni + no;
	} else a = gen_map(c, sp, o);
	a = clip(c, a, lo, hi);
	b = clip(c, how_a == 1 ? a : gen_map(c, sp, o), lo, hi);
	b = derive<Map>(c, a, b, a);
	std::string how = "a = " + S(a) + "\nb = " + S(b);
	c.log << how << "\n";
	MMap ma = extract(c, a.g()), mb = extract(c, b.g());
	if (ma.nvar() != n) return;
	auto w = box_points(n, lo, hi);
	Bits A = bits(ma, w), Bb = bits(mb, w);
	bool ea = true, sub = true, sup = true, dis = true, sv = true, inj = true, ident = true;
	std::map<Pt, Pt> img, pre;
	bool trans = true; bool have = false; std::map<Pt, Pt> delta;
	for (size_t i = 0; i < w.size(); ++i) {
		if (A[i]) {
			ea = false;
			Pt x = vp::sub(w[i], 0, np + ni), y = vp::sub(w[i], np + ni, no), py = cat(vp::sub(w[i], 0, np), y);
			if (img.count(x)) sv = false; else img[x] = y;
			if (pre.count(py)) inj = false; else pre[py] = x;
			if (ni != no) ident = trans = false;
			else {
				Pt d;
				for (int k = 0; k < no; ++k) d.push_back(y[k] - x[np + k]);
				for (auto v : d) if (v) ident = false;
				// constant distance over everything
				if (!have) { have = true; delta[{}] = d; } else if (delta[{}] != d) trans = false;
			}
		}
		if (A[i] && !Bb[i]) sub = false;
		if (!A[i] && Bb[i]) sup = false;
		if (A[i] && Bb[i]) dis = false;
	}
	ans(c, "isl_map_is_empty", isl_map_is_empty(a.g()), ea, how);
	ans(c, "isl_map_plain_is_empty", isl_map_plain_is_empty(a.g()), ea, how, true);
	ans(c, "isl_map_is_subset", isl_map_is_subset(a.g(), b.g()), sub, how);
	ans(c, "isl_map_is_strict_subset", isl_map_is_strict_subset(b.g(), a.g()), sup && !sub, how);
	ans(c, "isl_map_is_equal", isl_map_is_equal(a.g(), b.g()), sub && sup, how);
	ans(c, "isl_map_plain_is_equal", isl_map_plain_is_equal(a.g(), b.g()), sub && sup, how, true);
	ans(c, "isl_map_is_disjoint", isl_map_is_disjoint(a.g(), b.g()), dis, how);
	ans(c, "isl_map_is_single_valued", isl_map_is_single_valued(a.g()), sv, how);
	ans(c, "isl_map_plain_is_single_valued", isl_map_plain_is_single_valued(a.g()), sv, how, true);
	ans(c, "isl_map_is_injective", isl_map_is_injective(a.g()), inj, how);
	ans(c, "isl_map_plain_is_injective", isl_map_plain_is_injective(a.g()), inj, how, true);
	ans(c, "isl_map_is_bijective", isl_map_is_bijective(a.g()), sv && inj, how);
	Space s(isl_map_get_space(a.g()));
	bool same = isl_space_tuple_is_equal(s.g(), isl_dim_in, s.g(), isl_dim_out) == isl_bool_true;
	ans(c, "isl_map_is_identity", isl_map_is_identity(a.g()), same && ident, how);
	// the existing test is documented as: does the map define a translation (in its description)
	if (same && !ea && no > 0) {
		int r = isl_map_is_translation(a.g());
		if (r < 0) on_error(c, "isl_map_is_translation");
		c.label(r ? "isl_map_is_translation:yes" : "isl_map_is_translation:no");
		if (r == 1 && np == 0 && !trans) c.fail("answer:isl_map_is_translation", how);
	}
	for (int i = 0; i < no; ++i) {
		int64_t v = 0;
		int st = fixed_at(w, A, np + ni + i, v);
		check_fixed(c, "isl_map_plain_get_val_if_fixed", isl_map_plain_get_val_if_fixed(a.g(), isl_dim_out, i), st, v, how);
	}
	for (int i = 0; i < n; ++i) {
		isl_dim_type ty = i < np ? isl_dim_param : i < np + ni ? isl_dim_in : isl_dim_out;
		int ps = i < np ? i : i < np + ni ? i - np : i - np - ni;
		if (B(c, isl_map_involves_dims(a.g(), ty, ps, 1), "isl_map_involves_dims")) continue;
		for (size_t k = 0; k < w.size(); ++k) { Pt q = w[k]; q[i] += 17; if (ma.has(q) != (bool)A[k]) c.fail("answer:isl_map_involves_dims", "depends on dimension " + std::to_string(i) + "\n" + how); }
	}
	if (n_basic(a) >= 1) {
		H<isl_basic_map_list> la(isl_map_get_basic_map_list(a.g()));
		BMap x(isl_basic_map_list_get_basic_map(la.g(), 0));
		MMap mx = extract(c, x.g());
		Bits X = bits(mx, w);
		bool e = true, v = true, s1 = true, s2 = true, d = true;
		std::map<Pt, Pt> im;
		BMap y(n_basic(b) ? isl_basic_map_list_get_basic_map(H<isl_basic_map_list>(isl_map_get_basic_map_list(b.g())).g(), 0) : x.c());
		Bits Y = bits(extract(c, y.g()), w);
		for (size_t i = 0; i < w.size(); ++i) {
			if (X[i]) { e = false; Pt p = vp::sub(w[i], 0, np + ni); if (im.count(p)) v = false; im[p] = {}; }
			if (X[i] && !Y[i]) s1 = false;
			if (!X[i] && Y[i]) s2 = false;
			if (X[i] && Y[i]) d = false;
		}
		std::string h2 = "x = " + S(x) + "\ny = " + S(y);
		ans(c, "isl_basic_map_is_empty", isl_basic_map_is_empty(x.g()), e, h2);
		ans(c, "isl_basic_map_plain_is_empty", isl_basic_map_plain_is_empty(x.g()), e, h2, true);
		ans(c, "isl_basic_map_is_single_valued", isl_basic_map_is_single_valued(x.g()), v, h2);
		ans(c, "isl_basic_map_is_subset", isl_basic_map_is_subset(x.g(), y.g()), s1, h2);
		ans(c, "isl_basic_map_is_strict_subset", isl_basic_map_is_strict_subset(x.g(), y.g()), s1 && !s2, h2);
		ans(c, "isl_basic_map_is_equal", isl_basic_map_is_equal(x.g(), y.g()), s1 && s2, h2);
		ans(c, "isl_basic_map_is_disjoint", isl_basic_map_is_disjoint(x.g(), y.g()), d, h2);
		ans(c, "isl_basic_map_image_is_bounded", isl_basic_map_image_is_bounded(x.g()), true, h2, true);
	}
}

// unbounded sets: emptiness by the Omega test; relational answers confirmed by
// windows (yes) and by witnesses evaluated in the model (no)
void unbounded(Case &c)
{
	Sp sp = gen_set_space(c, 2, 3, c.t.chance(1, 4));
	int np = sp.np(), ns = sp.no(), n = np + ns;
	GenOpt o;
	o.max_basic = 2;
	Set a = gen_set(c, sp, o), b = gen_set(c, sp, o);
	b = derive<Set>(c, a, b, a);
	if (n_basic(a) > 6 || n_basic(b) > 6) c.discard("many pieces");
	std::string how = "a = " + S(a) + "\nb = " + S(b);
	c.log << how << "\n";
	MMap ma = extract(c, a.g()), mb = extract(c, b.g());
	ans(c, "isl_set_is_empty", isl_set_is_empty(a.g()), empty(ma), how);
	ans(c, "isl_set_plain_is_empty", isl_set_plain_is_empty(a.g()), empty(ma), how, true);
	MMap both = conj(ma, mb);
	ans(c, "isl_set_is_disjoint", isl_set_is_disjoint(a.g(), b.g()), empty(both), how);
	ans(c, "isl_set_plain_is_disjoint", isl_set_plain_is_disjoint(a.g(), b.g()), empty(both), how, true);
	auto witness = [&](const Set &x, const Set &y, const MMap &mx, const MMap &my, const char *op) {
		Set d = R(c, isl_set_subtract(x.c(), y.c()), "isl_set_subtract");
		Point p = R(c, isl_set_sample_point(d.r()), "isl_set_sample_point");
		if (isl_point_is_void(p.g()) == isl_bool_true) c.fail(std::string("answer:") + op, "not a subset, but the difference is empty\n" + how);
		Pt q = point_of(c, p.g(), np, ns);
		if (!mx.has(q) || my.has(q)) c.fail(std::string("answer:") + op, "witness " + str(q) + " of the difference is not one\n" + how);
	};
	bool s1 = B(c, isl_set_is_subset(a.g(), b.g()), "isl_set_is_subset");
	bool s2 = B(c, isl_set_is_subset(b.g(), a.g()), "isl_set_is_subset");
	c.label(s1 ? "unbounded subset:yes" : "unbounded subset:no");
	Window w = make_window(n, 900);
	for (auto &p : w.pts) {
		bool x = ma.has(p), y = mb.has(p);
		if (s1 && x && !y) c.fail("answer:isl_set_is_subset", "said subset, but " + str(p) + "\n" + how);
		if (s2 && y && !x) c.fail("answer:isl_set_is_subset", "said superset, but " + str(p) + "\n" + how);
	}
	if (!s1) witness(a, b, ma, mb, "isl_set_is_subset");
	if (!s2) witness(b, a, mb, ma, "isl_set_is_subset");
	ans(c, "isl_set_is_equal", isl_set_is_equal(a.g(), b.g()), s1 && s2, how);
	ans(c, "isl_set_plain_is_equal", isl_set_plain_is_equal(a.g(), b.g()), s1 && s2, how, true);
	ans(c, "isl_set_is_strict_subset", isl_set_is_strict_subset(a.g(), b.g()), s1 && !s2, how);
	// boundedness: recession directions of each piece with the parameters at zero
	bool known = true, all = true;
	for (auto &bb : ma.d) {
		for (auto &d : bb.divs) if (!d.known) known = false;
		if (!sat(bb)) continue;
		MBasic cone = bb;
		cone.compiled = 0;
		for (auto &r : cone.eq) r[0] = 0;
		for (auto &r : cone.ineq) r[0] = 0;
		// rational recession cone: divs are plain variables tied to their definition
		std::vector<ZRow> eq = cone.eq, in = cone.ineq;
		for (size_t k = 0; k < cone.divs.size(); ++k) if (cone.divs[k].known) {
			ZRow r = cone.divs[k].num; r.resize(cone.width()); r[0] = 0; r[1 + n + k] -= cone.divs[k].den;
			eq.push_back(r);
		}
		for (int i = 0; i < np; ++i) { ZRow r(cone.width()); r[1 + i] = 1; eq.push_back(r); }
		for (int i = 0; i < ns; ++i) for (int s = -1; s <= 1; s += 2) {
			ZRow r(cone.width()); r[1 + np + i] = s; r[0] = -1;
			auto in2 = in; in2.push_back(r);
			if (omega_sat(cone.width() - 1, eq, in2)) all = false;
		}
	}
	bool bd = B(c, isl_set_is_bounded(a.g()), "isl_set_is_bounded");
	c.label(bd ? "isl_set_is_bounded:yes" : "isl_set_is_bounded:no");
	if (bd && !all) c.fail("answer:isl_set_is_bounded", "said bounded, but a piece has a recession direction\n" + how);
	if (!bd && all && known) {
		// every non-empty piece is bounded: only empty pieces may be unbounded
		bool any_empty = false;
		for (auto &bb : ma.d) if (!sat(bb)) any_empty = true;
		if (!any_empty) c.fail("answer:isl_set_is_bounded", "said unbounded, but no piece has a recession direction\n" + how);
	}
	// bounds on a single dimension: claimed bounds hold (values far away are not members)
	for (int i = 0; i < ns; ++i) {
		bool lb = B(c, isl_set_dim_has_lower_bound(a.g(), isl_dim_set, i), "isl_set_dim_has_lower_bound");
		bool ub = B(c, isl_set_dim_has_upper_bound(a.g(), isl_dim_set, i), "isl_set_dim_has_upper_bound");
		bool alb = B(c, isl_set_dim_has_any_lower_bound(a.g(), isl_dim_set, i), "isl_set_dim_has_any_lower_bound");
		bool aub = B(c, isl_set_dim_has_any_upper_bound(a.g(), isl_dim_set, i), "isl_set_dim_has_any_upper_bound");
		if (n_basic(a) && ((lb && !alb) || (ub && !aub))) c.fail("answer:isl_set_dim_has_lower_bound", "bound on all pieces but not on any\n" + how);
		int64_t v = 0; (void)v;
		Val f = R(c, isl_set_plain_get_val_if_fixed(a.g(), isl_dim_set, i), "isl_set_plain_get_val_if_fixed");
		if (isl_val_is_nan(f.g()) != isl_bool_true) {
			mpq_class q = take_rat(c, f.r());
			for (auto &p : w.pts) if (ma.has(p) && q != p[np + i]) c.fail("fixed:isl_set_plain_get_val_if_fixed", q.get_str() + " at " + str(p) + "\n" + how);
		}
	}
	// universality of a disjunct
	for (auto ul = isl_set_get_basic_set_list(a.g()); ul; ul = isl_basic_set_list_free(ul)) {
		int k = isl_basic_set_list_n_basic_set(ul);
		for (int i = 0; i < k; ++i) {
			BSet x(isl_basic_set_list_get_basic_set(ul, i));
			bool u = B(c, isl_basic_set_is_universe(x.g()), "isl_basic_set_is_universe");
			MBasic m = extract_bset(c, x.g());
			bool truth = true;
			// complement of each constraint is empty (existentials: decided on the window only)
			for (auto &p : w.pts) if (!m.has(p)) { truth = false; break; }
			if (u && !truth) { isl_basic_set_list_free(ul); c.fail("answer:isl_basic_set_is_universe", S(x)); }
			if (!u && m.divs.empty()) {
				bool any = false;
				for (auto &r : m.eq) { for (auto &z : r) if (z != 0) any = true; }
				for (auto &r : m.ineq) { bool nz = false; for (size_t j = 1; j < r.size(); ++j) if (r[j] != 0) nz = true; if (nz || r[0] < 0) any = true; }
				if (!any) { isl_basic_set_list_free(ul); c.fail("answer:isl_basic_set_is_universe", "no constraint, but not universe: " + S(x)); }
			}
			c.label(u ? "isl_basic_set_is_universe:yes" : "isl_basic_set_is_universe:no");
		}
	}
	c.nontrivial = true;
}

void run(Case &c)
{
	int k = c.t.below(10);
	if (k < 4) bounded_sets(c); else if (k < 7) bounded_maps(c); else unbounded(c);
}
} // namespace

Prop vp::the_prop = {"C03",
	"Case = a pair of random sets or relations (0-2 parameters, up to 3 dimensions, strides, existentials, unions; the second often derived from the first so that "
	"subset, equality and disjointness occur) and every yes/no question asked of them. Bounded cases: the truth is computed by enumerating all points of a box that "
	"contains them. Unbounded cases: emptiness and disjointness by an independent Omega test, positive subset answers on a window, negative ones by a witness evaluated "
	"in the model, boundedness by recession directions. Non-trivial: at least one answer was compared.",
	run, 40000, 2000000};
