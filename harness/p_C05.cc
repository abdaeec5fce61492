// C05: hulls enclose their argument and are as tight as documented.
#include "fn.h"
#include "lp.h"
using namespace vp;

namespace {
bool no_divs(const MMap &m) { for (auto &b : m.d) if (!b.divs.empty()) return false; return true; }
std::vector<Poly> polys(const MMap &m)
{
	std::vector<Poly> r;
	for (auto &b : m.d) { Poly p; p.eq = q(b.eq); p.ineq = q(b.ineq); r.push_back(p); }
	return r;
}
// isl may drop a constraint that holds for all integer elements satisfying the
// others even though it cuts off some rational points, in which case the
// (rational) convex hull it computes grows.  This cannot happen when all
// constraints are of the form +-x >= c or x - y >= c.
bool difference_bounds(const std::vector<Poly> &ps)
{
	for (auto &p : ps) for (auto *rs : {&p.eq, &p.ineq}) for (auto &r : *rs) {
		int nz = 0;
		mpq_class sum = 0;
		for (size_t i = 1; i < r.size(); ++i) if (r[i] != 0) { nz++; sum += r[i]; if (abs(r[i]) != 1) return false; }
		if (nz > 2 || (nz == 2 && sum != 0)) return false;
	}
	return true;
}
// Similarly, the library may first fuse disjuncts into a single basic set with
// the same integer elements but with more rational elements.  This cannot
// happen if the hull of each pair has integer elements outside the pair.
bool may_coalesce(int n, const MMap &m, const std::vector<Poly> &ps, const std::vector<Pt> &box)
{
	for (size_t i = 0; i < ps.size(); ++i) for (size_t j = i + 1; j < ps.size(); ++j) {
		bool ij = true, ji = true, other = false;
		for (auto &x : box) { bool a = m.d[i].has(x), b = m.d[j].has(x); if (a && !b) ij = false; if (b && !a) ji = false; }
		if (ij || ji) continue;
		std::vector<Poly> pr = {ps[i], ps[j]};
		std::vector<Pt> pi, pj;
		for (auto &x : box) { if (m.d[i].has(x)) pi.push_back(x); if (m.d[j].has(x)) pj.push_back(x); }
		for (int t = 0; t < 30; ++t) {    // (roughly) midpoints
			auto &a = pi[(t * 7 + 1) % pi.size()], &b = pj[(t * 11 + 3) % pj.size()];
			Pt x(n);
			for (int k = 0; k < n; ++k) x[k] = (a[k] + b[k]) >> 1;
			if (m.d[i].has(x) || m.d[j].has(x)) continue;
			QRow pt;
			for (auto v : x) pt.push_back((long)v);
			if (in_hull(n, pr, pt)) { other = true; break; }
		}
		if (!other) return true;
	}
	return false;
}
// basis of the linear span of the rows (1, p)
struct Span {
	std::vector<QRow> rows;
	int r = 0;
	void add(const Pt &p) { if (!has(p)) { rows.push_back(row(p)); r++; } }
	static QRow row(const Pt &p) { QRow q(1 + p.size()); q[0] = 1; for (size_t i = 0; i < p.size(); ++i) q[1 + i] = (long)p[i]; return q; }
	bool has(const Pt &p) const { auto m = rows; m.push_back(row(p)); return rank(m) == r; }
};

enum { AFF, CONVEX, POLY, SIMPLE, UNSH, PLAIN, BSIMPLE, LIST, BAFF, NOPS };
const char *nm[] = {"affine_hull", "convex_hull", "polyhedral_hull", "simple_hull", "unshifted_simple_hull", "plain_unshifted_simple_hull", "bounded_simple_hull", "unshifted_simple_hull_from_list", "basic_affine_hull"};

BSet hull(Case &c, const Set &a, int op, const Set &l)
{
	switch (op) {
	case AFF: return R(c, isl_set_affine_hull(a.c()), nm[op]);
	case CONVEX: return R(c, isl_set_convex_hull(a.c()), nm[op]);
	case POLY: return R(c, isl_set_polyhedral_hull(a.c()), nm[op]);
	case SIMPLE: return R(c, isl_set_simple_hull(a.c()), nm[op]);
	case UNSH: return R(c, isl_set_unshifted_simple_hull(a.c()), nm[op]);
	case PLAIN: return R(c, isl_set_plain_unshifted_simple_hull(a.c()), nm[op]);
	case BSIMPLE: return R(c, isl_set_bounded_simple_hull(a.c()), nm[op]);
	case LIST: {
		isl_set_list *list = isl_set_list_from_set(l.c());
		if (c.t.chance(1, 2)) list = isl_set_list_add(list, a.c());
		return R(c, isl_set_unshifted_simple_hull_from_set_list(a.c(), list), nm[op]); }
	}
	return BSet();
}
BMap hull(Case &c, const Map &a, int op, const Map &l)
{
	switch (op) {
	case AFF: return R(c, isl_map_affine_hull(a.c()), nm[op]);
	case CONVEX: return R(c, isl_map_convex_hull(a.c()), nm[op]);
	case POLY: return R(c, isl_map_polyhedral_hull(a.c()), nm[op]);
	case SIMPLE: return R(c, isl_map_simple_hull(a.c()), nm[op]);
	case UNSH: return R(c, isl_map_unshifted_simple_hull(a.c()), nm[op]);
	case PLAIN: return R(c, isl_map_plain_unshifted_simple_hull(a.c()), nm[op]);
	case LIST: {
		H<isl_map_list> list(isl_map_list_from_map(l.c()));
		if (c.t.chance(1, 2)) list = R(c, isl_map_list_add(list.r(), a.c()), "list");
		return R(c, isl_map_unshifted_simple_hull_from_map_list(a.c(), list.c()), nm[op]); }
	}
	return BMap();
}
BSet basic_aff(Case &c, const Set &a) { H<isl_basic_set_list> l(isl_set_get_basic_set_list(a.g())); BSet b(isl_basic_set_list_get_basic_set(l.g(), 0)); return R(c, isl_basic_set_affine_hull(b.c()), nm[BAFF]); }
BMap basic_aff(Case &c, const Map &a) { H<isl_basic_map_list> l(isl_map_get_basic_map_list(a.g())); BMap b(isl_basic_map_list_get_basic_map(l.g(), 0)); return R(c, isl_basic_map_affine_hull(b.c()), nm[BAFF]); }
Set first(Case &c, const Set &a) { H<isl_basic_set_list> l(isl_set_get_basic_set_list(a.g())); return R(c, isl_set_from_basic_set(isl_basic_set_list_get_basic_set(l.g(), 0)), "first"); }
Map first(Case &c, const Map &a) { H<isl_basic_map_list> l(isl_map_get_basic_map_list(a.g())); return R(c, isl_map_from_basic_map(isl_basic_map_list_get_basic_map(l.g(), 0)), "first"); }
int n_listed(const Set &a) { H<isl_basic_set_list> l(isl_set_get_basic_set_list(a.g())); return isl_basic_set_list_n_basic_set(l.g()); }
int n_listed(const Map &a) { H<isl_basic_map_list> l(isl_map_get_basic_map_list(a.g())); return isl_basic_map_list_n_basic_map(l.g()); }
isl_space *space_of(const BSet &b) { return isl_basic_set_get_space(b.g()); }
isl_space *space_of(const BMap &b) { return isl_basic_map_get_space(b.g()); }

bool bounded_(Case &c, const BSet &b) { return vp::B(c, isl_basic_set_is_bounded(b.g()), "isl_basic_set_is_bounded"); }
bool bounded_(Case &, const BMap &) { return true; }

// x inside [-5, 5]^n; every hull result is examined on a larger box
template <class T, class BT> void go(Case &c, const Sp &sp, T a, const T &l, const MMap &ml, bool isbox, bool clipped, bool dbm = false)
{
	int n = sp.np() + sp.ni() + sp.no();
	int op = dbm && c.t.chance(3, 4) ? (c.t.chance(1, 2) ? CONVEX : POLY) : isbox ? (c.t.chance(1, 2) ? SIMPLE : c.t.chance(1, 2) ? BSIMPLE : POLY) : c.t.weighted({6, 5, 4, 5, 3, 2, 3, 4, 3});
	if (sp.is_map && op == BSIMPLE) op = SIMPLE;
	if (op == BAFF) { if (n_listed(a) < 1) return; a = first(c, a); if (n_listed(a) < 1) return; }
	MMap ma = extract(c, a.g());
	if (isbox) for (auto &b : ma.d) for (auto *rs : {&b.eq, &b.ineq}) for (auto &r : *rs) {
		int nz = 0;
		for (size_t i = 1; i < r.size(); ++i) nz += r[i] != 0;
		if (nz > 1) isbox = false;
	}
	std::string how = "a = " + S(a) + "\n" + nm[op] + (op == LIST ? "\nlist element = " + S(l) : "");
	c.log << how << "\n";
	BT b = op == BAFF ? basic_aff(c, a) : hull(c, a, op, l);
	MMap mb = extract(c, b.g());
	std::string hr = "result: " + S(b) + "\n" + how;
	c.label(nm[op]);
	want_space(c, nm[op], space_of(b), sp, how);
	// the hull contains the argument
	auto box = box_points(n, n >= 4 ? (clipped ? -4 : -3) : clipped ? -8 : -6, n >= 4 ? (clipped ? 4 : 3) : clipped ? 8 : 6);
	if (box.size() > 7000) { auto w = make_window(n, 3000); box = w.pts; }
	Span sp_;
	std::vector<char> in(box.size()), res(box.size());
	long nin = 0;
	for (size_t i = 0; i < box.size(); ++i) {
		in[i] = ma.has(box[i]); res[i] = mb.has(box[i]);
		if (in[i]) { sp_.add(box[i]); nin++; }
		if (in[i] && !res[i]) c.fail(nm[op], "the hull misses the element " + str(box[i]) + "\n" + hr);
	}
	if (nin > 1) c.nontrivial = true;
	bool nd = no_divs(ma), ndb = no_divs(mb);
	if ((op == CONVEX && nd) || op == POLY)
		if (!ndb) c.fail(nm[op], "the result has integer divisions\n" + hr);
	if ((op == AFF || op == BAFF) && (clipped || nin == 0)) {
		bool empty = true;
		for (auto &x : ma.d) if (sat(x)) empty = false;
		if (!mb.d.empty()) for (auto &x : mb.d) if (!x.ineq.empty() && x.divs.empty()) c.fail(nm[op], "the result has inequality constraints\n" + hr);
		if (empty) { for (size_t i = 0; i < box.size(); ++i) if (res[i]) c.fail(nm[op], "hull of an empty set contains " + str(box[i]) + "\n" + hr); }
		else if (clipped) {
			int cand = 0;
			for (size_t i = 0; i < box.size() && cand < 60; ++i) if (res[i] && !in[i]) { cand++; if (!sp_.has(box[i])) c.fail(nm[op], "the element " + str(box[i]) + " of the hull is not an affine combination of elements of the argument\n" + hr); }
			// far away candidates as well
			for (int k = 0; k < 40; ++k) {
				Pt p(n);
				for (auto &x : p) x = (int64_t)c.t.below(61) - 30;
				if (mb.has(p) && !sp_.has(p)) c.fail(nm[op], "the element " + str(p) + " of the hull is not an affine combination of elements of the argument\n" + hr);
			}
		}
	}
	bool exact_hull = (op == CONVEX || op == POLY) && nd && ndb && clipped;
	if (exact_hull) {
		auto ps = polys(ma);
		exact_hull = difference_bounds(ps) && !may_coalesce(n, ma, ps, box);
		int k = 0;
		for (size_t i = 0; exact_hull && i < box.size() && k < 60; ++i) {
			size_t z = (i * 7919 + 13) % box.size();   // spread over the window
			if (!res[z] || in[z]) continue;
			++k;
			QRow pt;
			for (auto x : box[z]) pt.push_back((long)x);
			if (!in_hull(n, ps, pt))
				c.fail(nm[op], "the element " + str(box[z]) + " of the result is outside the convex hull of the argument\n" + hr);
		}
		if (exact_hull) c.label(std::string(nm[op]) + ":checked exact");
	}
	if (isbox && (op == SIMPLE || op == BSIMPLE) && nd && nin) {
		Pt lo, hi;
		for (size_t i = 0; i < box.size(); ++i) if (in[i]) {
			if (lo.empty()) { lo = hi = box[i]; }
			for (int j = 0; j < n; ++j) { lo[j] = std::min(lo[j], box[i][j]); hi[j] = std::max(hi[j], box[i][j]); }
		}
		for (size_t i = 0; i < box.size(); ++i) {
			bool inside = true;
			for (int j = 0; j < n; ++j) if (box[i][j] < lo[j] || box[i][j] > hi[j]) inside = false;
			if (!inside && res[i]) c.fail(nm[op], "the hull of a union of boxes is not inside the bounding box at " + str(box[i]) + "\n" + hr);
		}
		c.label("boxes");
	}
	if ((op == SIMPLE || op == UNSH || op == PLAIN || op == BSIMPLE) && ma.d.size() == 1 && nd)
		for (size_t i = 0; i < box.size(); ++i) if (res[i] && !in[i]) c.fail(nm[op], "the hull of a single polyhedron differs from it at " + str(box[i]) + "\n" + hr);
	if (op == LIST && ml.d.size() == 1 && no_divs(ml)) {
		bool incl = clipped && true;
		for (auto &x : box) if (ma.has(x) && !ml.has(x)) incl = false;
		(void)incl;
		// no constraint from elsewhere: when only "l" supplies constraints, l is inside the result
	}
	if (op == BSIMPLE && clipped && nin) {
		if (!bounded_(c, b)) c.fail(nm[op], "the bounded simple hull of a bounded set is unbounded\n" + hr);
	}
}

// the list variant with a single superset must return exactly the superset
void list_exact(Case &c, const Sp &sp)
{
	GenOpt o;
	o.allow_exist = o.allow_div = false; o.max_basic = 1;
	Set l = gen_set(c, sp, o, false);
	GenOpt o2; o2.max_basic = 3;
	Set a = R(c, isl_set_intersect(gen_set(c, sp, o2).r(), l.c()), "intersect");
	MMap ml = extract(c, l.g()), ma = extract(c, a.g());
	if (ml.d.size() != 1 || !no_divs(ml)) return;
	bool ne = false;
	for (auto &b : ma.d) if (sat(b)) ne = true;
	if (!ne) return;
	std::string how = "a = " + S(a) + "\nlist = " + S(l);
	c.log << how << "\n";
	isl_set_list *list = isl_set_list_from_set(l.c());
	BSet b = R(c, isl_set_unshifted_simple_hull_from_set_list(a.c(), list), "isl_set_unshifted_simple_hull_from_set_list");
	MMap mb = extract(c, b.g());
	auto w = make_window(sp.np() + sp.no(), 1500);
	for (auto &p : w.pts) if (mb.has(p) != ml.has(p)) c.fail("list exact", "all constraints of the list element are valid, but the result differs from it at " + str(p) + "\nresult: " + S(b) + "\n" + how);
	c.label("list exact");
	c.nontrivial = true;
}

void run(Case &c)
{
	int kind = c.t.weighted({6, 2, 2, 2, 1, 3});
	bool clipped = c.t.chance(2, 3);
	GenOpt o;
	o.max_basic = 3;
	if (kind == 4) { Sp sp = gen_set_space(c, 1, 2); return list_exact(c, sp); }
	if (kind == 1) {   // relations
		Sp sp = gen_map_space(c, 1, 2, 2);
		if (sp.np() + sp.ni() + sp.no() > 4) sp.params.clear();
		bool nd = c.t.chance(1, 2);
		if (nd) o.allow_exist = o.allow_div = false;
		Map a = gen_map(c, sp, o);
		Map l = gen_map(c, sp, o);
		if (clipped) a = clip(c, a, -3, 3);
		return go<Map, BMap>(c, sp, a, l, extract(c, l.g()), false, clipped);
	}
	Sp sp = gen_set_space(c, 1, 3);
	if (kind == 2) {   // unions of boxes
		o.only_box = true; o.allow_exist = o.allow_div = false;
		sp.params.clear();
		Set a = clip(c, gen_set(c, sp, o), -6, 6);
		return go<Set, BSet>(c, sp, a, a, MMap(), true, sp.np() + sp.no() < 4);
	}
	if (kind == 5) {   // unions of sets with difference constraints
		if (sp.np() + sp.no() < 2) sp.out = flat_tup(c.t.range(2, 4 - sp.np()));
		int n = sp.np() + sp.no();
		MMap m(sp.np(), 0, sp.no());
		int k = c.t.range(1, 3);
		for (int i = 0; i < k; ++i) {
			MBasic b; b.nvar = n;
			for (int j = 0; j < n; ++j) {
				int lo = c.t.range(-3, 3), hi = std::min(3, lo + c.t.range(0, 4));
				ZRow r(1 + n), r2(1 + n);
				r[1 + j] = 1; r[0] = -lo; r2[1 + j] = -1; r2[0] = hi;
				b.ineq.push_back(r); b.ineq.push_back(r2);
			}
			int e = c.t.range(0, 3);
			for (int j = 0; j < e; ++j) {
				int x = c.t.below(n), y = c.t.below(n);
				if (x == y) continue;
				ZRow r(1 + n); r[1 + x] = 1; r[1 + y] = -1; r[0] = c.t.range(-2, 3);
				(c.t.chance(1, 5) ? b.eq : b.ineq).push_back(r);
			}
			m.d.push_back(b);
		}
		Set a = build_set(c, m, sp);
		return go<Set, BSet>(c, sp, a, a, MMap(), false, true, true);
	}
	bool nd = kind == 3 || c.t.chance(1, 2);
	if (nd) o.allow_exist = o.allow_div = false;
	if (kind == 3) o.max_basic = 2;
	Set a = gen_set(c, sp, o);
	Set l = gen_set(c, sp, o);
	int cl = sp.np() + sp.no() >= 4 ? 3 : 5;
	if (clipped) a = clip(c, a, -cl, cl);
	if (kind == 3 && c.t.chance(1, 2)) {   // lower-dimensional pieces
		for (int i = 0; i < 2; ++i) {
			Pt p;
			isl_set *s = isl_set_universe(mk_space(c, sp));
			for (int j = 0; j < sp.np(); ++j) s = isl_set_fix_si(s, isl_dim_param, j, c.t.range(-4, 4));
			for (int j = 0; j < sp.no(); ++j) if (!(i == 0 && j == 0) || c.t.chance(1, 2)) s = isl_set_fix_si(s, isl_dim_set, j, c.t.range(-4, 4));
			a = R(c, isl_set_union(a.c(), s), "union");
		}
		if (clipped) a = clip(c, a, -cl, cl);
	}
	go<Set, BSet>(c, sp, a, l, extract(c, l.g()), false, clipped);
}
} // namespace

Prop vp::the_prop = {"C05",
	"Case = a random set or relation (0-1 parameters, up to 4 variables, possibly strided, lower-dimensional, empty or unbounded; a part are unions of boxes) and one hull operation. "
	"Checked: every element of the window inside the argument is in the hull; affine hulls of bounded sets stay inside the rational affine span of the enumerated elements; "
	"convex/polyhedral hulls of bounded unions of difference-bound polyhedra (where rational and integer redundancy coincide) stay inside the exact convex hull (LP over the pieces); simple hulls of single polyhedra are the polyhedron, of boxes inside the bounding box; "
	"bounded simple hulls are bounded; list hulls keep every valid constraint. Non-trivial: at least two elements of the argument in the window.",
	run, 30000, 1000000};
