// C08: enumerating a set visits each integer point exactly once.
#include "fn.h"
using namespace vp;

namespace {
struct Enum { Case *c; int np, ns; std::vector<Pt> pts; long stop = -1; bool bad = false; std::string space; };
isl_stat visit(isl_point *p, void *u)
{
	Enum *e = (Enum *)u;
	if (e->stop >= 0 && (long)e->pts.size() >= e->stop) { isl_point_free(p); e->bad = true; return isl_stat_error; }
	Pt q;
	for (int i = 0; i < e->np; ++i) { isl_val *v = isl_point_get_coordinate_val(p, isl_dim_param, i); if (!isl_val_is_int(v)) e->bad = true; q.push_back(isl_val_get_num_si(v)); isl_val_free(v); }
	for (int i = 0; i < e->ns; ++i) { isl_val *v = isl_point_get_coordinate_val(p, isl_dim_set, i); if (!isl_val_is_int(v)) e->bad = true; q.push_back(isl_val_get_num_si(v)); isl_val_free(v); }
	if (e->pts.empty()) { isl_space *s = isl_point_get_space(p); e->space = S(s); isl_space_free(s); }
	isl_point_free(p);
	e->pts.push_back(q);
	if (e->stop >= 0 && (long)e->pts.size() >= e->stop) return isl_stat_error;
	return isl_stat_ok;
}

struct UEnum { std::map<std::string, std::vector<Pt>> m; };
isl_stat uvisit(isl_point *p, void *u)
{
	UEnum *e = (UEnum *)u;
	isl_space *s = isl_point_get_space(p);
	const char *nm = isl_space_has_tuple_name(s, isl_dim_set) == isl_bool_true ? isl_space_get_tuple_name(s, isl_dim_set) : "";
	Pt q;
	for (auto ty : {isl_dim_param, isl_dim_set}) for (int i = 0; i < isl_space_dim(s, ty); ++i) { isl_val *v = isl_point_get_coordinate_val(p, ty, i); q.push_back(isl_val_get_num_si(v)); isl_val_free(v); }
	e->m[std::string(nm) + "/" + std::to_string(isl_space_dim(s, isl_dim_set))].push_back(q);
	isl_space_free(s);
	isl_point_free(p);
	return isl_stat_ok;
}

// a set of the form lo <= U x <= hi with U unimodular, with its elements
Set skewed(Case &c, Sp &sp, std::set<Pt> &want)
{
	int n = c.t.range(2, 4);
	sp.params.clear(); sp.is_map = false; sp.out = flat_tup(n);
	std::vector<std::vector<int64_t>> U(n, std::vector<int64_t>(n)), V = U;  // V = U^-1
	for (int i = 0; i < n; ++i) U[i][i] = V[i][i] = 1;
	int steps = c.t.range(0, 2 * n);
	for (int k = 0; k < steps; ++k) {
		int i = c.t.below(n), j = c.t.below(n), f = c.t.range(-6, 6);
		if (i == j) continue;
		for (int x = 0; x < n; ++x) U[i][x] += f * U[j][x];       // row op
		for (int x = 0; x < n; ++x) V[x][j] -= f * V[x][i];       // inverse col op
	}
	Pt lo(n), hi(n);
	for (int i = 0; i < n; ++i) { lo[i] = c.t.range(-20, 20); hi[i] = lo[i] + c.t.below(n >= 4 ? 4 : 7); }
	int extra = c.t.below(3);
	std::vector<ZRow> ex;
	for (int i = 0; i < extra; ++i) {
		ZRow r = gen_row(c, n, 3, 4);   // in terms of z
		for (int j = 0; j < n; ++j) r[0] -= r[1 + j] * Z((lo[j] + hi[j]) / 2);
		ex.push_back(r);
	}
	MMap m(0, 0, n);
	MBasic b; b.nvar = n;
	for (int i = 0; i < n; ++i) {
		ZRow r(1 + n), q(1 + n);
		for (int j = 0; j < n; ++j) { r[1 + j] = Z(U[i][j]); q[1 + j] = -Z(U[i][j]); }
		r[0] = -Z(lo[i]); q[0] = Z(hi[i]);
		b.ineq.push_back(r); b.ineq.push_back(q);
	}
	for (auto &e : ex) {
		ZRow r(1 + n); r[0] = e[0];
		for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r[1 + j] += e[1 + i] * Z(U[i][j]);
		b.ineq.push_back(r);
	}
	m.d.push_back(b);
	Pt z = lo;
	for (;;) {
		bool ok = true;
		for (auto &e : ex) { mpz_class v = e[0]; for (int i = 0; i < n; ++i) v += e[1 + i] * Z(z[i]); if (v < 0) ok = false; }
		if (ok) { Pt x(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) x[i] += V[i][j] * z[j]; want.insert(x); }
		int k = n - 1;
		while (k >= 0 && z[k] == hi[k]) { z[k] = lo[k]; --k; }
		if (k < 0) break;
		z[k]++;
	}
	return build_set(c, m, sp);
}

void check_enum(Case &c, const Set &a, const Sp &sp, const std::set<Pt> &want, const std::string &how)
{
	int np = sp.np(), ns = sp.no();
	Enum e; e.c = &c; e.np = np; e.ns = ns;
	isl_stat st = isl_set_foreach_point(a.g(), visit, &e);
	const char *op = "isl_set_foreach_point";
	if (st != isl_stat_ok) on_error(c, op);
	if (e.bad) c.fail(op, "a visited point is not integral\n" + how);
	std::set<Pt> got;
	for (auto &p : e.pts) {
		if (!want.count(p)) c.fail(op, "visits " + str(p) + " which is not an element\n" + how);
		if (!got.insert(p).second) c.fail(op, "visits " + str(p) + " twice\n" + how);
	}
	for (auto &p : want) if (!got.count(p)) c.fail(op, "misses " + str(p) + "\n" + how);
	if (!e.pts.empty() && e.space != S(Space(isl_set_get_space(a.g())))) c.fail(op, "points live in space " + e.space + "\n" + how);
	c.label(op);
	if (want.size() >= 2) c.nontrivial = true;
	Val n = R(c, isl_set_count_val(a.g()), "isl_set_count_val");
	if (!isl_val_is_int(n.g()) || val_num(n.g()) != mpz_class((unsigned long)want.size())) c.fail("isl_set_count_val", "count is " + S(n) + " instead of " + std::to_string(want.size()) + "\n" + how);
	// early termination
	if (!want.empty()) {
		Enum f; f.c = &c; f.np = np; f.ns = ns; f.stop = 1 + c.t.below(want.size());
		st = isl_set_foreach_point(a.g(), visit, &f);
		if (st == isl_stat_ok) c.fail(op, "reports success although the callback failed\n" + how);
		if (f.bad || (long)f.pts.size() != f.stop) c.fail(op, "calls the callback " + std::to_string(f.pts.size()) + " times (or more) although it failed on call " + std::to_string(f.stop) + "\n" + how);
		clear_error(c);
	}
}

void run_enum(Case &c)
{
	std::set<Pt> want;
	Sp sp;
	Set a;
	std::string how;
	if (c.t.chance(1, 3)) {
		a = skewed(c, sp, want);
		how = "a = " + S(a);
	} else {
		sp = gen_set_space(c, 2, 3, c.t.chance(1, 5));
		int n = sp.np() + sp.no();
		if (n > 4) { sp.params.clear(); n = sp.no(); }
		GenOpt o; o.max_basic = 4; o.box = 4; o.coef = c.t.chance(1, 4) ? 9 : 3;
		int W = n >= 4 ? 2 : n == 3 ? 4 : n == 1 ? 15 : 6;
		a = clip(c, gen_set(c, sp, o), -W, W);
		MMap m = extract(c, a.g());
		for (auto &p : box_points(n, -W, W)) if (m.has(p)) want.insert(p);
		how = "a = " + S(a);
	}
	c.log << how << "\n";
	check_enum(c, a, sp, want, how);
}

void run_union(Case &c)
{
	USet u = R(c, isl_union_set_empty_ctx(c.ctx), "empty");
	std::map<std::string, std::set<Pt>> want;
	int k = c.t.range(1, 4);
	const char *names[] = {"A", "B", "", "C"};
	for (int i = 0; i < k; ++i) {
		Sp sp; sp.out = mk_tup(names[c.t.below(4)], c.t.range(0, 2));
		if (!sp.out.n && sp.out.name.empty()) sp.out.name = "Z";
		GenOpt o; o.max_basic = 2; o.allow_exist = c.t.chance(1, 2);
		Set s = clip(c, gen_set(c, sp, o), -3, 3);
		MMap m = extract(c, s.g());
		for (auto &p : box_points(sp.no(), -3, 3)) if (m.has(p)) want[sp.out.name + "/" + std::to_string(sp.no())].insert(p);
		u = R(c, isl_union_set_union(u.r(), isl_union_set_from_set(s.c())), "union");
	}
	std::string how = "u = " + S(u);
	c.log << how << "\n";
	UEnum e;
	if (isl_union_set_foreach_point(u.g(), uvisit, &e) != isl_stat_ok) on_error(c, "isl_union_set_foreach_point");
	std::map<std::string, std::set<Pt>> got;
	for (auto &kv : e.m) for (auto &p : kv.second) if (!got[kv.first].insert(p).second) c.fail("isl_union_set_foreach_point", kv.first + str(p) + " is visited twice\n" + how);
	if (got != want) c.fail("isl_union_set_foreach_point", "wrong set of points\n" + how);
	if (want.size() > 1) c.nontrivial = true;
	c.label("isl_union_set_foreach_point");
}

void run_point(Case &c)
{
	Sp sp = gen_set_space(c, 2, 4, c.t.chance(1, 4));
	int np = sp.np(), ns = sp.no(), n = np + ns;
	auto coord = [&] { return c.t.chance(1, 8) ? (int64_t)(c.t.chance(1, 2) ? 1 : -1) * ((int64_t)1 << (30 + c.t.below(20))) : (int64_t)c.t.range(-4, 4); };
	auto mk = [&](Pt &p) {
		isl_point *q = isl_point_zero(mk_space(c, sp));
		p.assign(n, 0);
		for (int i = 0; i < n; ++i) {
			auto ty = i < np ? isl_dim_param : isl_dim_set; int pos = i < np ? i : i - np;
			int64_t v = coord();
			p[i] = v;
			q = isl_point_set_coordinate_val(q, ty, pos, isl_val_int_from_si(c.ctx, v));
			if (c.t.chance(1, 4)) { unsigned d = c.t.below(20); if (c.t.chance(1, 2)) { q = isl_point_add_ui(q, ty, pos, d); p[i] += d; } else { q = isl_point_sub_ui(q, ty, pos, d); p[i] -= d; } }
		}
		return R(c, q, "isl_point");
	};
	Pt p, q;
	Point a = mk(p), b = mk(q);
	// make the points close in some coordinates so that the box is examined properly
	std::string how = "a = " + S(a) + "\nb = " + S(b);
	c.log << how << "\n";
	// coordinates
	auto coords = [&](const Point &x) { return point_of(c, x.g(), np, ns); };
	if (coords(a) != p) c.fail("point coordinates", "coordinates are " + str(coords(a)) + " instead of " + str(p) + "\n" + how);
	{ H<isl_multi_val> mv = R(c, isl_point_get_multi_val(a.g()), "isl_point_get_multi_val");
	  if (isl_multi_val_size(mv.g()) != ns) c.fail("isl_point_get_multi_val", "wrong size\n" + how);
	  for (int i = 0; i < ns; ++i) { Val v = R(c, isl_multi_val_get_val(mv.g(), i), "get"); if (!isl_val_is_int(v.g()) || val_num(v.g()) != Z(p[np + i])) c.fail("isl_point_get_multi_val", "wrong value\n" + how); } }
	// singletons
	int k = c.t.below(3);
	Set s;
	if (k == 0) s = R(c, isl_set_from_point(a.c()), "isl_set_from_point");
	else if (k == 1) s = R(c, isl_set_from_basic_set(isl_basic_set_from_point(a.c())), "isl_basic_set_from_point");
	else s = R(c, isl_set_from_union_set(isl_union_set_from_point(a.c())), "isl_union_set_from_point");
	want_space(c, "from_point", isl_set_get_space(s.g()), sp, how);
	MMap m = extract(c, s.g());
	std::vector<Pt> near = {p, q};
	for (int i = 0; i < n; ++i) for (int d : {-1, 1}) { Pt x = p; x[i] += d; near.push_back(x); x = q; x[i] += d; near.push_back(x); x = p; x[i] = q[i]; near.push_back(x); x = p; x[i] = -x[i]; near.push_back(x); }
	for (auto &x : near) if (m.has(x) != (x == p)) c.fail("from_point", "the singleton set is wrong at " + str(x) + "\n" + how);
	if (!B(c, isl_set_is_singleton(s.g()), "isl_set_is_singleton")) c.fail("isl_set_is_singleton", "not singleton\n" + how);
	Point sm = R(c, isl_set_sample_point(s.c()), "sample");
	if (coords(sm) != p) c.fail("isl_set_sample_point", "sample of a singleton is " + S(sm) + "\n" + how);
	// boxes
	bool basic = c.t.chance(1, 2);
	// parameters must be equal
	Point b2 = b; Pt q2 = q;
	MMap mb;
	for (int i = 0; i < np; ++i) { b2 = R(c, isl_point_set_coordinate_val(b2.r(), isl_dim_param, i, isl_val_int_from_si(c.ctx, p[i])), "set"); q2[i] = p[i]; }
	Set box = basic ? R(c, isl_set_from_basic_set(isl_basic_set_box_from_points(a.c(), b2.c())), "isl_basic_set_box_from_points") : R(c, isl_set_box_from_points(a.c(), b2.c()), "isl_set_box_from_points");
	want_space(c, "box_from_points", isl_set_get_space(box.g()), sp, how);
	mb = extract(c, box.g());
	auto inbox = [&](const Pt &x) { for (int i = 0; i < n; ++i) { int64_t l = std::min(p[i], q2[i]), h = std::max(p[i], q2[i]); if (x[i] < l || x[i] > h) return false; } return true; };
	for (int t = 0; t < 150; ++t) {
		Pt x(n);
		for (int i = 0; i < n; ++i) { int64_t l = std::min(p[i], q2[i]), h = std::max(p[i], q2[i]); switch (c.t.below(6)) { case 0: case 1: x[i] = l; break; case 2: x[i] = h; break; case 3: x[i] = l + (h - l) / 2; break; case 4: x[i] = c.t.chance(1, 3) ? l - 1 : l; break; case 5: x[i] = c.t.chance(1, 3) ? h + 1 : h; break; } }
		if (mb.has(x) != inbox(x)) c.fail("box_from_points", "the box between " + str(p) + " and " + str(q2) + " is wrong at " + str(x) + ": " + S(box) + "\n" + how);
	}
	// void point
	Point v = R(c, isl_point_void(mk_space(c, sp)), "isl_point_void");
	if (!B(c, isl_point_is_void(v.g()), "isl_point_is_void")) c.fail("isl_point_is_void", "void point is not void");
	if (B(c, isl_point_is_void(a.g()), "isl_point_is_void")) c.fail("isl_point_is_void", "point is void\n" + how);
	USet vs = R(c, isl_union_set_from_point(v.c()), "isl_union_set_from_point");
	if (!B(c, isl_union_set_is_empty(vs.g()), "empty")) c.fail("isl_union_set_from_point", "the void point gives a non-empty set");
	Set vb = c.t.chance(1, 2) ? R(c, isl_set_box_from_points(v.c(), a.c()), "box") : R(c, isl_set_box_from_points(a.c(), v.c()), "box");
	MMap mv = extract(c, vb.g());
	for (auto &x : near) if (mv.has(x) != (x == p)) c.fail("box_from_points", "box with a void point is wrong at " + str(x) + ": " + S(vb) + "\n" + how);
	c.nontrivial = n >= 1;
	c.label("points");
}

void run(Case &c)
{
	switch (c.t.weighted({6, 1, 2})) {
	case 0: return run_enum(c);
	case 1: return run_union(c);
	case 2: return run_point(c);
	}
}
} // namespace

Prop vp::the_prop = {"C08",
	"Case = a bounded set (up to 4 dimensions and parameters, up to 4 overlapping disjuncts, strides, existentials; a third are skewed images of boxes under random unimodular transformations with far-away elements), a union of sets, or a pair of points (also with large coordinates). "
	"Checked: the multiset of visited points equals the enumeration by the model, the callback is not called again after failing, the count agrees; singletons, boxes, coordinates and multi-values of points are exact. Non-trivial: at least two elements / a point with coordinates.",
	run, 100000, 2000000};
