// C19: parametric vertices and chambers; oracle: enumeration of the extreme
// points of the polyhedron at each parameter value by exact linear algebra.
#include "fn.h"
#include "lp.h"
#include <algorithm>
#include <set>
#include <isl/vertices.h>
extern "C" isl_stat isl_vertices_foreach_disjoint_cell(isl_vertices *vertices, isl_stat (*fn)(isl_cell *cell, void *user), void *user);
#define R_(e) R(c, e, #e)
extern "C" isl_vertices *isl_vertices_copy(isl_vertices *vertices);
namespace vp { VP_TRAIT(isl_vertices) }
using namespace vp;
namespace {
std::string S_(const QRow &r) { std::string s = "("; for (auto &q : r) s += (s.size() > 1 ? "," : "") + q.get_str(); return s + ")"; }
std::string S_(const std::set<QRow> &r) { std::string s = "{ "; for (auto &q : r) s += S_(q) + " "; return s + "}"; }
// rows [cst, vars]; solution of n equations in n unknowns
bool solve(std::vector<QRow> m, int n, QRow &x)
{
	for (int k = 0; k < n; ++k) {
		int p = -1; for (int i = k; i < n; ++i) if (m[i][1 + k] != 0) { p = i; break; }
		if (p < 0) return false;
		std::swap(m[k], m[p]);
		for (int i = 0; i < n; ++i) if (i != k && m[i][1 + k] != 0) { mpq_class f = m[i][1 + k] / m[k][1 + k]; for (int j = 0; j <= n; ++j) m[i][j] -= f * m[k][j]; }
	}
	x.assign(n, 0); for (int k = 0; k < n; ++k) x[k] = -m[k][0] / m[k][1 + k];
	return true;
}
struct At { std::vector<QRow> eq, ineq; };
// the polyhedron at a parameter value
At plug(const MBasic &b, const Pt &p, int d)
{
	At a; int np = p.size();
	auto f = [&](const ZRow &r) { QRow q(1 + d); q[0] = r[0]; for (int i = 0; i < np; ++i) q[0] += r[1 + i] * Z(p[i]); for (int i = 0; i < d; ++i) q[1 + i] = r[1 + np + i]; return q; };
	for (auto &r : b.eq) a.eq.push_back(f(r));
	for (auto &r : b.ineq) a.ineq.push_back(f(r));
	return a;
}
mpq_class ev(const QRow &r, const QRow &x) { mpq_class v = r[0]; for (size_t i = 0; i < x.size(); ++i) v += r[1 + i] * x[i]; return v; }
bool inside(const At &a, const QRow &x) { for (auto &r : a.eq) if (ev(r, x) != 0) return false; for (auto &r : a.ineq) if (ev(r, x) < 0) return false; return true; }
std::set<QRow> vertices(const At &a, int d)
{
	std::set<QRow> out; if (d == 0) { if (inside(a, {})) out.insert(QRow()); return out; }
	std::vector<QRow> rows = a.eq; size_t ne = rows.size(); rows.insert(rows.end(), a.ineq.begin(), a.ineq.end()); (void)ne;
	std::vector<int> sel;
	std::function<void(size_t)> rec = [&](size_t from) {
		if ((int)sel.size() == d) { std::vector<QRow> m; for (int k : sel) m.push_back(rows[k]); QRow x; if (solve(m, d, x) && inside(a, x)) out.insert(x); return; }
		for (size_t k = from; k < rows.size(); ++k) { sel.push_back(k); rec(k + 1); sel.pop_back(); }
	};
	rec(0);
	return out;
}
struct V { int id; MMap dom; FFun f; std::string tx; };
struct C_ { MMap dom; std::set<int> ids; std::string tx; };
struct Cb { Case &c; std::vector<V> v; std::vector<C_> cells; int n = 0; };
isl_stat on_vertex(isl_vertex *v, void *u)
{
	Cb &b = *(Cb *)u; Case &c = b.c; b.n++;
	V x; x.id = isl_vertex_get_id(v); BSet d = R_(isl_vertex_get_domain(v)); MAff e = R_(isl_vertex_get_expr(v));
	x.dom = extract(c, d.g()); x.f = fn(c, e.g()); x.tx = S(e) + " on " + S(d);
	isl_vertex_free(v); b.v.push_back(x); return isl_stat_ok;
}
isl_stat on_cell_vertex(isl_vertex *v, void *u) { ((C_ *)u)->ids.insert(isl_vertex_get_id(v)); isl_vertex_free(v); return isl_stat_ok; }
isl_stat on_cell(isl_cell *l, void *u)
{
	Cb &b = *(Cb *)u; Case &c = b.c; C_ x; BSet d = R_(isl_cell_get_domain(l)); x.dom = extract(c, d.g());
	if (isl_cell_foreach_vertex(l, &on_cell_vertex, &x) < 0) on_error(c, "isl_cell_foreach_vertex");
	x.tx = S(d) + " vertices"; for (int k : x.ids) x.tx += " " + std::to_string(k);
	isl_cell_free(l); b.cells.push_back(x); return isl_stat_ok;
}
}
static void run(Case &c)
{
	Sp sp; int np = c.t.weighted({1, 3, 3}), d = 1 + c.t.weighted({2, 4, 3}); if (c.t.chance(1, 40)) d = 0;
	for (int i = 0; i < np; ++i) sp.params.push_back(std::string(1, 'n' + i));
	sp.out = mk_tup(tup_name(c), d);
	int nv = np + d;
	// a random polyhedron, mostly bounded, with parametric sides
	MBasic b; b.nvar = nv;
	int lowdim = c.t.chance(1, 6);
	bool box = c.t.chance(3, 4);
	auto var = [&](int i, int cst, int co) { ZRow r(1 + nv); r[0] = cst; r[1 + np + i] = co; return r; };
	for (int i = 0; i < d; ++i) {
		if (box || c.t.chance(1, 2)) b.ineq.push_back(var(i, c.t.range(-2, 3), 1));
		if (box || c.t.chance(1, 2)) { ZRow r = var(i, c.t.range(-1, 6), -1); if (np && c.t.chance(1, 2)) r[1 + c.t.below(np)] = c.t.range(1, 2); b.ineq.push_back(r); }
	}
	int ex = c.t.below(4) + (box ? 0 : 1);
	for (int i = 0; i < ex && (int)b.ineq.size() < 12; ++i) b.ineq.push_back(gen_row(c, nv, 3, 6));
	if (np && c.t.chance(1, 5)) { ZRow r(1 + nv); r[0] = c.t.range(-3, 3); for (int i = 0; i < np; ++i) r[1 + i] = c.t.range(-2, 2); b.ineq.push_back(r); }
	if (lowdim) { ZRow r = gen_row(c, nv, 2, 3); if (c.t.chance(1, 2)) b.eq.push_back(r); else { b.ineq.push_back(r); for (auto &x : r) x = -x; b.ineq.push_back(r); } }
	BSet bs;
	{ isl_space *s = mk_space(c, sp); isl_local_space *ls = isl_local_space_from_space(isl_space_copy(s)); isl_basic_set *x = isl_basic_set_universe(s);
		auto add = [&](const ZRow &r, bool eq) { isl_constraint *k = eq ? isl_constraint_alloc_equality(isl_local_space_copy(ls)) : isl_constraint_alloc_inequality(isl_local_space_copy(ls)); k = isl_constraint_set_constant_val(k, mkval(c.ctx, r[0])); for (int i = 0; i < np; ++i) k = isl_constraint_set_coefficient_val(k, isl_dim_param, i, mkval(c.ctx, r[1 + i])); for (int i = 0; i < d; ++i) k = isl_constraint_set_coefficient_val(k, isl_dim_set, i, mkval(c.ctx, r[1 + np + i])); x = isl_basic_set_add_constraint(x, k); };
		for (auto &r : b.eq) add(r, true); for (auto &r : b.ineq) add(r, false);
		isl_local_space_free(ls); bs = R(c, x, "build"); }
	if (c.t.chance(1, 4)) bs = R_(isl_basic_set_detect_equalities(bs.r()));
	std::string how = S(bs);
	MMap mm = extract(c, bs.g()); if (mm.d.empty() || !mm.d[0].divs.empty()) { if (!mm.d.empty()) c.discard("divs"); mm.d.resize(1); mm.d[0].nvar = nv; mm.d[0].ineq.assign(1, ZRow(1 + nv)); mm.d[0].ineq[0][0] = -1; }
	const MBasic &P = mm.d[0];
	// equalities (also implicit ones): the library works on the lattice of integer solutions
	std::vector<QRow> qe = q(P.eq), qi = q(P.ineq); bool empty = !lp_sat(nv, qe, qi), flat = !P.eq.empty();
	if (!empty && !flat) for (auto &r : qi) { QRow o = r; for (auto &x : o) x = -x; mpq_class v; if (lp_min(nv, qe, qi, o, v) == LP_OPT && v == 0) { flat = true; break; } }
	H<isl_vertices> vs = R_(isl_basic_set_compute_vertices(bs.g()));
	Cb cb{c, {}, {}, 0};
	if (isl_vertices_foreach_vertex(vs.g(), &on_vertex, &cb) < 0) on_error(c, "isl_vertices_foreach_vertex");
	if (isl_vertices_foreach_cell(vs.g(), &on_cell, &cb) < 0) on_error(c, "isl_vertices_foreach_cell");
	std::vector<C_> closed = cb.cells; cb.cells.clear();
	if (isl_vertices_foreach_disjoint_cell(vs.g(), &on_cell, &cb) < 0) on_error(c, "isl_vertices_foreach_disjoint_cell");
	std::vector<C_> &dis = cb.cells;
	how += "\nvertices:"; for (auto &v : cb.v) how += "\n  " + std::to_string(v.id) + ": " + v.tx;
	how += "\ncells:"; for (auto &x : closed) how += "\n  " + x.tx; how += "\ndisjoint cells:"; for (auto &x : dis) how += "\n  " + x.tx;
	c.log << how;
	if (isl_vertices_get_n_vertices(vs.g()) != (int)cb.v.size()) c.fail("n_vertices", how);
	{ std::set<int> ids; for (auto &v : cb.v) if (!ids.insert(v.id).second || v.id < 0 || v.id >= (int)cb.v.size()) c.fail("id", how); }
	bool some = false;
	// non-redundant chambers overlap only in their boundaries
	auto strict = [&](const C_ &x, const Pt &p) { for (auto &e : x.dom.d) { if (!e.divs.empty()) return false; bool ok = true; for (auto &r : e.ineq) { mpz_class v = r[0]; bool par = false; for (int i = 0; i < np; ++i) { v += r[1 + i] * Z(p[i]); if (r[1 + i] != 0) par = true; } if (v < 0 || (par && v == 0)) ok = false; } for (auto &r : e.eq) { mpz_class v = r[0]; for (int i = 0; i < np; ++i) v += r[1 + i] * Z(p[i]); if (v != 0) ok = false; } if (ok) return true; } return false; };
	for (auto &p : box_points(np, -6, 9)) {
		At a = plug(P, p, d); std::set<QRow> want = vertices(a, d), got;
		std::string m = " for parameters " + vp::str(p) + "\n" + how;
		std::map<int, QRow> val;
		for (auto &v : cb.v) {
			if (!v.dom.has(p)) continue;
			QRow x; for (auto &e : v.f.eval(p)) { if (e.st != 1) c.fail("undefined", "vertex " + std::to_string(v.id) + m); x.push_back(e.v); }
			if (!inside(a, x)) c.fail("outside", "vertex " + std::to_string(v.id) + " = " + S_(x) + " is not in the set" + m);
			got.insert(x); val[v.id] = x;
		}
		auto cell = [&](const C_ &x, const char *kind) {
			std::set<QRow> cv; for (int k : x.ids) { auto it = val.find(k); if (it == val.end()) c.fail(kind, "vertex " + std::to_string(k) + " is not active on " + x.tx + m); cv.insert(it->second); }
			return cv;
		};
		if (!flat) {
			if (got != want) c.fail("vertices", "reported " + S_(got) + ", extreme points " + S_(want) + m);
			int nin = 0, ndis = 0, nst = 0;
			for (auto &x : closed) { if (strict(x, p)) ++nst; if (!x.dom.has(p)) continue; ++nin; if (!lp_sat(d, a.eq, a.ineq)) c.fail("cell", "chamber " + x.tx + " contains a value for which the set is empty" + m); if (cell(x, "cell:active") != want) c.fail("cell", "vertices of chamber " + x.tx + " are not those of the set" + m); }
			for (auto &x : dis) { if (!x.dom.has(p)) continue; ++ndis; if (cell(x, "disjoint:active") != want) c.fail("disjoint", "vertices of cell " + x.tx + " are not those of the set" + m); }
			if (!want.empty() && !nin) c.fail("cover", "not in any chamber" + m);
			if (!want.empty() && ndis != 1) c.fail("disjoint:cover", "in " + std::to_string(ndis) + " disjoint cells" + m);
			if (nst > 1) c.fail("chambers", "in the interior of " + std::to_string(nst) + " chambers" + m);
			if (want.size() > 1) { some = true; c.label(nin > 1 ? "boundary" : "one chamber"); }
		} else if (d > 0 && lp_sat(d, a.eq, a.ineq)) {
			// every integer point is a combination of the vertices (bounded case)
			bool bounded = true; for (int i = 0; i < d && bounded; ++i) for (int s = -1; s < 2; s += 2) { QRow o(1 + d); o[1 + i] = s; mpq_class v; if (lp_min(d, a.eq, a.ineq, o, v) != LP_OPT) bounded = false; }
			if (!bounded) continue;
			for (auto &x : box_points(d, -3, 7)) {
				QRow y(x.begin(), x.end()); for (int i = 0; i < d; ++i) y[i] = mpq_class(Z(x[i])); if (!inside(a, y)) continue;
				std::vector<QRow> eq, in; int n = got.size(); for (int i = 0; i < d; ++i) { QRow r(1 + n); r[0] = -y[i]; int k = 0; for (auto &g : got) r[1 + k++] = g[i]; eq.push_back(r); } { QRow r(1 + n, 1); r[0] = -1; eq.push_back(r); } for (int k = 0; k < n; ++k) { QRow r(1 + n); r[1 + k] = 1; in.push_back(r); }
				if (!lp_sat(n, eq, in)) c.fail("flat", "integer point " + vp::str(x) + " is not a combination of the vertices " + S_(got) + m);
				int nin = 0; for (auto &e : closed) if (e.dom.has(p)) ++nin; if (!nin) c.fail("flat:cover", "not in any chamber" + m);
				some = true; c.label("flat"); break;
			}
		}
	}
	if (cb.v.size() > 1 && some) c.nontrivial = true;
	c.label(closed.size() > 3 ? "chambers:>3" : closed.size() > 1 ? "chambers:2-3" : "chambers:<=1");
}
Prop vp::the_prop = {"C19", "random parametric polyhedra (0-2 parameters, up to 3 dimensions, mostly bounded, parametric sides, some of lower dimension or unbounded); at every integer parameter value of a window the active vertices, the vertices of each chamber and of each disjoint cell are compared with the extreme points found by solving all square subsystems exactly; chambers must cover exactly the values with vertices, be disjoint in their interiors, and disjoint cells must contain each value once; sets with (implicit) equalities: every integer point is a combination of the reported vertices; non-trivial: several vertices compared",
	run, 6000, 200000, 400000};
