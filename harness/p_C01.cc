// C01: set operations denote exactly the integer points they claim to.
#include "gen.h"
#include <isl/ilp.h>
#include <algorithm>
using namespace vp;

namespace {

typedef std::function<bool(const Pt &)> Pred;

struct Ctx {
	Case &c;
	Sp sp;
	std::vector<Set> pool;
	int max_basic = 10;
};

void check(Case &c, const char *op, const Set &res, int np, int ns, const Pred &want, const std::string &how, int budget = 1500)
{
	MMap m = extract(c, res.g());
	if (m.np != np || m.no != ns)
		c.fail(std::string("space:") + op, how + "\nresult " + S(res) + " has unexpected dimensions");
	Window w = make_window(np + ns, budget);
	bool any_in = false, any_out = false;
	for (auto &p : w.pts) {
		bool a = m.has(p), b = want(p);
		(b ? any_in : any_out) = true;
		if (a != b)
			c.fail(op, "at (params,set) " + str(p) + ": library says " + (a ? "in" : "not in") + ", definition says " + (b ? "in" : "not in") +
				"\n" + how + "\nresult: " + S(res));
	}
	if (any_in && any_out) c.nontrivial = true;
	c.label(op);
}

// points of the result that the library itself exhibits (sample of both sides of
// the difference with another set) also satisfy the definition, far outside the window
void check_sample(Case &c, const char *op, const Set &res, const Pred &want, const std::string &how, int np, int ns)
{
	// the operation limit of the case applies to the sampling too, but not
	// being able to sample says nothing
	isl_point *pp = isl_set_sample_point(res.c());
	if (!pp) { clear_error(c); return; }
	Point p(pp);
	if (isl_point_is_void(p.g()) == isl_bool_true) return;
	Pt x;
	for (int i = 0; i < np + ns; ++i) {
		isl_val *v = isl_point_get_coordinate_val(p.g(), i < np ? isl_dim_param : isl_dim_set, i < np ? i : i - np);
		if (!v) { clear_error(c); return; }
		mpz_class z = val_num(v);
		isl_val_free(v);
		if (!z.fits_slong_p()) return;
		x.push_back(z.get_si());
		if (x.back() > (1L << 50) || x.back() < -(1L << 50)) return;
	}
	if (!want(x)) c.fail(std::string("sample:") + op, "sample point " + str(x) + " of the result is not in it by definition\n" + how + "\nresult: " + S(res));
}

void run(Case &c)
{
	Ctx x{c, gen_set_space(c, 2, 3, c.t.chance(1, 5)), {}};
	GenOpt o;
	int n0 = 1 + c.t.below(2);
	for (int i = 0; i < n0; ++i) x.pool.push_back(gen_set(c, x.sp, o));
	int steps = 1 + c.t.below(4);
	c.log << "space " << sp_params(x.sp) << " dims " << x.sp.no() << "\n";
	for (size_t i = 0; i < x.pool.size(); ++i) c.log << "s" << i << " = " << S(x.pool[i]) << "\n";
	for (int s = 0; s < steps; ++s) {
		int np = x.sp.np(), ns = x.sp.no(), nv = np + ns;
		Set a = c.t.pick(x.pool);
		Set a0 = a;
		MMap ma = extract(c, a.g());
		if (n_basic(a) > x.max_basic) { x.pool[0] = gen_set(c, x.sp, o); continue; }
		int op = c.t.below(34);
		auto in_a = [&](const Pt &p) { return ma.has(p); };
		std::string sa = "a = " + S(a);
		auto bin = [&](Set &b, MMap &mb) {
			b = c.t.chance(1, 2) && x.pool.size() > 1 ? c.t.pick(x.pool) : gen_set(c, x.sp, o);
			mb = extract(c, b.g());
		};
		Set b; MMap mb;
		Set res;
		bool keep = false;       // result is in the same space
		switch (op) {
		case 0: case 1: {
			bin(b, mb);
			res = R(c, isl_set_intersect(a.c(), b.c()), "isl_set_intersect");
			std::string how = sa + "\nb = " + S(b) + "\nintersect";
			Pred w = [&](const Pt &p) { return ma.has(p) && mb.has(p); };
			check(c, "intersect", res, np, ns, w, how);
			check_sample(c, "intersect", res, w, how, np, ns);
			keep = true; break; }
		case 2: case 3: {
			bin(b, mb);
			res = R(c, isl_set_union(a.c(), b.c()), "isl_set_union");
			check(c, "union", res, np, ns, [&](const Pt &p) { return ma.has(p) || mb.has(p); }, sa + "\nb = " + S(b) + "\nunion");
			keep = true; break; }
		case 4: case 5: case 6: {
			bin(b, mb);
			res = R(c, isl_set_subtract(a.c(), b.c()), "isl_set_subtract");
			std::string how = sa + "\nb = " + S(b) + "\nsubtract";
			Pred w = [&](const Pt &p) { return ma.has(p) && !mb.has(p); };
			check(c, "subtract", res, np, ns, w, how);
			check_sample(c, "subtract", res, w, how, np, ns);
			keep = true; break; }
		case 7: {
			if (n_basic(a) > 4) continue;
			res = R(c, isl_set_complement(a.c()), "isl_set_complement");
			std::string how = sa + "\ncomplement";
			Pred w = [&](const Pt &p) { return !ma.has(p); };
			check(c, "complement", res, np, ns, w, how);
			check_sample(c, "complement", res, w, how, np, ns);
			keep = true; break; }
		case 8: case 9: { // project out
			if (!ns) continue;
			int f = c.t.below(ns), n = 1 + c.t.below(ns - f);
			res = R(c, isl_set_project_out(a.c(), isl_dim_set, f, n), "isl_set_project_out");
			std::vector<int> ex;
			for (int i = 0; i < n; ++i) ex.push_back(np + f + i);
			MMap mp = project_vars(ma, ex, np, 0, ns - n);
			check(c, "project_out", res, np, ns - n, [&](const Pt &p) { return mp.has(p); },
				sa + "\nproject_out set " + std::to_string(f) + " " + std::to_string(n), 400);
			break; }
		case 10: { // project out parameters
			if (!np) continue;
			int f = c.t.below(np), n = 1 + c.t.below(np - f);
			std::vector<int> ex;
			int how = c.t.below(4);
			if (how == 0) {
				res = R(c, isl_set_project_out_all_params(a.c()), "isl_set_project_out_all_params");
				f = 0; n = np;
			} else if (how == 1) {
				n = 1;
				isl_id *id = isl_set_get_dim_id(a.g(), isl_dim_param, f);
				res = R(c, isl_set_project_out_param_id(a.c(), id), "isl_set_project_out_param_id");
			} else
				res = R(c, isl_set_project_out(a.c(), isl_dim_param, f, n), "isl_set_project_out");
			for (int i = 0; i < n; ++i) ex.push_back(f + i);
			MMap mp = project_vars(ma, ex, np - n, 0, ns);
			check(c, "project_out_param", res, np - n, ns, [&](const Pt &p) { return mp.has(p); },
				sa + "\nproject_out param " + std::to_string(f) + " " + std::to_string(n) + " how " + std::to_string(how), 400);
			break; }
		case 11: { // eliminate: the dimensions become unconstrained
			if (!ns) continue;
			int f = c.t.below(ns), n = 1 + c.t.below(ns - f);
			res = R(c, isl_set_eliminate(a.c(), isl_dim_set, f, n), "isl_set_eliminate");
			std::vector<int> ex, rest;
			for (int i = 0; i < n; ++i) ex.push_back(np + f + i);
			MMap mp = project_vars(ma, ex, np, 0, ns - n);
			Pred w = [&](const Pt &p) { Pt q = p; q.erase(q.begin() + np + f, q.begin() + np + f + n); return mp.has(q); };
			check(c, "eliminate", res, np, ns, w, sa + "\neliminate set " + std::to_string(f) + " " + std::to_string(n), 400);
			keep = true; break; }
		case 12: { // insert / add dims
			int pos = c.t.below(ns + 1), n = 1 + c.t.below(2);
			bool add = c.t.chance(1, 2);
			if (add) { pos = ns; res = R(c, isl_set_add_dims(a.c(), isl_dim_set, n), "isl_set_add_dims"); }
			else res = R(c, isl_set_insert_dims(a.c(), isl_dim_set, pos, n), "isl_set_insert_dims");
			check(c, add ? "add_dims" : "insert_dims", res, np, ns + n,
				[&](const Pt &p) { Pt q = p; q.erase(q.begin() + np + pos, q.begin() + np + pos + n); return ma.has(q); },
				sa + "\ninsert_dims " + std::to_string(pos) + " " + std::to_string(n));
			break; }
		case 13: { // fix
			if (!nv) continue;
			int k = c.t.below(nv), v = c.t.range(-6, 6);
			bool val = c.t.chance(1, 2);
			isl_dim_type ty = k < np ? isl_dim_param : isl_dim_set;
			int pos = k < np ? k : k - np;
			res = val ? R(c, isl_set_fix_val(a.c(), ty, pos, isl_val_int_from_si(c.ctx, v)), "isl_set_fix_val")
				: R(c, isl_set_fix_si(a.c(), ty, pos, v), "isl_set_fix_si");
			check(c, "fix", res, np, ns, [&](const Pt &p) { return ma.has(p) && p[k] == v; }, sa + "\nfix " + std::to_string(k) + " = " + std::to_string(v));
			keep = true; break; }
		case 14: case 15: { // bounds
			if (!nv) continue;
			int k = c.t.below(nv), v = c.t.range(-6, 6);
			bool lower = c.t.chance(1, 2), val = c.t.chance(1, 2);
			isl_dim_type ty = k < np ? isl_dim_param : isl_dim_set;
			int pos = k < np ? k : k - np;
			int den = val && c.t.chance(1, 3) ? 2 : 1;
			if (val) {
				isl_val *q = isl_val_div_ui(isl_val_int_from_si(c.ctx, v), 1);
				if (den != 1) { isl_val_free(q); q = isl_val_int_from_si(c.ctx, v); den = 1; }
				res = lower ? R(c, isl_set_lower_bound_val(a.c(), ty, pos, q), "isl_set_lower_bound_val")
					: R(c, isl_set_upper_bound_val(a.c(), ty, pos, q), "isl_set_upper_bound_val");
			} else
				res = lower ? R(c, isl_set_lower_bound_si(a.c(), ty, pos, v), "isl_set_lower_bound_si")
					: R(c, isl_set_upper_bound_si(a.c(), ty, pos, v), "isl_set_upper_bound_si");
			check(c, lower ? "lower_bound" : "upper_bound", res, np, ns,
				[&](const Pt &p) { return ma.has(p) && (lower ? p[k] >= v : p[k] <= v); },
				sa + "\nbound " + std::to_string(k) + (lower ? " >= " : " <= ") + std::to_string(v));
			keep = true; break; }
		case 16: { // equate
			if (nv < 2) continue;
			int k = c.t.below(nv), l = c.t.below(nv);
			res = R(c, isl_set_equate(a.c(), k < np ? isl_dim_param : isl_dim_set, k < np ? k : k - np,
				l < np ? isl_dim_param : isl_dim_set, l < np ? l : l - np), "isl_set_equate");
			check(c, "equate", res, np, ns, [&](const Pt &p) { return ma.has(p) && p[k] == p[l]; }, sa + "\nequate " + std::to_string(k) + " " + std::to_string(l));
			keep = true; break; }
		case 17: { // products
			if (ns > 2) continue;
			Sp sp2 = x.sp;
			sp2.out = gen_tup(c, 2, false);
			b = gen_set(c, sp2, o);
			mb = extract(c, b.g());
			int nb = sp2.no();
			bool flat = c.t.chance(1, 2);
			res = flat ? R(c, isl_set_flat_product(a.c(), b.c()), "isl_set_flat_product") : R(c, isl_set_product(a.c(), b.c()), "isl_set_product");
			if (isl_set_is_wrapping(res.g()) != (flat ? isl_bool_false : isl_bool_true)) c.fail("product:space", sa + "\nb = " + S(b) + "\n" + S(res));
			check(c, "product", res, np, ns + nb, [&](const Pt &p) {
				Pt p1(p.begin(), p.begin() + nv), p2(p.begin(), p.begin() + np);
				p2.insert(p2.end(), p.begin() + nv, p.end());
				return ma.has(p1) && mb.has(p2); }, sa + "\nb = " + S(b) + "\nproduct");
			break; }
		case 18: { // params / intersect_params / from_params
			if (c.t.chance(1, 2)) {
				res = R(c, isl_set_params(a.c()), "isl_set_params");
				std::vector<int> ex;
				for (int i = 0; i < ns; ++i) ex.push_back(np + i);
				MMap mp = project_vars(ma, ex, np, 0, 0);
				check(c, "params", res, np, 0, [&](const Pt &p) { return mp.has(p); }, sa + "\nparams", 300);
				if (isl_set_is_params(res.g()) != isl_bool_true) c.fail("params:space", sa + "\n" + S(res));
				Set back = R(c, isl_set_from_params(res.c()), "isl_set_from_params");
				check(c, "from_params", back, np, 0, [&](const Pt &p) { return mp.has(p); }, sa + "\nparams, from_params", 300);
			} else {
				Sp sp2 = x.sp; sp2.out = mk_tup("", 0);
				Set b0 = gen_set(c, sp2, o);
				Set bp = R(c, isl_set_params(b0.c()), "isl_set_params");
				mb = extract(c, bp.g());
				res = R(c, isl_set_intersect_params(a.c(), bp.c()), "isl_set_intersect_params");
				check(c, "intersect_params", res, np, ns, [&](const Pt &p) { return ma.has(p) && mb.has(Pt(p.begin(), p.begin() + np)); },
					sa + "\nparams = " + S(bp));
				keep = true;
			}
			break; }
		case 19: { // move dims set <-> param
			if (!nv) continue;
			bool to_param = np == 0 || (ns > 0 && c.t.chance(1, 2));
			if (to_param ? ns == 0 : np == 0) continue;
			int nsrc = to_param ? ns : np, ndst = to_param ? np : ns;
			int f = c.t.below(nsrc), n = 1 + c.t.below(nsrc - f), d = c.t.below(ndst + 1);
			// parameters need names
			Set t = a;
			if (to_param) for (int i = 0; i < n; ++i) t = Set(isl_set_set_dim_name(t.r(), isl_dim_set, f + i, ("x" + std::to_string(i)).c_str()));
			res = R(c, isl_set_move_dims(t.r(), to_param ? isl_dim_param : isl_dim_set, d, to_param ? isl_dim_set : isl_dim_param, f, n), "isl_set_move_dims");
			check(c, "move_dims", res, to_param ? np + n : np - n, to_param ? ns - n : ns + n, [&](const Pt &p) {
				// reconstruct source point
				Pt par, st;
				int rp = to_param ? np + n : np - n;
				par.assign(p.begin(), p.begin() + rp); st.assign(p.begin() + rp, p.end());
				Pt &dst = to_param ? par : st, &src = to_param ? st : par;
				Pt mv(dst.begin() + d, dst.begin() + d + n);
				dst.erase(dst.begin() + d, dst.begin() + d + n);
				src.insert(src.begin() + f, mv.begin(), mv.end());
				Pt q = par; q.insert(q.end(), st.begin(), st.end());
				return ma.has(q); }, sa + "\nmove_dims to_param=" + std::to_string(to_param) + " f " + std::to_string(f) + " n " + std::to_string(n) + " d " + std::to_string(d));
			break; }
		case 20: { // negation
			res = R(c, isl_set_neg(a.c()), "isl_set_neg");
			check(c, "neg", res, np, ns, [&](const Pt &p) { Pt q = p; for (int i = np; i < nv; ++i) q[i] = -q[i]; return ma.has(q); }, sa + "\nneg");
			keep = true; break; }
		case 21: { // Minkowski sum
			if (ns > 2 || n_basic(a) > 3) continue;
			bin(b, mb);
			if (n_basic(b) > 3) continue;
			res = R(c, isl_set_sum(a.c(), b.c()), "isl_set_sum");
			// y in a + b iff exists x: x in a, y - x in b
			MMap m1 = embed(ma, np, ns, ns, [&] { std::vector<int> v; for (int i = 0; i < np; ++i) v.push_back(i); for (int i = 0; i < ns; ++i) v.push_back(np + i); return v; }());
			MMap m2(np, ns, ns);
			for (auto &bb : mb.d) {
				std::vector<int> v; for (int i = 0; i < np; ++i) v.push_back(i); for (int i = 0; i < ns; ++i) v.push_back(np + ns + i);
				MBasic e = embed(bb, np + 2 * ns, v);
				// replace variable y by y - x: coefficient of x gets - coefficient of y
				auto adj = [&](ZRow &r) { for (int i = 0; i < ns; ++i) r[1 + np + i] -= r[1 + np + ns + i]; };
				for (auto &r : e.eq) adj(r);
				for (auto &r : e.ineq) adj(r);
				for (auto &d : e.divs) if (d.known) adj(d.num);
				m2.d.push_back(e);
			}
			MMap j = conj(m1, m2);
			std::vector<int> ex; for (int i = 0; i < ns; ++i) ex.push_back(np + i);
			MMap mp = project_vars(j, ex, np, 0, ns);
			check(c, "sum", res, np, ns, [&](const Pt &p) { return mp.has(p); }, sa + "\nb = " + S(b) + "\nsum", 150);
			keep = true; break; }
		case 22: { // preimage under an affine function
			int nd = c.t.below(3);
			Sp dom = x.sp; dom.out = mk_tup(tup_name(c), nd);
			H<isl_space> mapsp(isl_space_map_from_domain_and_range(mk_space(c, dom), isl_set_get_space(a.g())));
			isl_multi_aff *mam = isl_multi_aff_zero(mapsp.c());
			std::vector<ZRow> f;
			std::vector<int> dens;
			for (int i = 0; i < ns; ++i) {
				ZRow r = gen_row(c, np + nd, 2, 3);
				isl_aff *af = isl_aff_zero_on_domain(isl_local_space_from_space(mk_space(c, dom)));
				af = isl_aff_set_constant_si(af, (int)r[0].get_si());
				for (int k = 0; k < np; ++k) af = isl_aff_set_coefficient_si(af, isl_dim_param, k, (int)r[1 + k].get_si());
				for (int k = 0; k < nd; ++k) af = isl_aff_set_coefficient_si(af, isl_dim_in, k, (int)r[1 + np + k].get_si());
				int den = c.t.chance(1, 3) ? 2 + c.t.below(2) : 1;
				if (den > 1) af = isl_aff_floor(isl_aff_scale_down_ui(af, den));
				mam = isl_multi_aff_set_aff(mam, i, af);
				f.push_back(r); dens.push_back(den);
			}
			MAff ma_(R(c, mam, "multi_aff"));
			res = R(c, isl_set_preimage_multi_aff(a.c(), ma_.c()), "isl_set_preimage_multi_aff");
			check(c, "preimage", res, np, nd, [&](const Pt &p) {
				Pt q(p.begin(), p.begin() + np);
				for (int i = 0; i < ns; ++i) {
					mpz_class v = f[i][0];
					for (int k = 0; k < np + nd; ++k) v += f[i][1 + k] * Z(p[k]);
					v = fdiv(v, dens[i]);
					q.push_back(v.get_si());
				}
				return ma.has(q); }, sa + "\npreimage by " + S(ma_));
			break; }
		case 24: { // add a constraint
			if (!nv) continue;
			ZRow r = gen_row(c, nv, 3, 5);
			bool eq = c.t.chance(1, 4);
			isl_local_space *ls = isl_local_space_from_space(isl_set_get_space(a.g()));
			isl_constraint *k = eq ? isl_constraint_alloc_equality(ls) : isl_constraint_alloc_inequality(ls);
			k = isl_constraint_set_constant_si(k, (int)r[0].get_si());
			for (int i = 0; i < nv; ++i) k = isl_constraint_set_coefficient_si(k, i < np ? isl_dim_param : isl_dim_set, i < np ? i : i - np, (int)r[1 + i].get_si());
			res = R(c, isl_set_add_constraint(a.c(), k), "isl_set_add_constraint");
			check(c, "add_constraint", res, np, ns, [&](const Pt &p) {
				if (!ma.has(p)) return false;
				mpz_class v = r[0]; for (int i = 0; i < nv; ++i) v += r[1 + i] * Z(p[i]);
				return eq ? v == 0 : v >= 0; }, sa + "\nadd_constraint");
			keep = true; break; }
		case 25: { // drop constraints: over-approximation; exact description for involving dims
			if (!nv) continue;
			bool par = np && c.t.chance(1, 4);
			int tot = par ? np : ns;
			if (!tot) continue;
			int f = c.t.below(tot), n = 1 + c.t.below(tot - f);
			bool inv = c.t.chance(2, 3);
			isl_dim_type ty = par ? isl_dim_param : isl_dim_set;
			res = inv ? R(c, isl_set_drop_constraints_involving_dims(a.c(), ty, f, n), "isl_set_drop_constraints_involving_dims")
				: R(c, isl_set_drop_constraints_not_involving_dims(a.c(), ty, f, n), "isl_set_drop_constraints_not_involving_dims");
			MMap m = extract(c, res.g());
			Window w = make_window(nv, 800);
			int base = par ? 0 : np;
			for (auto &p : w.pts) {
				bool ia = ma.has(p), ir = m.has(p);
				if (ia && !ir) c.fail("drop_constraints:superset", "point " + str(p) + " lost\n" + sa + "\n" + S(res));
				if (inv && ir) { // unconstrained in the dropped dims
					Pt q = p; q[base + f] += 100; 
					if (!m.has(q)) c.fail("drop_constraints:involving", "result still depends on dim at " + str(p) + "\n" + sa + "\n" + S(res));
				}
			}
			if (isl_set_involves_dims(res.g(), ty, f, n) == isl_bool_true && inv) c.fail("drop_constraints:involves", sa + "\n" + S(res));
			c.label("drop_constraints");
			c.nontrivial = true;
			keep = true; break; }
		case 26: { // lift: local variables become dimensions
			res = R(c, isl_set_lift(a.c()), "isl_set_lift");
			// lift wraps: [set] -> [locals]; the domain projected back is the set
			Set dom(res.c());
			if (isl_set_is_wrapping(dom.g()) == isl_bool_true) dom = R(c, isl_map_domain(isl_set_unwrap(dom.r())), "lift domain");
			check(c, "lift", dom, np, ns, in_a, sa + "\nlift = " + S(res), 500);
			if (isl_set_involves_locals(res.g()) == isl_bool_true) c.fail("lift:locals", sa + "\n" + S(res));
			break; }
		case 27: { // bounds by values on all dims (multi_val)
			if (!ns) continue;
			isl_multi_val *mv = isl_multi_val_zero(isl_set_get_space(a.g()));
			std::vector<int> v(ns);
			for (int i = 0; i < ns; ++i) { v[i] = c.t.range(-5, 5); mv = isl_multi_val_set_val(mv, i, isl_val_int_from_si(c.ctx, v[i])); }
			bool lower = c.t.chance(1, 2);
			res = lower ? R(c, isl_set_lower_bound_multi_val(a.c(), mv), "lower_bound_multi_val") : R(c, isl_set_upper_bound_multi_val(a.c(), mv), "upper_bound_multi_val");
			check(c, "bound_multi_val", res, np, ns, [&](const Pt &p) {
				if (!ma.has(p)) return false;
				for (int i = 0; i < ns; ++i) if (lower ? p[np + i] < v[i] : p[np + i] > v[i]) return false;
				return true; }, sa + "\nbound_multi_val lower=" + std::to_string(lower));
			keep = true; break; }
		case 28: { // remove_dims / nat_universe / universe / empty
			int k = c.t.below(4);
			if (k == 0) { res = R(c, isl_set_nat_universe(isl_set_get_space(a.g())), "nat_universe");
				check(c, "nat_universe", res, np, ns, [&](const Pt &p) { for (int i = 0; i < nv; ++i) if (p[i] < 0) return false; return true; }, "nat_universe"); }
			else if (k == 1) { res = R(c, isl_set_universe(isl_set_get_space(a.g())), "universe"); check(c, "universe", res, np, ns, [&](const Pt &) { return true; }, "universe"); }
			else if (k == 2) { res = R(c, isl_set_empty(isl_set_get_space(a.g())), "empty"); check(c, "empty", res, np, ns, [&](const Pt &) { return false; }, "empty"); }
			else { res = R(c, isl_set_from_basic_set(isl_basic_set_positive_orthant(isl_set_get_space(a.g()))), "positive_orthant");
				check(c, "positive_orthant", res, np, ns, [&](const Pt &p) { for (int i = np; i < nv; ++i) if (p[i] < 0) return false; return true; }, "positive_orthant"); }
			keep = true; break; }
		case 29: { // disjoint union of a \ b and b
			bin(b, mb);
			isl_set *d = isl_set_subtract(a.c(), b.c());
			res = R(c, isl_set_union_disjoint(d, b.c()), "isl_set_union_disjoint");
			check(c, "union_disjoint", res, np, ns, [&](const Pt &p) { return ma.has(p) || mb.has(p); }, sa + "\nb = " + S(b) + "\n(a-b) union_disjoint b");
			keep = true; break; }
		case 30: { // list union / intersection
			int n = 2 + c.t.below(2);
			std::vector<Set> ss{a}; std::vector<MMap> ms{ma};
			for (int i = 1; i < n; ++i) { bin(b, mb); ss.push_back(b); ms.push_back(mb); }
			isl_set_list *l = isl_set_list_alloc(c.ctx, n);
			for (auto &q : ss) l = isl_set_list_add(l, q.c());
			res = R(c, isl_set_list_union(l), "isl_set_list_union");
			check(c, "list_union", res, np, ns, [&](const Pt &p) { for (auto &q : ms) if (q.has(p)) return true; return false; }, sa + "\n... list_union");
			keep = true; break; }
		case 31: { // basic set level operations
			GenOpt bo; bo.max_basic = 1;
			BSet b1 = gen_bset(c, x.sp, bo), b2 = gen_bset(c, x.sp, bo);
			MMap m1 = extract(c, b1.g()), m2 = extract(c, b2.g());
			std::string how = "b1 = " + S(b1) + "\nb2 = " + S(b2);
			switch (c.t.below(5)) {
			case 0: res = R(c, isl_set_from_basic_set(isl_basic_set_intersect(b1.c(), b2.c())), "isl_basic_set_intersect");
				check(c, "bset_intersect", res, np, ns, [&](const Pt &p) { return m1.has(p) && m2.has(p); }, how); break;
			case 1: res = R(c, isl_basic_set_union(b1.c(), b2.c()), "isl_basic_set_union");
				check(c, "bset_union", res, np, ns, [&](const Pt &p) { return m1.has(p) || m2.has(p); }, how); break;
			case 2: { isl_basic_set_list *l = isl_basic_set_list_from_basic_set(b1.c()); l = isl_basic_set_list_add(l, b2.c());
				res = R(c, isl_set_from_basic_set(isl_basic_set_list_intersect(l)), "isl_basic_set_list_intersect");
				check(c, "bset_list_intersect", res, np, ns, [&](const Pt &p) { return m1.has(p) && m2.has(p); }, how); break; }
			case 3: if (!ns) break; {
				int f = c.t.below(ns);
				res = R(c, isl_set_from_basic_set(isl_basic_set_project_out(b1.c(), isl_dim_set, f, 1)), "isl_basic_set_project_out");
				MMap mp = project_vars(m1, {np + f}, np, 0, ns - 1);
				check(c, "bset_project_out", res, np, ns - 1, [&](const Pt &p) { return mp.has(p); }, how + "\nproject out " + std::to_string(f), 400);
				res = Set(); break; }
			case 4: {
				int f = ns ? c.t.below(ns) : 0, v = c.t.range(-5, 5);
				if (!ns) break;
				res = R(c, isl_set_from_basic_set(isl_basic_set_upper_bound_val(isl_basic_set_lower_bound_val(b1.c(), isl_dim_set, f, isl_val_int_from_si(c.ctx, v)), isl_dim_set, f, isl_val_int_from_si(c.ctx, v + 2))), "bset bounds");
				check(c, "bset_bounds", res, np, ns, [&](const Pt &p) { return m1.has(p) && p[np + f] >= v && p[np + f] <= v + 2; }, how); break; }
			}
			if (res) keep = true;
			break; }
		case 32: { // order between a parameter/dim through intersect with constructed halfspace of two sets; lower-dim slices
			if (!ns) continue;
			// project_onto_map: a -> kept dims
			int f = c.t.below(ns), n = 1 + c.t.below(ns - f);
			Map pm = R(c, isl_set_project_onto_map(a.c(), isl_dim_set, f, n), "isl_set_project_onto_map");
			MMap m = extract(c, pm.g());
			if (m.ni != ns || m.no != n) c.fail("project_onto_map:space", sa + "\n" + S(pm));
			Window w = make_window(np + ns + n, 1200);
			for (auto &p : w.pts) {
				bool want = ma.has(Pt(p.begin(), p.begin() + nv));
				for (int i = 0; i < n; ++i) if (p[np + f + i] != p[nv + i]) want = false;
				if (m.has(p) != want) c.fail("project_onto_map", "at " + str(p) + "\n" + sa + "\n" + S(pm));
			}
			c.label("project_onto_map");
			break; }
		case 33: { // bounds given by piecewise affine functions
			if (!ns) continue;
			if (!x.sp.out.sub.empty()) continue;
			std::vector<ZRow> f; std::vector<int> den;
			std::string txt = sp_params(x.sp) + "{ " + x.sp.out.name + "[";
			for (int i = 0; i < ns; ++i) {
				ZRow r = gen_row(c, np, 2, 4);
				int dd = 1 + c.t.below(2);
				den.push_back(dd); f.push_back(r);
				txt += std::string(i ? ", " : "") + "(floor((" + row_text(r, x.sp.params) + ")/" + std::to_string(dd) + "))";
			}
			txt += "] }";
			MPA bnd = R(c, isl_multi_pw_aff_read_from_str(c.ctx, txt.c_str()), "isl_multi_pw_aff_read_from_str");
			bool lower = c.t.chance(1, 2);
			std::string ms = S(bnd);
			res = lower ? R(c, isl_set_lower_bound_multi_pw_aff(a.c(), bnd.c()), "lower_bound_multi_pw_aff") : R(c, isl_set_upper_bound_multi_pw_aff(a.c(), bnd.c()), "upper_bound_multi_pw_aff");
			check(c, "bound_multi_pw_aff", res, np, ns, [&](const Pt &p) {
				if (!ma.has(p)) return false;
				for (int i = 0; i < ns; ++i) {
					mpz_class v = f[i][0];
					for (int k = 0; k < np; ++k) v += f[i][1 + k] * Z(p[k]);
					v = fdiv(v, den[i]);
					if (lower ? Z(p[np + i]) < v : Z(p[np + i]) > v) return false;
				}
				return true; }, sa + "\nbound by " + ms);
			keep = true; break; }
		}
		if (res && c.verbose) c.log << "op " << op << " -> " << S(res) << "\n";
		if (res) c.log << "step " << op << "\n";
		if (keep && res) { x.pool.push_back(res); if (x.pool.size() > 4) x.pool.erase(x.pool.begin()); }
	}
}
} // namespace

Prop vp::the_prop = {"C01",
	"Case = 1-2 random sets (affine constraints, strides, floors, existentials, 0-2 parameters, 0-3 dimensions, nested tuples, large "
	"coefficients, unions of related disjuncts, operand representations scrambled by earlier operations) and 1-4 operations out of ~35; "
	"every result is compared point by point with the definition on a window. Non-trivial: some compared window contains both member and non-member points.",
	run, 40000, 2000000};
