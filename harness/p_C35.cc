// C35: boxes, strides, lattice tiles and fixed values are true of every
// element; oracle: point-wise evaluation of the generated relation.
#include "fn.h"
#include <isl/fixed_box.h>
#include <isl/stride_info.h>
using namespace vp;
#define R_(e) R(c, e, #e)
namespace vp { VP_TRAIT(isl_fixed_box) VP_TRAIT(isl_stride_info) }
namespace {
typedef H<isl_fixed_box> Box;
typedef H<isl_stride_info> Stride;
typedef H<isl_multi_val> MVal;

// what the generator put in: every disjunct a conjunction of windows and
// strides on the last "no" variables
struct In { MMap m; bool trivial_box = false; std::vector<long> width; };

In gen_in(Case &c, const Sp &sp)
{
	In r; int np = sp.np(), ni = sp.ni(), no = sp.no(), nv = np + ni + no, f0 = np + ni;
	r.m = MMap(np, ni, no);
	int nb = 1 + c.t.weighted({5, 3, 1});
	// a window common to the disjuncts, so that a common box exists
	bool common = c.t.chance(2, 3);
	std::vector<ZRow> base(no);
	std::vector<long> wid(no);
	auto row = [&](int lim) { ZRow q(1 + nv, 0); q[0] = c.t.range(-4, 4); for (int i = 0; i < lim; ++i) if (c.t.chance(1, 2)) q[1 + i] = c.t.range(-3, 3); return q; };
	for (int k = 0; k < no; ++k) { base[k] = row(f0); wid[k] = c.t.chance(1, 3) ? c.t.range(6, 16) : c.t.range(1, 6); }
	r.trivial_box = common;
	for (int b = 0; b < nb; ++b) {
		MBasic x; x.nvar = nv;
		std::vector<ZRow> eqs; std::vector<std::pair<int, long>> dv;   // stride equalities (row, divisor)
		for (int k = 0; k < no; ++k) {
			int what = c.t.weighted({4, 3, 2});
			if (what != 2) {
				ZRow q = common ? base[k] : row(f0); long w = common ? wid[k] : c.t.range(1, 6);
				if (common && b) q[0] += c.t.range(-3, 3);
				if (common && b) r.trivial_box = false;
				int den = 1;
				if (c.t.chance(1, 6)) { den = c.t.range(2, 3); r.trivial_box = false; }
				ZRow lo(1 + nv), hi(1 + nv);
				for (int i = 0; i <= nv; ++i) { lo[i] = -q[i]; hi[i] = q[i]; }
				lo[1 + f0 + k] += den; hi[1 + f0 + k] -= den; hi[0] += w - 1;
				if (w == 1 && c.t.chance(1, 2)) x.eq.push_back(lo);
				else { x.ineq.push_back(lo); if (c.t.chance(1, 12)) r.trivial_box = false; else x.ineq.push_back(hi); }
				if (c.t.chance(1, 8)) { r.trivial_box = false; ZRow z = lo; z[0] += c.t.range(-2, 2); x.ineq.push_back(z); }
			} else r.trivial_box = false;
		}
		r.width = wid;
		int ns = c.t.weighted({3, 4, 2, 1});
		if (no == 0) ns = 0;
		for (int s = 0; s < ns; ++s) {
			r.trivial_box = false;
			int k = c.t.below(no);
			ZRow q = row(c.t.chance(1, 3) ? nv : f0);
			q[1 + f0 + k] = c.t.chance(1, 3) ? c.t.range(2, 5) : -1;
			eqs.push_back(q); dv.push_back({(int)eqs.size() - 1, (long)std::vector<int>{2, 3, 4, 5, 6, 7, 10, 12}[c.t.below(8)]});
		}
		int ne = c.t.weighted({6, 2, 1});
		for (int s = 0; s < ne; ++s) { r.trivial_box = false; x.ineq.push_back(row(nv)); }
		if (c.t.chance(1, 8)) { r.trivial_box = false; x.eq.push_back(row(nv)); }
		for (auto &d : dv) { x.divs.push_back(MDiv()); (void)d; }
		int nd = dv.size();
		for (auto &v : x.eq) v.resize(1 + nv + nd);
		for (auto &v : x.ineq) v.resize(1 + nv + nd);
		for (int j = 0; j < nd; ++j) { ZRow q = eqs[dv[j].first]; q.resize(1 + nv + nd); q[1 + nv + j] = dv[j].second; x.eq.push_back(q); }
		r.m.d.push_back(x);
	}
	return r;
}

mpq_class val_of(Case &c, isl_val *v) { return take_rat(c, v); }
bool integral(const mpq_class &q) { return q.get_den() == 1; }

void run(Case &c)
{
	bool is_map = c.t.chance(1, 2);
	Sp sp = is_map ? gen_map_space(c, 1, 2, 2, true) : gen_set_space(c, 2, 3, true);
	int np = sp.np(), ni = sp.ni(), no = sp.no(), f0 = np + ni;
	In gi = gen_in(c, sp);
	Set s; Map m;
	std::string text; MMap mm;
	bool rnd = c.t.chance(1, 6);
	GenOpt o; o.max_basic = 2; o.extra = 2; o.allow_big = false;
	bool scr = false;
	if (is_map) {
		m = rnd ? gen_map(c, sp, o) : build_map(c, gi.m, sp);
		if (!rnd && (scr = c.t.chance(1, 3))) m = scramble_map(c, m, sp, o);
		if (!rnd && c.t.chance(1, 6)) { m = R_(isl_map_intersect(m.r(), gen_map(c, sp, o).r())); rnd = true; }
		if (c.t.chance(1, 5)) m = R_(isl_map_coalesce(m.r()));
		if (c.t.chance(1, 5)) m = R_(isl_map_compute_divs(m.r()));
		text = S(m); mm = extract(c, m.g());
	} else {
		s = rnd ? gen_set(c, sp, o) : build_set(c, gi.m, sp);
		if (!rnd && (scr = c.t.chance(1, 3))) s = scramble_set(c, s, sp, o);
		if (!rnd && c.t.chance(1, 6)) { s = R_(isl_set_intersect(s.r(), gen_set(c, sp, o).r())); rnd = true; }
		if (c.t.chance(1, 5)) s = R_(isl_set_coalesce(s.r()));
		if (c.t.chance(1, 5)) s = R_(isl_set_compute_divs(s.r()));
		text = S(s); mm = extract(c, s.g());
	}
	c.log << text << "\n";
	// elements: a window, plus for every combination of the leading variables
	// all values of the last ones
	std::vector<Pt> el;
	for (auto &p : make_window(np + ni + no, 6000).pts) if (mm.has(p)) el.push_back(p);
	if (el.empty()) c.label("no elements in the window"); else c.label("elements");
	bool trivial = !rnd && !scr && gi.trivial_box && !el.empty();
	auto where = [&](const Pt &p) { return " at " + str(p) + "\n" + text; };

	// strides
	std::vector<mpq_class> st(no); std::vector<FAff> of(no);
	bool big = false;
	for (int k = 0; k < no; ++k) {
		Stride si = is_map ? R_(isl_map_get_range_stride_info(m.g(), k)) : R_(isl_set_get_stride_info(s.g(), k));
		if (c.t.chance(1, 3)) si = R_(isl_stride_info_copy(si.g()));
		st[k] = val_of(c, isl_stride_info_get_stride(si.g()));
		Aff a = R_(isl_stride_info_get_offset(si.g()));
		of[k] = fn_aff(c, a.g());
		std::string d = "dimension " + std::to_string(k) + ": stride " + st[k].get_str() + ", offset " + S(a);
		if (!integral(st[k]) || st[k] < 1) c.fail("stride", d + "\n" + text);
		if (st[k] > 1) { c.nontrivial = true; big = true; }
		Space ds = R_(isl_aff_get_domain_space(a.g()));
		Space xs = is_map ? R_(isl_space_domain(isl_map_get_space(m.g()))) : R_(isl_set_get_space(s.g()));
		if (!B(c, isl_space_is_equal(ds.g(), xs.g()), "isl_space_is_equal")) c.fail("stride offset space", d + "\n" + text);
		if (!is_map && B(c, isl_aff_involves_dims(a.g(), isl_dim_in, k, 1), "isl_aff_involves_dims")) c.fail("stride offset involves the dimension itself", d + "\n" + text);
		for (auto &p : el) {
			FV v = of[k].eval(is_map ? sub(p, 0, f0) : p);
			if (v.st != 1) c.fail("stride offset undefined", d + where(p));
			mpq_class q = (mpq_class(Z(p[f0 + k])) - v.v) / st[k];
			q.canonicalize();
			if (!integral(q)) c.fail("stride", d + where(p));
		}
		if (!is_map) {
			mpq_class g = val_of(c, isl_set_get_stride(s.g(), k));
			if (g != st[k]) { Stride si = R_(isl_set_get_stride_info(s.g(), k)); st[k] = val_of(c, isl_stride_info_get_stride(si.g())); }
			if (g != st[k]) c.fail("isl_set_get_stride", g.get_str() + " instead of " + st[k].get_str() + ", " + d + "\n" + text);
			isl_val *mo = nullptr, *re = nullptr;
			isl_stat r = isl_set_dim_residue_class_val(s.g(), k, &mo, &re);
			if (r < 0) { isl_val_free(mo); isl_val_free(re); on_error(c, "isl_set_dim_residue_class_val"); }
			mpq_class M = val_of(c, mo), V = val_of(c, re);
			std::string dd = "dimension " + std::to_string(k) + " is " + V.get_str() + " modulo " + M.get_str();
			if (!integral(M) || M < 0 || !integral(V)) c.fail("residue class", dd + "\n" + text);
			if (M != 1) c.nontrivial = true;
			for (auto &p : el) {
				mpq_class q = mpq_class(Z(p[k + np])) - V;
				if (M == 0 ? q != 0 : !integral(mpq_class(q / M))) c.fail("residue class", dd + where(p));
			}
		}
	}
	c.label(big ? "stride" : "no stride");

	// lattice tile and box
	for (int w = 0; w < 2; ++w) {
		const char *what = w ? "lattice tile" : "box";
		Box b = w ? (is_map ? R_(isl_map_get_range_lattice_tile(m.g())) : R_(isl_set_get_lattice_tile(s.g())))
		          : (is_map ? R_(isl_map_get_range_simple_fixed_box_hull(m.g())) : R_(isl_set_get_simple_fixed_box_hull(s.g())));
		if (c.t.chance(1, 3)) b = R_(isl_fixed_box_copy(b.g()));
		std::string bt = take_str(isl_fixed_box_to_str(b.g()));
		bool val = B(c, isl_fixed_box_is_valid(b.g()), "isl_fixed_box_is_valid");
		std::string d = std::string(what) + " " + bt;
		if (!val && w) c.fail("lattice tile not valid", d + "\n" + text);
		if (!val && trivial) c.fail("box not found", "every range dimension is given by a pair of constraints at a constant distance\n" + text);
		if (!w) c.label(val ? "box" : "no box");
		if (!val) continue;
		MAff off = R_(isl_fixed_box_get_offset(b.g())); MVal sz = R_(isl_fixed_box_get_size(b.g()));
		d += " offset " + S(off) + " size " + S(sz.g());
		Space bs = R_(isl_fixed_box_get_space(b.g())), os = R_(isl_multi_aff_get_space(off.g())), zs = R_(isl_multi_val_get_space(sz.g()));
		Space xs = is_map ? R_(isl_map_get_space(m.g())) : R_(isl_set_get_space(s.g())), xr = is_map ? R_(isl_space_range(xs.c())) : xs;
		// "an offset living in the same space as the input and a size living in the set or range space"
		if (!B(c, isl_space_has_equal_tuples(os.g(), xs.g()), "isl_space_has_equal_tuples") || !B(c, isl_space_has_equal_tuples(bs.g(), xs.g()), "isl_space_has_equal_tuples")) c.fail("box space", d + "\n" + text);
		if (!B(c, isl_space_has_equal_tuples(zs.g(), xr.g()), "isl_space_has_equal_tuples")) c.fail("box size space", d + "\n" + text);
		FFun F = fn(c, off.g());
		std::vector<mpq_class> z(no);
		for (int k = 0; k < no; ++k) {
			z[k] = val_of(c, isl_multi_val_get_val(sz.g(), k));
			if (!integral(z[k]) || z[k] < (w ? 1 : 0)) c.fail(what, "size " + z[k].get_str() + "\n" + d + "\n" + text);
			mpq_class want = st[k];
			if (w && !is_map) { // the offset can only depend on the parameters
				Map r = R_(isl_map_from_range(s.c())); Stride si = R_(isl_map_get_range_stride_info(r.g(), k));
				want = val_of(c, isl_stride_info_get_stride(si.g()));
			}
			if (w && is_map && z[k] != want) {
				// detection is a heuristic that depends on the internal
				// representation, which earlier queries may have improved
				Stride si = R_(isl_map_get_range_stride_info(m.g(), k));
				want = val_of(c, isl_stride_info_get_stride(si.g()));
			}
			if (w && z[k] != want) c.fail("lattice tile size", "dimension " + std::to_string(k) + " has stride " + want.get_str() + "\n" + d + "\n" + text);
			if (trivial && !w && z[k] > gi.width[k]) c.fail("box size", "dimension " + std::to_string(k) + " has a window of width " + std::to_string(gi.width[k]) + "\n" + d + "\n" + text);
		}
		if (!w && no && !el.empty()) c.nontrivial = true;
		for (auto &p : el) {
			Pt x = sub(p, 0, f0);
			// the offset of a set lives in its own space and is a parametric constant
			std::vector<FV> v = F.eval(x);
			for (int k = 0; k < no; ++k) {
				if (v[k].st != 1) c.fail(what, "undefined offset, " + d + where(p));
				mpq_class q = mpq_class(Z(p[f0 + k])) - v[k].v;
				if (!w && (q < 0 || q >= z[k])) c.fail("box", d + where(p));
				if (w) { q /= z[k]; if (!integral(q)) c.fail("lattice tile", d + where(p)); }
			}
		}
	}

	// values that are obviously fixed
	MVal mv; if (!is_map) mv = R_(isl_set_get_plain_multi_val_if_fixed(s.g()));
	for (int v = 0; v < np + ni + no; ++v) {
		isl_dim_type ty = v < np ? isl_dim_param : v < f0 ? isl_dim_in : is_map ? isl_dim_out : isl_dim_set;
		int pos = v < np ? v : v < f0 ? v - np : v - f0;
		Val x = is_map ? R_(isl_map_plain_get_val_if_fixed(m.g(), ty, pos)) : R_(isl_set_plain_get_val_if_fixed(s.g(), ty, pos));
		bool nan = B(c, isl_val_is_nan(x.g()), "isl_val_is_nan");
		if (v >= f0 && !is_map) { Val y = R_(isl_multi_val_get_val(mv.g(), pos)); bool n2 = B(c, isl_val_is_nan(y.g()), "isl_val_is_nan"); if (n2 != nan || (!nan && !B(c, isl_val_eq(x.g(), y.g()), "isl_val_eq"))) c.fail("isl_set_get_plain_multi_val_if_fixed", S(y) + " and " + S(x) + " for dimension " + std::to_string(pos) + "\n" + text); }
		if (nan) continue;
		c.label("fixed"); if (!el.empty()) c.nontrivial = true;
		mpq_class fq = val_of(c, x.r());
		for (auto &p : el) if (fq != mpq_class(Z(p[v]))) c.fail("fixed value", fq.get_str() + " for variable " + std::to_string(v) + where(p));
	}

	// basic pieces
	std::vector<BMap> bm;
	Map all = is_map ? m : R_(isl_set_unwrap(isl_map_wrap(isl_map_from_range(s.c()))));
	isl_basic_map_list *l = isl_map_get_basic_map_list(all.g()); int n = isl_basic_map_list_n_basic_map(l);
	for (int i = 0; i < n; ++i) bm.push_back(BMap(isl_basic_map_list_get_basic_map(l, i)));
	isl_basic_map_list_free(l);
	for (auto &b : bm) {
		MMap x = extract(c, b.g());
		for (int v = 0; v < np + ni + no; ++v) {
			isl_dim_type ty = v < np ? isl_dim_param : v < f0 ? isl_dim_in : isl_dim_out; int pos = v < np ? v : v < f0 ? v - np : v - f0;
			Val q = R_(isl_basic_map_plain_get_val_if_fixed(b.g(), ty, pos));
			if (B(c, isl_val_is_nan(q.g()), "isl_val_is_nan")) continue;
			mpq_class z = val_of(c, q.c());
			for (auto &p : el) if (x.has(p) && z != mpq_class(Z(p[v]))) c.fail("fixed value in basic relation", S(q) + " for variable " + std::to_string(v) + " of " + S(b) + where(p));
		}
	}
	// a single fixed box for a box of constants has to agree with the elements:
	// the smallest box is at least as large as what was found in the window
	c.step();
}
} // namespace
namespace vp { Prop the_prop = {"C35",
	"the window contains elements and a stride larger than one, a valid box or a fixed value was reported",
	run, 24000, 240000}; }
