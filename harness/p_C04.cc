// C04: simplification never changes the meaning.
#include "fn.h"
using namespace vp;

namespace {
template <class T> bool all_known(Case &c, const T &s)
{
	for (auto &b : extract(c, s.g()).d) for (auto &d : b.divs) if (!d.known) return false;
	return true;
}

// a set as a union of pieces that fit together (exercises coalescing)
Set patchwork(Case &c, const Sp &sp)
{
	GenOpt o;
	o.max_basic = 1; o.extra = 2;
	Set s = gen_set(c, sp, o);
	int cuts = 1 + c.t.below(3);
	for (int i = 0; i < cuts; ++i) {
		GenOpt q;
		q.max_basic = 1; q.extra = 2; q.allow_exist = c.t.chance(1, 4);
		Set t = gen_set(c, sp, q, false);
		switch (c.t.below(4)) {
		case 0: s = R(c, isl_set_union(isl_set_subtract(s.c(), t.c()), isl_set_intersect(s.c(), t.c())), "cut"); break;
		case 1: s = R(c, isl_set_union(s.c(), isl_set_subtract(t.c(), s.c())), "grow"); break;
		case 2: s = R(c, isl_set_union(s.c(), t.c()), "overlap"); break;
		case 3: s = R(c, isl_set_subtract(s.c(), t.c()), "hole"); break;
		}
		if (n_basic(s) > 7) break;
	}
	return s;
}

enum Mode { EQ, CTX, OVER };

void run(Case &c)
{
	if (c.t.chance(1, 4)) {
		// relations: gist with respect to domain, range, parameters
		Sp sp = gen_map_space(c, 2, 2, 2, c.t.chance(1, 4));
		GenOpt o;
		o.max_basic = 2;
		Map a = gen_map(c, sp, o);
		MMap ma = extract(c, a.g());
		int np = sp.np(), ni = sp.ni(), no = sp.no();
		int op = c.t.below(12);
		std::string how = "a = " + S(a);
		if (op == 0 || op == 1 || op == 2) {
			Sp cs = op == 0 ? set_sp(sp, sp.in) : op == 1 ? set_sp(sp, sp.out) : set_sp(sp, flat_tup(0));
			GenOpt oc; oc.max_basic = 2; oc.allow_exist = c.t.chance(1, 3);
			Set ctx = gen_set(c, cs, oc);
			if (op == 2) ctx = R(c, isl_set_params(ctx.c()), "params");
			MMap mc = extract(c, ctx.g());
			how += "\ncontext = " + S(ctx) + (op == 0 ? "\ngist_domain" : op == 1 ? "\ngist_range" : "\ngist_params");
			c.log << how << "\n";
			Map r = op == 0 ? R(c, isl_map_gist_domain(a.c(), ctx.c()), "isl_map_gist_domain") : op == 1 ? R(c, isl_map_gist_range(a.c(), ctx.c()), "isl_map_gist_range") : R(c, isl_map_gist_params(a.c(), ctx.c()), "isl_map_gist_params");
			MMap mr = extract(c, r.g());
			// agreement on the context
			Map both = R(c, op == 0 ? isl_map_intersect_domain(r.c(), ctx.c()) : op == 1 ? isl_map_intersect_range(r.c(), ctx.c()) : isl_map_intersect_params(r.c(), ctx.c()), "intersect");
			(void)both;
			Window w = make_window(np + ni + no, 900);
			for (auto &p : w.pts) {
				Pt q = op == 0 ? sub(p, 0, np + ni) : op == 1 ? cat(sub(p, 0, np), sub(p, np + ni, no)) : sub(p, 0, np);
				if (!mc.has(q)) continue;
				if (ma.has(p) != mr.has(p)) c.fail(op == 0 ? "gist_domain" : op == 1 ? "gist_range" : "gist_params", "differs at " + str(p) + " of the context\nresult: " + S(r) + "\n" + how);
			}
			want_space(c, "gist", isl_map_get_space(r.g()), sp, how);
			c.nontrivial = true;
			c.label(op == 0 ? "map_gist_domain" : op == 1 ? "map_gist_range" : "map_gist_params");
			return;
		}
		static const char *nm[] = {"", "", "", "map_coalesce", "map_detect_equalities", "map_remove_redundancies", "map_compute_divs", "map_make_disjoint", "map_gist", "map_align_divs", "map_gist", "map_remove"};
		Map ctx; MMap mc; bool g = op == 8 || op == 10;
		if (g) { ctx = gen_map(c, sp, o); mc = extract(c, ctx.g()); how += "\ncontext = " + S(ctx); }
		int k = c.t.below(3);
		how += std::string("\n") + nm[op];
		if (op == 11) how += std::to_string(k);
		c.log << how << "\n";
		Map r;
		switch (op) {
		case 3: r = R(c, isl_map_coalesce(a.c()), nm[op]); break;
		case 4: r = R(c, isl_map_detect_equalities(a.c()), nm[op]); break;
		case 5: r = R(c, isl_map_remove_redundancies(a.c()), nm[op]); break;
		case 6: r = R(c, isl_map_compute_divs(a.c()), nm[op]); if (!all_known(c, r)) c.fail("compute_divs", "unknown divs remain\n" + how); break;
		case 7: r = R(c, isl_map_make_disjoint(a.c()), nm[op]); break;
		case 8: r = R(c, isl_map_gist(a.c(), ctx.c()), nm[op]); break;
		case 9: r = R(c, isl_map_align_divs(a.c()), nm[op]); break;
		case 10: {
			if (n_basic(ctx) < 1) return;
			H<isl_basic_map_list> l(isl_map_get_basic_map_list(ctx.g()));
			BMap x(isl_basic_map_list_get_basic_map(l.g(), 0));
			mc = extract(c, x.g());
			for (auto &b : mc.d) for (auto &d : b.divs) if (!d.known) return;   // documented assumption
			r = R(c, isl_map_gist_basic_map(a.c(), x.c()), "isl_map_gist_basic_map");
			break; }
		case 11: r = k == 0 ? R(c, isl_map_remove_divs(a.c()), nm[op]) : k == 1 ? R(c, isl_map_remove_unknown_divs(a.c()), nm[op]) : R(c, isl_map_remove_divs_involving_dims(a.c(), isl_dim_in, 0, ni), nm[op]); break;
		}
		MMap mr = extract(c, r.g());
		if (op == 11) for (auto &b : mr.d) {
			if (k == 0 && !b.divs.empty()) c.fail("remove_divs", "divs remain\n" + how);
			for (auto &d : b.divs) if (k == 1 && !d.known) c.fail("remove_unknown_divs", "unknown div remains\n" + how);
		}
		Window w = make_window(np + ni + no, 900);
		long in = 0;
		for (auto &p : w.pts) {
			bool x = ma.has(p), y = mr.has(p);
			if (x) in++;
			if (g && !mc.has(p)) continue;
			if (x != y && !(op == 11 && y)) c.fail(nm[op], "at " + str(p) + ": argument " + (x ? "in" : "out") + ", result " + (y ? "in" : "out") + "\nresult: " + S(r) + "\n" + how);
		}
		want_space(c, nm[op], isl_map_get_space(r.g()), sp, how);
		if (in) c.nontrivial = true;
		c.label(nm[op]);
		return;
	}
	Sp sp = gen_set_space(c, 2, 3, c.t.chance(1, 5));
	if (sp.np() + sp.no() > 4) sp.params.resize(4 - sp.no());
	GenOpt o;
	o.max_basic = 3;
	o.coef = c.t.chance(1, 4) ? 9 : 3;
	Set a = c.t.chance(1, 2) ? patchwork(c, sp) : gen_set(c, sp, o);
	MMap ma = extract(c, a.g());
	int np = sp.np(), ns = sp.no(), n = np + ns;
	int op = c.t.weighted({8, 3, 3, 3, 2, 3, 8, 3, 3, 2, 2, 2, 2, 2, 1, 3});
	static const char *nm[] = {"coalesce", "detect_equalities", "remove_redundancies", "compute_divs", "align_divs", "make_disjoint", "gist", "gist_basic_set", "gist_params",
		"remove_divs", "remove_unknown_divs", "remove_divs_involving_dims", "basic_set ops", "basic gist", "drop_unused_params", "chain"};
	std::string how = "a = " + S(a) + "\n" + nm[op];
	c.log << how << "\n";
	Mode mode = EQ;
	MMap mc;
	Set r;
	int nb = n_basic(a);
	std::function<Pt(const Pt &)> cproj = [](const Pt &p) { return p; };
	switch (op) {
	case 0: r = R(c, isl_set_coalesce(a.c()), nm[op]);
		if (n_basic(r) > nb) c.fail("coalesce", "coalescing increased the number of pieces\n" + how);
		break;
	case 1: r = R(c, isl_set_detect_equalities(a.c()), nm[op]); break;
	case 2: r = R(c, isl_set_remove_redundancies(a.c()), nm[op]); break;
	case 3: r = R(c, isl_set_compute_divs(a.c()), nm[op]); if (!all_known(c, r)) c.fail("compute_divs", "unknown divs remain\n" + how); break;
	case 4: r = R(c, isl_set_align_divs(a.c()), nm[op]);
		{
			MMap m = extract(c, r.g());
			for (size_t i = 1; i < m.d.size(); ++i) if (m.d[i].divs.size() != m.d[0].divs.size()) c.fail("align_divs", "different numbers of divs\n" + S(r) + "\n" + how);
		}
		break;
	case 5: {
		r = R(c, isl_set_make_disjoint(a.c()), nm[op]);
		MMap m = extract(c, r.g());
		Window w = make_window(n, 600);
		for (auto &p : w.pts) { int k = 0; for (auto &b : m.d) k += b.has(p); if (k > 1) c.fail("make_disjoint", "pieces overlap at " + str(p) + "\nresult: " + S(r) + "\n" + how); }
		break; }
	case 6: case 7: case 8: {
		GenOpt oc;
		oc.max_basic = 2; oc.extra = 2;
		Sp cs = op == 8 ? set_sp(sp, flat_tup(0)) : sp;
		Set ctx;
		if (op != 8 && c.t.chance(1, 3)) ctx = R(c, isl_set_union(a.c(), gen_set(c, cs, oc).r()), "context");   // related context
		else if (op != 8 && c.t.chance(1, 3)) ctx = R(c, isl_set_from_basic_set(isl_set_simple_hull(a.c())), "hull context");
		else ctx = gen_set(c, cs, oc);
		if (op == 8) ctx = R(c, isl_set_params(ctx.c()), "params");
		how += "\ncontext = " + S(ctx);
		c.log << "context = " << S(ctx) << "\n";
		mode = CTX;
		if (op == 7) {
			if (n_basic(ctx) < 1) return;
			H<isl_basic_set_list> l(isl_set_get_basic_set_list(ctx.g()));
			BSet x(isl_basic_set_list_get_basic_set(l.g(), 0));
			mc = extract(c, x.g());
			for (auto &b : mc.d) for (auto &d : b.divs) if (!d.known) return;   // documented assumption
			r = R(c, isl_set_gist_basic_set(a.c(), x.c()), nm[op]);
		} else {
			mc = extract(c, ctx.g());
			r = op == 8 ? R(c, isl_set_gist_params(a.c(), ctx.c()), nm[op]) : R(c, isl_set_gist(a.c(), ctx.c()), nm[op]);
		}
		if (op == 8) cproj = [np](const Pt &p) { return sub(p, 0, np); };
		break; }
	case 9: mode = OVER; r = R(c, isl_set_remove_divs(a.c()), nm[op]);
		for (auto &b : extract(c, r.g()).d) if (!b.divs.empty()) c.fail("remove_divs", "divs remain\n" + S(r) + "\n" + how);
		break;
	case 10: mode = OVER; r = R(c, isl_set_remove_unknown_divs(a.c()), nm[op]);
		if (!all_known(c, r)) c.fail("remove_unknown_divs", "unknown divs remain\n" + how);
		break;
	case 11: {
		if (!ns) return;
		int f = c.t.below(ns), k = 1 + c.t.below(ns - f);
		how += ints({f, k});
		mode = OVER;
		r = R(c, isl_set_remove_divs_involving_dims(a.c(), isl_dim_set, f, k), nm[op]);
		for (auto &b : extract(c, r.g()).d) for (auto &d : b.divs) if (d.known) for (int i = f; i < f + k; ++i)
			if (d.num[1 + np + i] != 0) c.fail("remove_divs_involving_dims", "a div still refers to the dimension\n" + S(r) + "\n" + how);
		break; }
	case 12: {
		if (nb < 1) return;
		H<isl_basic_set_list> l(isl_set_get_basic_set_list(a.g()));
		BSet x(isl_basic_set_list_get_basic_set(l.g(), c.t.below(nb)));
		ma = extract(c, x.g());
		int k = c.t.below(6);
		how = "x = " + S(x) + "\nbasic set op" + ints({k});
		c.log << how << "\n";
		BSet y;
		switch (k) {
		case 0: y = R(c, isl_basic_set_detect_equalities(x.c()), "isl_basic_set_detect_equalities"); break;
		case 1: y = R(c, isl_basic_set_remove_redundancies(x.c()), "isl_basic_set_remove_redundancies"); break;
		case 2: r = R(c, isl_basic_set_compute_divs(x.c()), "isl_basic_set_compute_divs"); break;
		case 3: y = R(c, isl_basic_set_remove_divs(x.c()), "isl_basic_set_remove_divs"); mode = OVER; break;
		case 4: y = R(c, isl_basic_set_remove_unknown_divs(x.c()), "isl_basic_set_remove_unknown_divs"); mode = OVER; break;
		case 5: y = R(c, isl_basic_set_drop_constraints_involving_dims(x.c(), isl_dim_set, 0, ns), "drop"); mode = OVER; break;
		}
		if (y) r = R(c, isl_set_from_basic_set(y.c()), "from_basic_set");
		break; }
	case 13: {
		if (nb < 1) return;
		GenOpt oc;
		oc.max_basic = 1; oc.extra = 2;
		H<isl_basic_set_list> l(isl_set_get_basic_set_list(a.g()));
		BSet x(isl_basic_set_list_get_basic_set(l.g(), c.t.below(nb))), y = gen_bset(c, sp, oc);
		if (c.t.chance(1, 2)) y = R(c, isl_basic_set_intersect(y.c(), x.c()), "intersect");
		ma = extract(c, x.g()); mc = extract(c, y.g());
		how = "x = " + S(x) + "\ny = " + S(y) + "\nisl_basic_set_gist";
		// the basic operations require explicit integer divisions
		for (auto *m : {&ma, &mc}) for (auto &b : m->d) for (auto &d : b.divs) if (!d.known) return;
		c.log << how << "\n";
		mode = CTX;
		r = R(c, isl_set_from_basic_set(R(c, isl_basic_set_gist(x.c(), y.c()), "isl_basic_set_gist").r()), "from_basic_set");
		break; }
	case 14: {
		r = R(c, isl_set_drop_unused_params(a.c()), nm[op]);
		// re-align with the original parameters before comparing
		r = R(c, isl_set_align_params(r.r(), isl_set_get_space(a.g())), "isl_set_align_params");
		break; }
	case 15: {
		isl_set *q = a.c();
		int k = 2 + c.t.below(3);
		for (int i = 0; i < k; ++i) {
			int z = c.t.below(6);
			how += " " + std::to_string(z);
			switch (z) {
			case 0: q = isl_set_coalesce(q); break;
			case 1: q = isl_set_detect_equalities(q); break;
			case 2: q = isl_set_remove_redundancies(q); break;
			case 3: q = isl_set_compute_divs(q); break;
			case 4: q = isl_set_make_disjoint(q); break;
			case 5: q = isl_set_align_divs(q); break;
			}
		}
		c.log << how << "\n";
		r = R(c, q, "chain");
		break; }
	}
	MMap mr = extract(c, r.g());
	Window w = make_window(n, 1200);
	long in = 0, used = 0;
	for (auto &p : w.pts) {
		bool x = ma.has(p), y = mr.has(p);
		if (x) in++;
		if (mode == CTX && !mc.has(cproj(p))) continue;
		used++;
		if (x != y && !(mode == OVER && y))
			c.fail(nm[op], "at " + str(p) + ": argument " + (x ? "in" : "out") + ", result " + (y ? "in" : "out") + "\nresult: " + S(r) + "\n" + how);
	}
	// the set itself, far from the origin
	want_space(c, nm[op], isl_set_get_space(r.g()), sp, how);
	c.label(nm[op]);
	if (in && used) c.nontrivial = true;
}
} // namespace

Prop vp::the_prop = {"C04",
	"Case = a random set or relation (0-2 parameters, up to 4 variables; half of the sets are patchworks of pieces cut from, grown around and overlapping each other) and "
	"one simplification (coalesce, detect_equalities, remove_redundancies, compute_divs, align_divs, make_disjoint, gist in all forms, removal of divs) or a chain of them; "
	"the elements of the argument and the result are compared on a window (on the context for gists, inclusion for documented over-approximations). "
	"Non-trivial: the compared window contains members of the argument.",
	run, 60000, 3000000};
