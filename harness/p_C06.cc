// C06: lexicographic optimisation returns the exact lexicographic extremum.
#include "fn.h"
using namespace vp;

namespace {
// 1: max, 0: min
bool better(const Pt &a, const Pt &b, bool max)
{
	for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return max ? a[i] > b[i] : a[i] < b[i];
	return false;
}

// Exact extremum of { y in [lo,hi]^no : m(x, y) }, empty if none
struct Ref {
	const MMap *m; int no; bool max; std::vector<Pt> outs;
	Ref(const MMap &mm, int n, int lo, int hi, bool mx) : m(&mm), no(n), max(mx), outs(box_points(n, lo, hi)) {
		std::sort(outs.begin(), outs.end(), [&](const Pt &a, const Pt &b) { return better(a, b, mx); });
	}
	bool find(const Pt &x, Pt &y) const { for (auto &o : outs) if (m->has(cat(x, o))) { y = o; return true; } return false; }
};

template <class T> T clip_out(Case &c, const T &a, int lo, int hi, int no);
template <> Set clip_out<Set>(Case &c, const Set &a, int lo, int hi, int no)
{
	isl_set *s = a.c();
	for (int i = 0; i < no; ++i) {
		if (lo > -99) s = isl_set_lower_bound_si(s, isl_dim_set, i, lo);
		if (hi < 99) s = isl_set_upper_bound_si(s, isl_dim_set, i, hi);
	}
	return R(c, s, "clip");
}
template <> Map clip_out<Map>(Case &c, const Map &a, int lo, int hi, int no)
{
	isl_map *s = a.c();
	for (int i = 0; i < no; ++i) {
		if (lo > -99) s = isl_map_lower_bound_si(s, isl_dim_out, i, lo);
		if (hi < 99) s = isl_map_upper_bound_si(s, isl_dim_out, i, hi);
	}
	return R(c, s, "clip");
}

// checks a graph "r" of the result
void check_graph(Case &c, const char *op, const MMap &r, const FFun *f, const Ref &ref, const MMap &m, int nx, int no, bool exact, int lo, int hi, bool max, const Pred *dom, const MMap *empty, const std::string &how)
{
	bool heavy = false;
	for (auto *mm : {&m, &r}) for (auto &b : mm->d) for (auto &d : b.divs) if (!d.known) heavy = true;
	auto w = make_window(nx, heavy ? (no >= 3 ? 25 : 80) : no >= 3 ? 100 : 250);
	std::set<std::string> seen;
	for (auto &x : w.pts) {
		Pt y;
		bool in = !dom || (*dom)(x);
		bool have = ref.find(x, y);
		if (!exact && !have) continue;   // the extremum may be outside of the window
		bool want = in && have;
		Pt got;
		bool gh = false;
		if (f) {
			if (f->ambiguous(x)) c.fail(op, "pieces of the result overlap at " + str(x) + "\n" + how);
			gh = f->def(x);
			if (gh) {
				auto v = f->eval(x);
				for (auto &e : v) { if (e.st != 1 || e.v.get_den() != 1) c.fail(op, "the result is not integral at " + str(x) + ": " + str(v) + "\n" + how); got.push_back(e.v.get_num().get_si()); }
			}
		} else {
			int cnt = 0;
			for (auto &o : box_points(no, lo - 2, hi + 2)) if (r.has(cat(x, o))) { got = o; gh = true; if (++cnt > 1) break; }
			if (cnt > 1) c.fail(op, "several extrema at " + str(x) + "\n" + how);
		}
		if (!exact) {
			// the extremum may lie outside of the window
			if (!want) { if (gh && !in) c.fail(op, "result outside the domain argument at " + str(x) + "\n" + how); continue; }
			if (f && !gh) c.fail(op, "at (params,in) " + str(x) + " the result has no value but the element " + str(y) + " exists\n" + how);
			if (gh && (!m.has(cat(x, got)) || better(y, got, max))) c.fail(op, "at (params,in) " + str(x) + " the result is " + str(got) + " which is not an element or worse than " + str(y) + "\n" + how);
			if (empty && empty->has(x)) c.fail(op, "at (params,in) " + str(x) + " the empty part contains the element although " + str(y) + " exists\n" + how);
			continue;
		}
		if (gh != want) c.fail(op, "at (params,in) " + str(x) + (gh ? " the result is " + str(got) + " but there is no element" : " the result has no value but the extremum is " + str(y)) + "\n" + how);
		if (want && got != y) c.fail(op, "at (params,in) " + str(x) + " the result is " + str(got) + " instead of the lexicographic extremum " + str(y) + "\n" + how);
		if (empty) {
			bool e = empty->has(x), ee = in && !have;
			if (e != ee) c.fail(op, "at (params,in) " + str(x) + " the empty part says " + (e ? "empty" : "not empty") + " but the extremum " + (have ? "exists" : "does not exist") + (in ? "" : " (outside the domain argument)") + "\n" + how);
		}
		if (seen.size() < 2) seen.insert(want ? str(y) : "none");
	}
	if (seen.size() >= 2) c.nontrivial = true;
	c.label(op);
}

void run_union(Case &c)
{
	Sp sp = gen_map_space(c, 1, 2, 2);
	PMA a = gen_pma(c, sp), b = gen_pma(c, sp);
	bool max = c.t.chance(1, 2);
	FFun fa = fn(c, a.g()), fb = fn(c, b.g());
	std::string how = "a = " + S(a) + "\nb = " + S(b) + (max ? "\nunion_lexmax" : "\nunion_lexmin");
	c.log << how << "\n";
	PMA r = R(c, max ? isl_pw_multi_aff_union_lexmax(a.c(), b.c()) : isl_pw_multi_aff_union_lexmin(a.c(), b.c()), "isl_pw_multi_aff_union_lexopt");
	int no = sp.no();
	how += "\nresult: " + S(r);
	check_fn(c, max ? "isl_pw_multi_aff_union_lexmax" : "isl_pw_multi_aff_union_lexmin", fn(c, r.g()), sp.np(), sp.ni(), no, [&](const Pt &p) {
		bool da = fa.def(p), db = fb.def(p);
		std::vector<FV> u(std::max(no, 1));
		if (!da && !db) return u;
		if (no == 0) return std::vector<FV>();
		auto va = fa.eval(p), vb = fb.eval(p);
		if (!da) return vb;
		if (!db) return va;
		for (int i = 0; i < no; ++i) if (va[i].v != vb[i].v) return (va[i].v < vb[i].v) != max ? va : vb;
		return va;
	}, how);
}

// several constraints that are parallel in the optimised variables, with distinct parameters/inputs in each
template <class T> T parallel(Case &c, const Sp &sp);
isl_basic_map *parallel_bmap(Case &c, const Sp &sp)
{
	int np = sp.np(), ni = sp.is_map ? sp.ni() : 0, no = sp.no();
	isl_space *space = mk_space(c, sp);
	enum isl_dim_type ty = isl_dim_out;
	isl_local_space *ls = isl_local_space_from_space(isl_space_copy(space));
	isl_basic_map *b = isl_basic_map_universe(space);
	std::vector<int> v(no);
	for (auto &x : v) x = c.t.weighted({2, 5, 3, 1}) * 1;
	for (auto &x : v) { if (x == 3) x = 2; else if (x == 2) x = -1; }
	if (no && !v[0] && (no < 2 || !v[1])) v[0] = 1;
	int sgn = c.t.chance(1, 2) ? 1 : -1, cst = c.t.below(2);
	auto row = [&](const std::function<isl_constraint *(isl_constraint *)> &f) {
		isl_constraint *k = isl_constraint_alloc_inequality(isl_local_space_copy(ls));
		for (int i = 0; i < no; ++i) k = isl_constraint_set_coefficient_si(k, ty, i, -sgn * v[i]);
		b = isl_basic_map_add_constraint(b, f(k));
	};
	for (int i = 0; i < np + ni; ++i) if (!c.t.chance(1, 8)) row([&](isl_constraint *k) {
		int a = c.t.chance(1, 4) ? (c.t.chance(1, 2) ? 2 : -1) : 1;
		k = isl_constraint_set_coefficient_si(k, i < np ? isl_dim_param : isl_dim_in, i < np ? i : i - np, a);
		return isl_constraint_set_constant_si(k, c.t.range(-2, 2));
	});
	if (cst) row([&](isl_constraint *k) { return isl_constraint_set_constant_si(k, c.t.range(-2, 3)); });
	isl_local_space_free(ls);
	return b;
}
template <> Map parallel<Map>(Case &c, const Sp &sp) { return R(c, isl_map_from_basic_map(parallel_bmap(c, sp)), "parallel"); }
void run(Case &c)
{
	int kind = c.t.weighted({5, 4, 4, 1, 1});
	if (kind == 3) return run_union(c);
	bool max = c.t.chance(1, 2), exact = c.t.chance(3, 4);
	int W = c.t.range(2, 4);
	bool pma = c.t.chance(1, 2);
	GenOpt o;
	o.coef = c.t.chance(1, 3) ? 5 : 3;
	o.max_basic = c.t.chance(1, 2) ? 1 : 3;
	bool partial = kind == 2;
	auto bounds = [&](int no, int &lo, int &hi) { if (no >= 3) W = std::min(W, 3); lo = -W; hi = W; };
	auto dom_opt = [&] { GenOpt q; q.max_basic = 2; q.allow_exist = c.t.chance(1, 2); return q; };
	if (kind == 4 && exact) {
		// union of sets or maps
		Sp s1 = gen_map_space(c, 1, 1, 2), s2 = s1;
		s1.in.name = "A"; s2.in.name = "B";
		if (!s1.in.sub.empty() || !s2.in.sub.empty()) return;
		Map a = clip_out(c, gen_map(c, s1, o), -W, W, s1.no()), b = clip_out(c, gen_map(c, s2, o), -W, W, s2.no());
		UMap u = R(c, isl_union_map_union(isl_union_map_from_map(a.c()), isl_union_map_from_map(b.c())), "union");
		std::string how = "u = " + S(u) + (max ? "\nunion_map_lexmax" : "\nunion_map_lexmin");
		c.log << how << "\n";
		UMap r = R(c, max ? isl_union_map_lexmax(u.c()) : isl_union_map_lexmin(u.c()), "isl_union_map_lexopt");
		how += "\nresult: " + S(r);
		for (int k = 0; k < 2; ++k) {
			Sp &sp = k ? s2 : s1;
			Map &m = k ? b : a;
			Map e = R(c, isl_union_map_extract_map(r.g(), isl_map_get_space(m.g())), "extract");
			MMap mm = extract(c, m.g()), mr = extract(c, e.g());
			Ref ref(mm, sp.no(), -W, W, max);
			check_graph(c, "isl_union_map_lexopt", mr, nullptr, ref, mm, sp.np() + sp.ni(), sp.no(), true, -W, W, max, nullptr, nullptr, how);
		}
		return;
	}
	if (kind == 1 || (partial && c.t.chance(1, 3))) {   // sets
		Sp sp = gen_set_space(c, 2, 3);
		int no = sp.no(), lo, hi;
		bounds(no, lo, hi);
		Set a = gen_set(c, sp, o);
		a = clip_out(c, a, exact || !max ? lo : -100, exact || max ? hi : 100, no);
		bool basic = c.t.chance(1, 3);
		BSet bs;
		if (basic) {
			H<isl_basic_set_list> l(isl_set_get_basic_set_list(a.g()));
			if (isl_basic_set_list_n_basic_set(l.g()) < 1) return;
			bs = R(c, isl_basic_set_list_get_basic_set(l.g(), 0), "first");
			a = R(c, isl_set_from_basic_set(bs.c()), "isl_set_from_basic_set");
		}
		MMap m = extract(c, a.g());
		std::string how = "a = " + S(a);
		Set dom, empty; BSet bd;
		MMap md, me;
		Pred pd = [&](const Pt &x) { return md.has(x); };
		if (partial) {
			GenOpt q = dom_opt();
			if (basic) q.max_basic = 1;
			dom = R(c, isl_set_params(gen_set(c, set_sp(sp, flat_tup(0)), q).r()), "params");
			if (basic) { H<isl_basic_set_list> l(isl_set_get_basic_set_list(dom.g())); if (isl_basic_set_list_n_basic_set(l.g()) < 1) return; bd = R(c, isl_basic_set_list_get_basic_set(l.g(), 0), "first"); dom = R(c, isl_set_from_basic_set(bd.c()), "first"); }
			md = extract(c, dom.g());
			how += "\ndom = " + S(dom);
		}
		how += std::string(max ? "\nmax" : "\nmin") + (basic ? " basic" : "") + (partial ? " partial" : "") + (pma ? " pw_multi_aff" : "");
		c.log << how << "\n";
		Ref ref(m, no, lo, exact ? hi : hi, max);
		isl_set *em = nullptr;
		auto bdom = [&] { return bd.c(); };
		if (pma && (!partial || basic)) {
			PMA r;
			if (partial) r = R(c, max ? isl_basic_set_partial_lexmax_pw_multi_aff(bs.c(), bdom(), &em) : isl_basic_set_partial_lexmin_pw_multi_aff(bs.c(), bdom(), &em), "isl_basic_set_partial_lexopt_pw_multi_aff");
			else r = R(c, max ? isl_set_lexmax_pw_multi_aff(a.c()) : isl_set_lexmin_pw_multi_aff(a.c()), "isl_set_lexopt_pw_multi_aff");
			if (partial) { empty = R(c, em, "empty"); me = extract(c, empty.g()); how += "\nempty: " + S(empty); }
			how += "\nresult: " + S(r);
			FFun f = fn(c, r.g());
			check_graph(c, partial ? "isl_basic_set_partial_lexopt_pw_multi_aff" : "isl_set_lexopt_pw_multi_aff", MMap(), &f, ref, m, sp.np(), no, exact, lo, hi, max, partial ? &pd : nullptr, partial ? &me : nullptr, how);
			return;
		}
		Set r;
		const char *op;
		if (partial && basic) { op = "isl_basic_set_partial_lexopt"; r = R(c, max ? isl_basic_set_partial_lexmax(bs.c(), bdom(), &em) : isl_basic_set_partial_lexmin(bs.c(), bdom(), &em), op); }
		else if (partial) { op = "isl_set_partial_lexopt"; r = R(c, max ? isl_set_partial_lexmax(a.c(), dom.c(), &em) : isl_set_partial_lexmin(a.c(), dom.c(), &em), op); }
		else if (basic) { op = "isl_basic_set_lexopt"; r = R(c, max ? isl_basic_set_lexmax(bs.c()) : isl_basic_set_lexmin(bs.c()), op); }
		else { op = "isl_set_lexopt"; r = R(c, max ? isl_set_lexmax(a.c()) : isl_set_lexmin(a.c()), op); }
		if (partial) { empty = R(c, em, "empty"); me = extract(c, empty.g()); how += "\nempty: " + S(empty); }
		how += "\nresult: " + S(r);
		check_graph(c, op, extract(c, r.g()), nullptr, ref, m, sp.np(), no, exact, lo, hi, max, partial ? &pd : nullptr, partial ? &me : nullptr, how);
		return;
	}
	bool par = c.t.chance(1, 5);
	Sp sp = par ? gen_map_space(c, 2, 3, 2) : gen_map_space(c, 1, 2, 3);
	int no = sp.no(), lo, hi;
	bounds(no, lo, hi);
	Map a = par ? parallel<Map>(c, sp) : gen_map(c, sp, o);
	if (par && c.t.chance(1, 3)) { GenOpt q = o; q.max_basic = 1; a = R(c, isl_map_intersect(a.r(), gen_map(c, sp, q).r()), "parallel"); }
	if (par) c.label("parallel bounds");
	a = clip_out(c, a, exact || !max ? lo : -100, exact || max ? hi : 100, no);
	bool basic = c.t.chance(1, 3);
	BMap bm;
	if (basic) {
		H<isl_basic_map_list> l(isl_map_get_basic_map_list(a.g()));
		if (isl_basic_map_list_n_basic_map(l.g()) < 1) return;
		bm = R(c, isl_basic_map_list_get_basic_map(l.g(), 0), "first");
		a = R(c, isl_map_from_basic_map(bm.c()), "isl_map_from_basic_map");
	}
	MMap m = extract(c, a.g());
	std::string how = "a = " + S(a);
	Set dom, empty; BSet bd;
	MMap md, me;
	Pred pd = [&](const Pt &x) { return md.has(x); };
	if (partial) {
		GenOpt q = dom_opt();
		if (basic) q.max_basic = 1;
		dom = gen_set(c, set_sp(sp, sp.in), q);
		if (basic) { H<isl_basic_set_list> l(isl_set_get_basic_set_list(dom.g())); if (isl_basic_set_list_n_basic_set(l.g()) < 1) return; bd = R(c, isl_basic_set_list_get_basic_set(l.g(), 0), "first"); dom = R(c, isl_set_from_basic_set(bd.c()), "first"); }
		md = extract(c, dom.g());
		how += "\ndom = " + S(dom);
	}
	how += std::string(max ? "\nmax" : "\nmin") + (basic ? " basic" : "") + (partial ? " partial" : "") + (pma ? " pw_multi_aff" : "");
	c.log << how << "\n";
	Ref ref(m, no, lo, hi, max);
	isl_set *em = nullptr;
	auto bdom = [&] { return bd.c(); };
	auto grab = [&] { if (partial) { empty = R(c, em, "empty"); me = extract(c, empty.g()); how += "\nempty: " + S(empty);
		want_space(c, "empty part", isl_set_get_space(empty.g()), set_sp(sp, sp.in), how); } };
	if (pma && (!partial || basic)) {
		PMA r;
		const char *op;
		if (partial) { op = "isl_basic_map_partial_lexopt_pw_multi_aff"; r = R(c, max ? isl_basic_map_partial_lexmax_pw_multi_aff(bm.c(), bdom(), &em) : isl_basic_map_partial_lexmin_pw_multi_aff(bm.c(), bdom(), &em), op); }
		else if (basic && !max) { op = "isl_basic_map_lexmin_pw_multi_aff"; r = R(c, isl_basic_map_lexmin_pw_multi_aff(bm.c()), op); }
		else { op = "isl_map_lexopt_pw_multi_aff"; r = R(c, max ? isl_map_lexmax_pw_multi_aff(a.c()) : isl_map_lexmin_pw_multi_aff(a.c()), op); }
		grab();
		how += "\nresult: " + S(r);
		FFun f = fn(c, r.g());
		check_graph(c, op, MMap(), &f, ref, m, sp.np() + sp.ni(), no, exact, lo, hi, max, partial ? &pd : nullptr, partial ? &me : nullptr, how);
		return;
	}
	Map r;
	const char *op;
	if (partial && basic) { op = "isl_basic_map_partial_lexopt"; r = R(c, max ? isl_basic_map_partial_lexmax(bm.c(), bdom(), &em) : isl_basic_map_partial_lexmin(bm.c(), bdom(), &em), op); }
	else if (partial) { op = "isl_map_partial_lexopt"; r = R(c, max ? isl_map_partial_lexmax(a.c(), dom.c(), &em) : isl_map_partial_lexmin(a.c(), dom.c(), &em), op); }
	else if (basic) { op = "isl_basic_map_lexopt"; r = R(c, max ? isl_basic_map_lexmax(bm.c()) : isl_basic_map_lexmin(bm.c()), op); }
	else { op = "isl_map_lexopt"; r = R(c, max ? isl_map_lexmax(a.c()) : isl_map_lexmin(a.c()), op); }
	grab();
	how += "\nresult: " + S(r);
	want_space(c, op, isl_map_get_space(r.g()), sp, how);
	check_graph(c, op, extract(c, r.g()), nullptr, ref, m, sp.np() + sp.ni(), no, exact, lo, hi, max, partial ? &pd : nullptr, partial ? &me : nullptr, how);
}
} // namespace

Prop vp::the_prop = {"C06",
	"Case = a random relation, set, union or pair of functions (0-2 parameters, up to 3 optimised variables, disjunctive, strided, with existentials; optimised variables bounded on both sides or only on the side optimised) and one lexicographic operation "
	"(lexmin/lexmax, partial, basic, pw_multi_aff, union variants). Every (parameter, domain) point of a window is compared with the extremum found by enumerating the image in lexicographic order, and the empty part with its definition. "
	"Non-trivial: the window shows at least two different extrema (or an extremum and an empty image).",
	run, 24000, 1500000};
