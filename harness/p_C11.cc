// C11: an operation on a union does, for every tuple space, what the operation on that space does.
#include <cstring>
#include "fn.h"
#include <isl/aff.h>
using namespace vp;

namespace {
typedef H<isl_union_pw_aff> UPA;
typedef H<isl_union_pw_multi_aff> UPMA;
typedef H<isl_multi_union_pw_aff> MUPA;

std::string key_set(isl_space *s) // takes a set space
{
	if (isl_space_is_params(s) == isl_bool_true) { isl_space_free(s); return "params"; }
	const char *n = isl_space_has_tuple_name(s, isl_dim_set) == isl_bool_true ? isl_space_get_tuple_name(s, isl_dim_set) : "";
	std::string r = std::string(n ? n : "") + "[";
	if (isl_space_is_wrapping(s) == isl_bool_true) {
		isl_space *m = isl_space_unwrap(isl_space_copy(s));
		r += key_set(isl_space_domain(isl_space_copy(m))) + "->" + key_set(isl_space_range(m));
	} else r += std::to_string((int)isl_space_dim(s, isl_dim_set));
	isl_space_free(s);
	return r + "]";
}
std::string key_of(isl_space *s) // takes
{
	if (isl_space_is_map(s) != isl_bool_true) return key_set(s);
	std::string r = key_set(isl_space_domain(isl_space_copy(s)));
	return r + " -> " + key_set(isl_space_range(s));
}
std::string key(const Set &s) { return key_of(isl_set_get_space(s.g())); }
std::string key(const Map &s) { return key_of(isl_map_get_space(s.g())); }
std::string dkey(const Map &s) { return key_set(isl_space_domain(isl_map_get_space(s.g()))); }
std::string rkey(const Map &s) { return key_set(isl_space_range(isl_map_get_space(s.g()))); }

// the model: one object per space
template <class T> struct U { std::map<std::string, H<T>> m; };
typedef U<isl_set> US;
typedef U<isl_map> UM;
void add(Case &c, US &u, Set s) { std::string k = key(s); auto it = u.m.find(k); if (it == u.m.end()) u.m[k] = s; else it->second = R(c, isl_set_union(it->second.r(), s.r()), "union"); }
void add(Case &c, UM &u, Map s) { std::string k = key(s); auto it = u.m.find(k); if (it == u.m.end()) u.m[k] = s; else it->second = R(c, isl_map_union(it->second.r(), s.r()), "union"); }

std::vector<std::string> params_subset(Case &c)
{
	std::vector<std::string> r;
	switch (c.t.weighted({4, 3, 2, 2, 1})) { case 0: break; case 1: r = {"n"}; break; case 2: r = {"n", "m"}; break; case 3: r = {"m", "n"}; break; case 4: r = {"m"}; break; }
	return r;
}
Tup nest(const std::string &n, const Tup &a, const Tup &b) { Tup t; t.name = n; t.sub = {a, b}; return t; }
Tup pick_tup(Case &c, bool nested)
{
	switch (c.t.weighted({6, 4, 4, 3, 2, nested ? 3 : 0, nested ? 2 : 0, nested ? 2 : 0, nested ? 1 : 0})) {
	case 0: return mk_tup("A", 1);
	case 1: return mk_tup("B", 1);
	case 2: return mk_tup("A", 2);
	case 3: return mk_tup("", 1);
	case 4: return mk_tup("C", 0);
	case 5: return nest("", mk_tup("A", 1), mk_tup("B", 1));
	case 6: return nest("", mk_tup("B", 1), mk_tup("A", 1));
	case 7: return nest("P", mk_tup("A", 1), mk_tup("", 1));
	default: return nest("", nest("", mk_tup("A", 1), mk_tup("B", 1)), mk_tup("C", 0));
	}
}
GenOpt opt(Case &c) { GenOpt o; o.max_basic = 2; o.allow_big = false; o.extra = 2; o.only_box = c.t.chance(1, 4); return o; }
Set comp_set(Case &c, bool nested, const Tup *t = nullptr)
{
	Sp sp; sp.params = params_subset(c); sp.out = t ? *t : pick_tup(c, nested);
	return gen_set(c, sp, opt(c), c.t.chance(1, 4));
}
Map comp_map(Case &c, bool nd, bool nr, const Tup *d = nullptr, const Tup *r = nullptr)
{
	Sp sp; sp.params = params_subset(c); sp.is_map = true; sp.in = d ? *d : pick_tup(c, nd); sp.out = r ? *r : pick_tup(c, nr);
	return gen_map(c, sp, opt(c), c.t.chance(1, 4));
}
// Construct the union in a random way
template <class HU, class T, class FROM, class ADD, class UNI, class EMPTY>
HU build(Case &c, U<T> &u, std::vector<H<T>> parts, FROM from, ADD addf, UNI uni, EMPTY empty)
{
	HU r;
	for (size_t i = 0; i < parts.size(); ++i) {
		add(c, u, parts[i]);
		if (!r) r = c.t.chance(1, 2) ? HU(from(parts[i].c())) : HU(addf(empty(), parts[i].c()));
		else switch (c.t.below(3)) {
		case 0: r = HU(addf(r.r(), parts[i].c())); break;
		case 1: r = HU(uni(r.r(), from(parts[i].c()))); break;
		default: r = HU(uni(from(parts[i].c()), r.r())); break;
		}
	}
	if (!r) r = HU(empty());
	if (!r) on_error(c, "construction");
	return r;
}
isl_space *pspace(Case &c) { Sp sp; sp.params = params_subset(c); isl_space *s = isl_space_params_alloc(c.ctx, 0); for (auto &p : sp.params) s = isl_space_add_param_id(s, isl_id_alloc(c.ctx, p.c_str(), nullptr)); return s; }
USet gen_us(Case &c, US &u, int maxn, bool nested)
{
	std::vector<Set> p; int n = c.t.below(maxn + 1); for (int i = 0; i < n; ++i) p.push_back(comp_set(c, nested));
	return build<USet, isl_set>(c, u, p, isl_union_set_from_set, isl_union_set_add_set, isl_union_set_union, [&] { return c.t.chance(1, 2) ? isl_union_set_empty(pspace(c)) : isl_union_set_empty_ctx(c.ctx); });
}
UMap gen_um(Case &c, UM &u, int maxn, bool nd, bool nr)
{
	std::vector<Map> p; int n = c.t.below(maxn + 1); for (int i = 0; i < n; ++i) p.push_back(comp_map(c, nd, nr));
	return build<UMap, isl_map>(c, u, p, isl_union_map_from_map, isl_union_map_add_map, isl_union_map_union, [&] { return c.t.chance(1, 2) ? isl_union_map_empty(pspace(c)) : isl_union_map_empty_ctx(c.ctx); });
}
isl_stat coll_set(isl_set *s, void *u) { ((std::vector<Set> *)u)->push_back(Set(s)); return isl_stat_ok; }
isl_stat coll_map(isl_map *s, void *u) { ((std::vector<Map> *)u)->push_back(Map(s)); return isl_stat_ok; }
bool eq(Case &c, const Set &a, const Set &b) { return B(c, isl_set_is_equal(a.g(), b.g()), "isl_set_is_equal"); }
bool eq(Case &c, const Map &a, const Map &b) { return B(c, isl_map_is_equal(a.g(), b.g()), "isl_map_is_equal"); }
bool empty(Case &c, const Set &a) { return B(c, isl_set_is_empty(a.g()), "isl_set_is_empty"); }
bool empty(Case &c, const Map &a) { return B(c, isl_map_is_empty(a.g()), "isl_map_is_empty"); }
template <class T> std::string SU(const U<T> &u) { std::string r; for (auto &x : u.m) r += "  " + x.first + ": " + S(x.second) + "\n"; return r; }

template <class T> void cmp(Case &c, const std::string &op, const std::vector<H<T>> &got, const U<T> &want, const std::string &how)
{
	std::set<std::string> seen;
	c.label(op);
	for (auto &g : got) {
		std::string k = key(g);
		if (!seen.insert(k).second) c.fail(op, "two components in the space " + k + "\n" + how);
		auto it = want.m.find(k);
		if (it == want.m.end()) { if (!empty(c, g)) c.fail(op, "extra component " + S(g) + "\nexpected\n" + SU(want) + how); continue; }
		if (!eq(c, g, it->second)) c.fail(op, "component " + S(g) + "\nexpected " + S(it->second) + "\n" + how);
	}
	for (auto &w : want.m) if (!seen.count(w.first) && !empty(c, w.second)) c.fail(op, "missing component " + S(w.second) + "\n" + how);
}
std::vector<Set> comps(Case &c, const USet &u) { std::vector<Set> v; if (isl_union_set_foreach_set(u.g(), coll_set, &v) < 0) on_error(c, "foreach"); return v; }
std::vector<Map> comps(Case &c, const UMap &u) { std::vector<Map> v; if (isl_union_map_foreach_map(u.g(), coll_map, &v) < 0) on_error(c, "foreach"); return v; }

struct G {
	Case &c; std::string ctx;
	G(Case &c) : c(c) {}
	void in(const USet &u) { ctx += "operand " + S(u) + "\n"; }
	void in(const UMap &u) { ctx += "operand " + S(u) + "\n"; }
	void in(const Set &u) { ctx += "operand " + S(u) + "\n"; }
	void in(const Map &u) { ctx += "operand " + S(u) + "\n"; }
	void chk(const std::string &op, const USet &got, const US &want) { cmp<isl_set>(c, op, comps(c, got), want, ctx + "result " + S(got)); }
	void chk(const std::string &op, const UMap &got, const UM &want) { cmp<isl_map>(c, op, comps(c, got), want, ctx + "result " + S(got)); }
	void yes(const std::string &op, bool got, bool want) { c.label(op); if (got != want) c.fail(op, std::string("library says ") + (got ? "true" : "false") + ", expected " + (want ? "true" : "false") + "\n" + ctx); }
};
#define UMF(op, ...) R(c, isl_union_map_##op(__VA_ARGS__), "isl_union_map_" #op)
#define USF(op, ...) R(c, isl_union_set_##op(__VA_ARGS__), "isl_union_set_" #op)
#define MF(op, ...) R(c, isl_map_##op(__VA_ARGS__), "isl_map_" #op)
#define SF(op, ...) R(c, isl_set_##op(__VA_ARGS__), "isl_set_" #op)

bool dwrap(const Map &m) { return isl_map_domain_is_wrapping(m.g()) == isl_bool_true; }
bool rwrap(const Map &m) { return isl_map_range_is_wrapping(m.g()) == isl_bool_true; }

// unary operations on union maps
void un_map(G &g)
{
	Case &c = g.c;
	int k = c.t.below(34);
	bool opt_ = k == 17 || k == 18;            // lexicographic optima need bounded images
	UM u; UMap a;
	if (opt_) { UM t; gen_um(c, t, 4, true, true); a = UMap(isl_union_map_empty_ctx(c.ctx)); for (auto &x : t.m) { Map m = R(c, isl_map_intersect_range(x.second.c(), clip(c, R(c, isl_map_range(x.second.c()), "r"), -9, 9).r()), "i"); add(c, u, m); a = UMF(add_map, a.r(), m.c()); } }
	else a = gen_um(c, u, 4, true, true);
	g.in(a);
	UM w; US ws;
	auto all = [&](auto f) { for (auto &x : u.m) { Map r = f(x.second); if (r) add(c, w, r); } };
	auto alls = [&](auto f) { for (auto &x : u.m) { Set r = f(x.second); if (r) add(c, ws, r); } };
#define UNM(op, cond) do { all([&](Map &m) { return (cond) ? MF(op, m.c()) : Map(); }); g.chk("isl_union_map_" #op, UMF(op, a.c()), w); } while (0)
#define UNS(op, cond) do { alls([&](Map &m) { return (cond) ? MF(op, m.c()) : Set(); }); g.chk("isl_union_map_" #op, UMF(op, a.c()), ws); } while (0)
	switch (k) {
	case 0: UNM(reverse, true); break;
	case 1: UNS(domain, true); break;
	case 2: UNS(range, true); break;
	case 3: UNM(domain_map, true); break;
	case 4: UNM(range_map, true); break;
	case 5: UNS(wrap, true); break;
	case 6: UNM(zip, isl_map_can_zip(m.g()) == isl_bool_true); break;
	case 7: UNM(curry, isl_map_can_curry(m.g()) == isl_bool_true); break;
	case 8: UNM(uncurry, isl_map_can_uncurry(m.g()) == isl_bool_true); break;
	case 9: UNM(range_curry, isl_map_can_range_curry(m.g()) == isl_bool_true); break;
	case 10: UNM(range_reverse, rwrap(m)); break;
	case 11: UNM(domain_factor_domain, dwrap(m)); break;
	case 12: UNM(domain_factor_range, dwrap(m)); break;
	case 13: UNM(range_factor_domain, rwrap(m)); break;
	case 14: UNM(range_factor_range, rwrap(m)); break;
	case 15: UNM(factor_domain, rwrap(m) && dwrap(m)); break;
	case 16: UNM(factor_range, rwrap(m) && dwrap(m)); break;
	case 17: UNM(lexmin, true); break;
	case 18: UNM(lexmax, true); break;
	case 19: w = u; g.chk("isl_union_map_coalesce", UMF(coalesce, a.c()), w); break;
	case 20: w = u; g.chk("isl_union_map_compute_divs", UMF(compute_divs, a.c()), w); break;
	case 21: w = u; g.chk("isl_union_map_detect_equalities", UMF(detect_equalities, a.c()), w); break;
	case 22: w = u; g.chk("isl_union_map_remove_redundancies", UMF(remove_redundancies, a.c()), w); break;
	case 23: all([&](Map &m) { return Map(isl_map_from_basic_map(R(c, isl_map_affine_hull(m.c()), "ah").r())); }); g.chk("isl_union_map_affine_hull", UMF(affine_hull, a.c()), w); break;
	case 24: u.m.clear(); for (auto &m : comps(c, a)) u.m[key(m)] = m; // (the simple hull depends on the constraints)
		all([&](Map &m) { return Map(isl_map_from_basic_map(R(c, isl_map_simple_hull(m.c()), "sh").r())); }); g.chk("isl_union_map_simple_hull", UMF(simple_hull, a.c()), w); break;
	case 25: alls([&](Map &m) { return dkey(m) == rkey(m) ? MF(deltas, m.c()) : Set(); }); g.chk("isl_union_map_deltas", UMF(deltas, a.c()), ws); break;
	case 26: all([&](Map &m) { return dkey(m) == rkey(m) ? MF(deltas_map, m.c()) : Map(); }); g.chk("isl_union_map_deltas_map", UMF(deltas_map, a.c()), w); break;
	case 27: all([&](Map &m) { return Map(isl_map_universe(isl_map_get_space(m.g()))); }); { UMap r = UMF(universe, a.c()); for (auto &m : comps(c, r)) if (!B(c, isl_map_plain_is_universe(m.g()), "pu")) c.fail("isl_union_map_universe", g.ctx); g.chk("isl_union_map_universe", r, [&] { UM w2; auto v = comps(c, r); for (auto &x : w.m) { bool have = false; for (auto &y : v) have = have || key(y) == x.first; if (have || !empty(c, u.m[x.first])) w2.m[x.first] = x.second; } return w2; }()); } break;
	case 28: { // parameters
		Set want; for (auto &x : u.m) { Set p = MF(params, x.second.c()); want = want ? R(c, isl_set_union(want.r(), p.r()), "u") : p; }
		Set got = UMF(params, a.c());
		if (want ? !eq(c, got, want) : !empty(c, got)) c.fail("isl_union_map_params", g.ctx + "result " + S(got)); c.label("isl_union_map_params"); break; }
	case 29: all([&](Map &m) { return R(c, isl_map_project_out_all_params(m.c()), "pa"); }); g.chk("isl_union_map_project_out_all_params", UMF(project_out_all_params, a.c()), w); break;
	case 30: { const char *n = c.t.chance(1, 2) ? "n" : "m"; all([&](Map &m) { return R(c, isl_map_project_out_param_id(m.c(), isl_id_alloc(c.ctx, n, nullptr)), "pa"); }); g.ctx += std::string("parameter ") + n + "\n"; g.chk("isl_union_map_project_out_param_id", UMF(project_out_param_id, a.c(), isl_id_alloc(c.ctx, n, nullptr)), w); break; }
	case 31: { // fixed powers
		int e = c.t.range(-2, 3); if (e == 0) break;
		UM p = u; UM base = u;
		auto inv = [&](UM &x) { UM r; for (auto &y : x.m) add(c, r, MF(reverse, y.second.c())); return r; };
		for (int i = 1; i < abs(e); ++i) { UM nx; for (auto &x : p.m) for (auto &y : base.m) if (rkey(x.second) == dkey(y.second)) add(c, nx, MF(apply_range, x.second.c(), y.second.c())); p = nx; }
		if (e < 0) p = inv(p);
		g.ctx += "power " + std::to_string(e) + "\n";
		g.chk("isl_union_map_fixed_power_val", UMF(fixed_power_val, a.c(), isl_val_int_from_si(c.ctx, e)), p); break; }
	case 32: { UPMA p = R(c, isl_union_map_domain_map_union_pw_multi_aff(a.c()), "dmupma"); for (auto &x : u.m) add(c, w, MF(domain_map, x.second.c())); g.chk("isl_union_map_domain_map_union_pw_multi_aff", R(c, isl_union_pw_multi_aff_as_union_map(p.c()), "as_map"), w); break; }
	default: { UMap r = R(c, isl_union_set_unwrap(UMF(wrap, a.c()).r()), "isl_union_set_unwrap"); g.chk("isl_union_set_unwrap", r, u); break; }
	}
}
void un_set(G &g)
{
	Case &c = g.c;
	int k = c.t.below(18);
	US u; USet a;
	if (k == 1 || k == 2) { US t; gen_us(c, t, 4, true); a = USet(isl_union_set_empty_ctx(c.ctx)); for (auto &x : t.m) { Set m = clip(c, x.second, -9, 9); add(c, u, m); a = USF(add_set, a.r(), m.c()); } }
	else a = gen_us(c, u, 4, true);
	g.in(a);
	US w; UM wm;
	auto alls = [&](auto f) { for (auto &x : u.m) { Set r = f(x.second); if (r) add(c, w, r); } };
	auto all = [&](auto f) { for (auto &x : u.m) { Map r = f(x.second); if (r) add(c, wm, r); } };
	switch (k) {
	case 0: all([&](Set &s) { return SF(identity, s.c()); }); g.chk("isl_union_set_identity", USF(identity, a.c()), wm); break;
	case 1: alls([&](Set &s) { return SF(lexmin, s.c()); }); g.chk("isl_union_set_lexmin", USF(lexmin, a.c()), w); break;
	case 2: alls([&](Set &s) { return SF(lexmax, s.c()); }); g.chk("isl_union_set_lexmax", USF(lexmax, a.c()), w); break;
	case 3: g.chk("isl_union_set_coalesce", USF(coalesce, a.c()), u); break;
	case 4: g.chk("isl_union_set_detect_equalities", USF(detect_equalities, a.c()), u); break;
	case 5: g.chk("isl_union_set_compute_divs", USF(compute_divs, a.c()), u); break;
	case 6: alls([&](Set &s) { return Set(isl_set_from_basic_set(R(c, isl_set_affine_hull(s.c()), "ah").r())); }); g.chk("isl_union_set_affine_hull", USF(affine_hull, a.c()), w); break;
	case 7: all([&](Set &s) { return isl_set_is_wrapping(s.g()) == isl_bool_true ? SF(unwrap, s.c()) : Map(); }); g.chk("isl_union_set_unwrap", USF(unwrap, a.c()), wm); break;
	case 8: all([&](Set &s) { return isl_set_is_wrapping(s.g()) == isl_bool_true ? SF(wrapped_domain_map, s.c()) : Map(); }); g.chk("isl_union_set_wrapped_domain_map", USF(wrapped_domain_map, a.c()), wm); break;
	case 9: all([&](Set &s) { return R(c, isl_map_from_domain(s.c()), "fd"); }); g.chk("isl_union_map_from_domain", UMF(from_domain, a.c()), wm); break;
	case 10: all([&](Set &s) { return R(c, isl_map_from_range(s.c()), "fr"); }); g.chk("isl_union_map_from_range", UMF(from_range, a.c()), wm); break;
	case 11: { int k = c.t.below(4); US u2; USet b = gen_us(c, u2, 3, true); g.in(b);
		for (auto &x : u.m) for (auto &y : u2.m) if (x.first == y.first) {
			Map l = R(c, k == 0 ? isl_set_lex_lt_set(x.second.c(), y.second.c()) : k == 1 ? isl_set_lex_le_set(x.second.c(), y.second.c()) : k == 2 ? isl_set_lex_gt_set(x.second.c(), y.second.c()) : isl_set_lex_ge_set(x.second.c(), y.second.c()), "lex"); add(c, wm, l); }
		UMap r = R(c, k == 0 ? isl_union_set_lex_lt_union_set(a.c(), b.c()) : k == 1 ? isl_union_set_lex_le_union_set(a.c(), b.c()) : k == 2 ? isl_union_set_lex_gt_union_set(a.c(), b.c()) : isl_union_set_lex_ge_union_set(a.c(), b.c()), "lex");
		g.chk("isl_union_set_lex_*_union_set", r, wm); break; }
	case 12: { Set want; for (auto &x : u.m) { Set p = SF(params, x.second.c()); want = want ? R(c, isl_set_union(want.r(), p.r()), "u") : p; }
		Set got = USF(params, a.c()); if (want ? !eq(c, got, want) : !empty(c, got)) c.fail("isl_union_set_params", g.ctx + "result " + S(got)); c.label("isl_union_set_params"); break; }
	case 13: { // enumeration of bounded unions
		US b; std::vector<Set> parts; for (auto &x : u.m) { Set s = clip(c, x.second, -1, 1); s = R(c, isl_set_project_out_all_params(s.r()), "po"); parts.push_back(s); add(c, b, s); }
		USet x = USet(isl_union_set_empty_ctx(c.ctx)); for (auto &s : parts) x = USF(add_set, x.r(), s.c());
		std::vector<Set> pts;
		if (isl_union_set_foreach_point(x.g(), [](isl_point *p, void *u) { ((std::vector<Set> *)u)->push_back(Set(isl_set_from_point(p))); return isl_stat_ok; }, &pts) < 0) on_error(c, "foreach_point");
		US got; std::map<std::string, int> cnt; for (auto &p : pts) { cnt[key(p)]++; add(c, got, p); }
		g.ctx = "points of " + S(x) + "\n";
		for (auto &s : b.m) { long n = 0; MMap m = extract(c, s.second.g()); for (auto &p : box_points(m.no, -1, 1)) n += m.has(p); if (n != cnt[s.first]) c.fail("isl_union_set_foreach_point", std::to_string(cnt[s.first]) + " points instead of " + std::to_string(n) + " in " + s.first + "\n" + g.ctx); auto it = got.m.find(s.first); if (n && !eq(c, it->second, s.second)) c.fail("isl_union_set_foreach_point", "wrong points\n" + g.ctx); cnt.erase(s.first); }
		if (cnt.size()) c.fail("isl_union_set_foreach_point", "points in another space\n" + g.ctx);
		c.label("isl_union_set_foreach_point"); break; }
	case 14: { if (u.m.empty()) break; BSet s = USF(sample, a.c()); Set x = R(c, isl_set_from_basic_set(s.c()), "fb"); bool em = true; for (auto &y : u.m) em = em && empty(c, y.second);
		if (em != empty(c, x)) c.fail("isl_union_set_sample", g.ctx + S(s)); if (!em) { auto it = u.m.find(key(x)); if (it == u.m.end() || !B(c, isl_set_is_subset(x.g(), it->second.g()), "ss")) c.fail("isl_union_set_sample", "not a subset\n" + g.ctx + S(s)); } c.label("isl_union_set_sample"); break; }
	case 15: { bool em = true; for (auto &y : u.m) em = em && empty(c, y.second); Point p = USF(sample_point, a.c());
		if (!em) { Set x = R(c, isl_set_from_point(p.c()), "fp"); auto it = u.m.find(key(x)); if (it == u.m.end() || !B(c, isl_set_is_subset(x.g(), it->second.g()), "ss")) c.fail("isl_union_set_sample_point", g.ctx + S(p)); }
		else if (!B(c, isl_point_is_void(p.g()), "void")) c.fail("isl_union_set_sample_point", "point of an empty union\n" + g.ctx); c.label("isl_union_set_sample_point"); break; }
	case 16: { // list of sets
		isl_set_list *l = isl_union_set_get_set_list(a.g()); std::vector<Set> v; int n = isl_set_list_n_set(l); for (int i = 0; i < n; ++i) v.push_back(Set(isl_set_list_get_at(l, i))); isl_set_list_free(l); cmp<isl_set>(c, "isl_union_set_get_set_list", v, u, g.ctx);
		isl_basic_set_list *bl = isl_union_set_get_basic_set_list(a.g()); US got; n = isl_basic_set_list_n_basic_set(bl); for (int i = 0; i < n; ++i) add(c, got, Set(isl_set_from_basic_set(isl_basic_set_list_get_at(bl, i)))); isl_basic_set_list_free(bl); std::vector<Set> v2; for (auto &x : got.m) v2.push_back(x.second); cmp<isl_set>(c, "isl_union_set_get_basic_set_list", v2, u, g.ctx); break; }
	default: { if (u.m.empty()) break; bool pr = true; for (auto &s : u.m) pr = pr && false; Set dummy; (void)pr; (void)dummy;
		USet r = USF(universe, a.c()); for (auto &s : u.m) if (!empty(c, s.second)) { Set x(isl_set_universe(isl_set_get_space(s.second.g()))); add(c, w, x); }
		std::vector<Set> v; for (auto &s : comps(c, r)) if (w.m.count(key(s))) v.push_back(s); else if (!u.m.count(key(s))) c.fail("isl_union_set_universe", "new space " + S(s) + "\n" + g.ctx);
		cmp<isl_set>(c, "isl_union_set_universe", v, w, g.ctx); break; }
	}
}
template <class T> struct O;
// binary operations
void bin_map(G &g)
{
	Case &c = g.c;
	UM u, v, w; int k = c.t.below(22);
	bool nest1 = c.t.chance(1, 3);
	UMap a = gen_um(c, u, 4, nest1, nest1), b = c.t.chance(1, 8) ? (v = u, a) : gen_um(c, v, 3, nest1, nest1); g.in(a); g.in(b);
#define PAIR(cond, expr) do { for (auto &x : u.m) for (auto &y : v.m) { Map &p = x.second, &q = y.second; (void)p; (void)q; if (cond) add(c, w, R(c, expr, "pair")); } } while (0)
	bool same = true; (void)same;
	switch (k) {
	case 0: w = u; for (auto &y : v.m) add(c, w, y.second); g.chk("isl_union_map_union", UMF(union, a.c(), b.c()), w); break;
	case 1: PAIR(x.first == y.first, isl_map_intersect(p.c(), q.c())); g.chk("isl_union_map_intersect", UMF(intersect, a.c(), b.c()), w); break;
	case 2: for (auto &x : u.m) { auto it = v.m.find(x.first); w.m[x.first] = it == v.m.end() ? x.second : MF(subtract, x.second.c(), it->second.c()); } g.chk("isl_union_map_subtract", UMF(subtract, a.c(), b.c()), w); break;
	case 3: PAIR(rkey(p) == dkey(q), isl_map_apply_range(p.c(), q.c())); g.chk("isl_union_map_apply_range", UMF(apply_range, a.c(), b.c()), w); break;
	case 4: PAIR(dkey(p) == dkey(q), isl_map_apply_domain(p.c(), q.c())); g.chk("isl_union_map_apply_domain", UMF(apply_domain, a.c(), b.c()), w); break;
	case 5: PAIR(true, isl_map_product(p.c(), q.c())); g.chk("isl_union_map_product", UMF(product, a.c(), b.c()), w); break;
	case 6: PAIR(rkey(p) == rkey(q), isl_map_domain_product(p.c(), q.c())); g.chk("isl_union_map_domain_product", UMF(domain_product, a.c(), b.c()), w); break;
	case 7: PAIR(rkey(p) == rkey(q), isl_map_flat_domain_product(p.c(), q.c())); g.chk("isl_union_map_flat_domain_product", UMF(flat_domain_product, a.c(), b.c()), w); break;
	case 8: PAIR(dkey(p) == dkey(q), isl_map_range_product(p.c(), q.c())); g.chk("isl_union_map_range_product", UMF(range_product, a.c(), b.c()), w); break;
	case 9: PAIR(dkey(p) == dkey(q), isl_map_flat_range_product(p.c(), q.c())); g.chk("isl_union_map_flat_range_product", UMF(flat_range_product, a.c(), b.c()), w); break;
	case 10: { UMap r = UMF(gist, a.c(), b.c()); PAIR(x.first == y.first, isl_map_intersect(p.c(), q.c())); g.ctx += "gist " + S(r) + "\n"; g.chk("isl_union_map_gist", UMF(intersect, r.c(), b.c()), w); break; }
	case 11: { if (c.t.chance(1, 2) && !u.m.empty()) { // equality with a differently built union
			UMap r; for (auto it = u.m.rbegin(); it != u.m.rend(); ++it) r = r ? UMF(add_map, r.r(), it->second.c()) : UMF(from_map, it->second.c());
			g.yes("isl_union_map_is_equal", B(c, isl_union_map_is_equal(a.g(), r.g()), "eq"), true);
			if (isl_union_map_get_hash(a.g()) == 0) c.label("hash 0"); break; }
		bool e = true; for (auto &x : u.m) { auto it = v.m.find(x.first); e = e && (it == v.m.end() ? empty(c, x.second) : eq(c, x.second, it->second)); } for (auto &y : v.m) if (!u.m.count(y.first)) e = e && empty(c, y.second);
		g.yes("isl_union_map_is_equal", B(c, isl_union_map_is_equal(a.g(), b.g()), "eq"), e); break; }
	case 12: { if (c.t.chance(1, 2)) { a = UMF(intersect, a.c(), b.c()); UM t; PAIR(x.first == y.first, isl_map_intersect(p.c(), q.c())); u = w; (void)t; }
		bool s = true; for (auto &x : u.m) { auto it = v.m.find(x.first); s = s && (it == v.m.end() ? empty(c, x.second) : B(c, isl_map_is_subset(x.second.g(), it->second.g()), "ss")); }
		bool e = s; for (auto &y : v.m) { auto it = u.m.find(y.first); e = e && (it == u.m.end() ? empty(c, y.second) : B(c, isl_map_is_subset(y.second.g(), it->second.g()), "ss")); }
		g.yes("isl_union_map_is_subset", B(c, isl_union_map_is_subset(a.g(), b.g()), "ss"), s); g.yes("isl_union_map_is_strict_subset", B(c, isl_union_map_is_strict_subset(a.g(), b.g()), "ss"), s && !e); break; }
	case 13: { bool d = true; for (auto &x : u.m) { auto it = v.m.find(x.first); if (it != v.m.end()) d = d && B(c, isl_map_is_disjoint(x.second.g(), it->second.g()), "dj"); } g.yes("isl_union_map_is_disjoint", B(c, isl_union_map_is_disjoint(a.g(), b.g()), "dj"), d); break; }
	case 14: { int l = c.t.below(4); PAIR(rkey(p) == rkey(q), l == 0 ? isl_map_lex_lt_map(p.c(), q.c()) : l == 1 ? isl_map_lex_le_map(p.c(), q.c()) : l == 2 ? isl_map_lex_gt_map(p.c(), q.c()) : isl_map_lex_ge_map(p.c(), q.c()));
		g.chk("isl_union_map_lex_*_union_map", R(c, l == 0 ? isl_union_map_lex_lt_union_map(a.c(), b.c()) : l == 1 ? isl_union_map_lex_le_union_map(a.c(), b.c()) : l == 2 ? isl_union_map_lex_gt_union_map(a.c(), b.c()) : isl_union_map_lex_ge_union_map(a.c(), b.c()), "lex"), w); break; }
	case 15: PAIR(dwrap(p) && key_set(isl_space_domain(isl_space_unwrap(isl_space_domain(isl_map_get_space(p.g()))))) == dkey(q) && rkey(p) == rkey(q), isl_map_copy(p.g())); // only to count
		break;
	default: { // factor intersections
		int f = c.t.below(4); UM z; UMap b2;
		auto fk = [&](const Map &m, bool dom, bool first) { isl_space *s = isl_map_get_space(m.g()); s = dom ? isl_space_domain(s) : isl_space_range(s); s = isl_space_unwrap(s); return key_set(first ? isl_space_domain(s) : isl_space_range(s)); };
		bool dom = f < 2, first = f % 2 == 0;
		UM u1; UMap a1 = gen_um(c, u1, 3, true, true); u = u1; g.ctx = ""; g.in(a1); g.in(b);
		for (auto &x : u.m) { Map p = x.second; if (!(dom ? dwrap(p) : rwrap(p))) continue;
			std::string ik = dom ? fk(p, true, first) : dkey(p), ok = dom ? rkey(p) : fk(p, false, first);
			for (auto &y : v.m) if (dkey(y.second) == ik && rkey(y.second) == ok) { Map q = y.second;
				add(c, w, R(c, f == 0 ? isl_map_intersect_domain_factor_domain(p.c(), q.c()) : f == 1 ? isl_map_intersect_domain_factor_range(p.c(), q.c()) : f == 2 ? isl_map_intersect_range_factor_domain(p.c(), q.c()) : isl_map_intersect_range_factor_range(p.c(), q.c()), "factor")); c.label("factor match"); } }
		g.chk("isl_union_map_intersect_*_factor", R(c, f == 0 ? isl_union_map_intersect_domain_factor_domain(a1.c(), b.c()) : f == 1 ? isl_union_map_intersect_domain_factor_range(a1.c(), b.c()) : f == 2 ? isl_union_map_intersect_range_factor_domain(a1.c(), b.c()) : isl_union_map_intersect_range_factor_range(a1.c(), b.c()), "factor"), w); break; }
	}
}
void mixed(G &g)
{
	Case &c = g.c;
	UM u, w; US s, ws;
	bool nest1 = c.t.chance(1, 3);
	UMap a = gen_um(c, u, 4, nest1, nest1); USet b = gen_us(c, s, 3, nest1); g.in(a); g.in(b);
	auto S1 = [&](const std::string &k) -> Set * { auto it = s.m.find(k); return it == s.m.end() ? nullptr : &it->second; };
	switch (c.t.below(16)) {
	case 0: for (auto &x : u.m) if (Set *d = S1(dkey(x.second))) add(c, w, MF(intersect_domain, x.second.c(), d->c())); g.chk("isl_union_map_intersect_domain", c.t.chance(1, 2) ? UMF(intersect_domain, a.c(), b.c()) : UMF(intersect_domain_union_set, a.c(), b.c()), w); break;
	case 1: for (auto &x : u.m) if (Set *d = S1(rkey(x.second))) add(c, w, MF(intersect_range, x.second.c(), d->c())); g.chk("isl_union_map_intersect_range", c.t.chance(1, 2) ? UMF(intersect_range, a.c(), b.c()) : UMF(intersect_range_union_set, a.c(), b.c()), w); break;
	case 2: for (auto &x : u.m) { Set *d = S1(dkey(x.second)); add(c, w, d ? MF(subtract_domain, x.second.c(), d->c()) : x.second); } g.chk("isl_union_map_subtract_domain", UMF(subtract_domain, a.c(), b.c()), w); break;
	case 3: for (auto &x : u.m) { Set *d = S1(rkey(x.second)); add(c, w, d ? MF(subtract_range, x.second.c(), d->c()) : x.second); } g.chk("isl_union_map_subtract_range", UMF(subtract_range, a.c(), b.c()), w); break;
	case 4: for (auto &x : u.m) if (Set *d = S1(dkey(x.second))) add(c, ws, SF(apply, d->c(), x.second.c())); g.chk("isl_union_set_apply", USF(apply, b.c(), a.c()), ws); break;
	case 5: { UMap r = UMF(gist_domain, a.c(), b.c()); for (auto &x : u.m) if (Set *d = S1(dkey(x.second))) add(c, w, MF(intersect_domain, x.second.c(), d->c())); g.ctx += "gist " + S(r) + "\n"; g.chk("isl_union_map_gist_domain", UMF(intersect_domain, r.c(), b.c()), w); break; }
	case 6: { UMap r = UMF(gist_range, a.c(), b.c()); for (auto &x : u.m) if (Set *d = S1(rkey(x.second))) add(c, w, MF(intersect_range, x.second.c(), d->c())); g.ctx += "gist " + S(r) + "\n"; g.chk("isl_union_map_gist_range", UMF(intersect_range, r.c(), b.c()), w); break; }
	case 7: { US s2; USet b2 = gen_us(c, s2, 3, false); g.in(b2); for (auto &x : s.m) for (auto &y : s2.m) add(c, w, R(c, isl_map_from_domain_and_range(x.second.c(), y.second.c()), "fdr")); g.chk("isl_union_map_from_domain_and_range", UMF(from_domain_and_range, b.c(), b2.c()), w); break; }
	case 8: { Sp sp; sp.params = {"n", "m"}; sp.out = mk_tup("", 0); Set p = R(c, isl_set_params(gen_set(c, sp, opt(c), false).r()), "p"); g.ctx += "params " + S(p) + "\n"; for (auto &x : u.m) add(c, w, MF(intersect_params, x.second.c(), p.c()));
		if (c.t.chance(1, 2)) { g.chk("isl_union_map_intersect_params", UMF(intersect_params, a.c(), p.c()), w); break; }
		UMap r = UMF(gist_params, a.c(), p.c()); g.ctx += "gist " + S(r) + "\n"; g.chk("isl_union_map_gist_params", UMF(intersect_params, r.c(), p.c()), w); break; }
	case 9: { if (u.m.empty()) break; auto it = u.m.begin(); std::advance(it, c.t.below(u.m.size())); bool dom = c.t.chance(1, 2); Space sp(dom ? isl_space_domain(isl_map_get_space(it->second.g())) : isl_space_range(isl_map_get_space(it->second.g())));
		std::string k = key_set(sp.c()); for (auto &x : u.m) if ((dom ? dkey(x.second) : rkey(x.second)) == k) w.m[x.first] = x.second; g.ctx += "space " + S(sp.g()) + "\n";
		g.chk("isl_union_map_intersect_*_space", dom ? UMF(intersect_domain_space, a.c(), sp.c()) : UMF(intersect_range_space, a.c(), sp.c()), w); break; }
	case 10: { bool dom = c.t.chance(1, 2); for (auto &x : u.m) { if (!(dom ? dwrap(x.second) : rwrap(x.second))) continue; isl_space *t = isl_map_get_space(x.second.g()); t = isl_space_unwrap(dom ? isl_space_domain(t) : isl_space_range(t)); if (Set *d = S1(key_set(isl_space_domain(t)))) add(c, w, dom ? R(c, isl_map_intersect_domain_wrapped_domain(x.second.c(), d->c()), "idwd") : R(c, isl_map_intersect_range_wrapped_domain(x.second.c(), d->c()), "irwd")); }
		g.chk("isl_union_map_intersect_*_wrapped_domain", dom ? UMF(intersect_domain_wrapped_domain_union_set, a.c(), b.c()) : UMF(intersect_range_wrapped_domain_union_set, a.c(), b.c()), w); break; }
	case 11: { // set operations
		US t; USet d = gen_us(c, t, 3, nest1); g.in(d); int k = c.t.below(8);
		if (k == 0) { ws = s; for (auto &y : t.m) add(c, ws, y.second); g.chk("isl_union_set_union", USF(union, b.c(), d.c()), ws); }
		else if (k == 1) { for (auto &x : s.m) if (t.m.count(x.first)) ws.m[x.first] = SF(intersect, x.second.c(), t.m[x.first].c()); g.chk("isl_union_set_intersect", USF(intersect, b.c(), d.c()), ws); }
		else if (k == 2) { for (auto &x : s.m) ws.m[x.first] = t.m.count(x.first) ? SF(subtract, x.second.c(), t.m[x.first].c()) : x.second; g.chk("isl_union_set_subtract", USF(subtract, b.c(), d.c()), ws); }
		else if (k == 3) { for (auto &x : s.m) for (auto &y : t.m) add(c, ws, SF(product, x.second.c(), y.second.c())); g.chk("isl_union_set_product", USF(product, b.c(), d.c()), ws); }
		else if (k == 4) { for (auto &x : s.m) if (t.m.count(x.first)) ws.m[x.first] = SF(intersect, x.second.c(), t.m[x.first].c()); USet r = USF(gist, b.c(), d.c()); g.ctx += "gist " + S(r) + "\n"; g.chk("isl_union_set_gist", USF(intersect, r.c(), d.c()), ws); }
		else if (k == 5) { bool e = true; for (auto &x : s.m) e = e && (t.m.count(x.first) ? B(c, isl_set_is_subset(x.second.g(), t.m[x.first].g()), "ss") : empty(c, x.second)); g.yes("isl_union_set_is_subset", B(c, isl_union_set_is_subset(b.g(), d.g()), "ss"), e); }
		else if (k == 6) { bool e = true; for (auto &x : s.m) if (t.m.count(x.first)) e = e && B(c, isl_set_is_disjoint(x.second.g(), t.m[x.first].g()), "dj"); g.yes("isl_union_set_is_disjoint", B(c, isl_union_set_is_disjoint(b.g(), d.g()), "dj"), e); }
		else { isl_union_set_list *l = isl_union_set_list_alloc(c.ctx, 3); l = isl_union_set_list_add(l, b.c()); l = isl_union_set_list_add(l, d.c()); ws = s; for (auto &y : t.m) add(c, ws, y.second); g.chk("isl_union_set_list_union", R(c, isl_union_set_list_union(l), "lu"), ws); }
		break; }
	case 12: { // predicates across spaces
		int k = c.t.below(5); bool e = true;
		{ UM t; UMap r(isl_union_map_empty_ctx(c.ctx)); for (auto &x : u.m) { Map m = clip(c, x.second, -9, 9); add(c, t, m); r = UMF(add_map, r.r(), m.c()); } u = t; a = r; g.ctx = ""; g.in(a); }
		if (c.t.chance(1, 2)) { // make most components functions
			UM f; for (auto &x : u.m) f.m[x.first] = MF(lexmin, x.second.c()); if (c.t.chance(1, 2)) for (auto &x : f.m) x.second = MF(reverse, MF(lexmin, MF(reverse, x.second.c()).r()).r());
			UMap r(isl_union_map_empty_ctx(c.ctx)); for (auto &x : f.m) r = UMF(add_map, r.r(), x.second.c()); a = r; u = f; g.ctx = ""; g.in(a); }
		auto sv = [&](bool inj) { bool ok = true; for (auto &x : u.m) { ok = ok && (inj ? B(c, isl_map_is_injective(x.second.g()), "inj") : B(c, isl_map_is_single_valued(x.second.g()), "sv"));
				for (auto &y : u.m) if (x.first < y.first && (inj ? rkey(x.second) == rkey(y.second) : dkey(x.second) == dkey(y.second))) { Set p = inj ? MF(range, x.second.c()) : MF(domain, x.second.c()), q = inj ? MF(range, y.second.c()) : MF(domain, y.second.c()); ok = ok && B(c, isl_set_is_disjoint(p.g(), q.g()), "dj"); } } return ok; };
		if (k == 0) g.yes("isl_union_map_is_single_valued", B(c, isl_union_map_is_single_valued(a.g()), "sv"), sv(false));
		else if (k == 1) { bool i = sv(true); g.yes("isl_union_map_is_injective", B(c, isl_union_map_is_injective(a.g()), "inj"), i); if (!i && B(c, isl_union_map_plain_is_injective(a.g()), "pi")) c.fail("isl_union_map_plain_is_injective", g.ctx); }
		else if (k == 2) g.yes("isl_union_map_is_bijective", B(c, isl_union_map_is_bijective(a.g()), "bij"), sv(false) && sv(true));
		else if (k == 3) { for (auto &x : u.m) e = e && empty(c, x.second); g.yes("isl_union_map_is_empty", B(c, isl_union_map_is_empty(a.g()), "em"), e); if (!e && B(c, isl_union_map_plain_is_empty(a.g()), "pe")) c.fail("isl_union_map_plain_is_empty", g.ctx); }
		else { if (c.t.chance(1, 2)) { a = USF(identity, b.c()); u.m.clear(); for (auto &x : s.m) add(c, u, SF(identity, x.second.c())); g.ctx = ""; g.in(a); }
			for (auto &x : u.m) e = e && (empty(c, x.second) || (dkey(x.second) == rkey(x.second) && B(c, isl_map_is_identity(x.second.g()), "id"))); g.yes("isl_union_map_is_identity", B(c, isl_union_map_is_identity(a.g()), "id"), e); }
		break; }
	case 13: { // lookup of components
		isl_map_list *l = isl_union_map_get_map_list(a.g()); std::vector<Map> v; int n = isl_map_list_n_map(l); for (int i = 0; i < n; ++i) v.push_back(Map(isl_map_list_get_at(l, i))); isl_map_list_free(l);
		cmp<isl_map>(c, "isl_union_map_get_map_list", v, u, g.ctx);
		if (n != N(c, isl_union_map_n_map(a.g()), "n")) c.fail("isl_union_map_n_map", g.ctx);
		for (auto &x : u.m) { Space sp(isl_map_get_space(x.second.g())); Map e = R(c, isl_union_map_extract_map(a.g(), sp.c()), "extract"); if (!eq(c, e, x.second)) c.fail("isl_union_map_extract_map", S(e) + "\n" + g.ctx);
			if (!empty(c, x.second) && !B(c, isl_union_map_contains(a.g(), sp.g()), "contains")) c.fail("isl_union_map_contains", "does not contain " + x.first + "\n" + g.ctx); }
		Map o = comp_map(c, false, false); if (!u.m.count(key(o))) { Space sp(isl_map_get_space(o.g())); Map e = R(c, isl_union_map_extract_map(a.g(), sp.c()), "extract"); if (!empty(c, e)) c.fail("isl_union_map_extract_map", "of an absent space " + S(e) + "\n" + g.ctx); if (B(c, isl_union_map_contains(a.g(), sp.g()), "contains")) c.fail("isl_union_map_contains", "absent space\n" + g.ctx); }
		bool isa = B(c, isl_union_map_isa_map(a.g()), "isa"); if (isa != (n == 1)) c.fail("isl_union_map_isa_map", g.ctx); if (isa) { Map m = UMF(as_map, a.c()); if (!eq(c, m, u.m.at(key(m)))) c.fail("isl_union_map_as_map", g.ctx); } break; }
	case 14: { // every / remove_if
		struct D { std::set<std::string> keys; int calls = 0; } d; for (auto &x : u.m) if (c.t.chance(1, 2)) d.keys.insert(x.first);
		auto f = [](isl_map *m, void *p) { D *d = (D *)p; d->calls++; return d->keys.count(key_of(isl_map_get_space(m))) ? isl_bool_true : isl_bool_false; };
		bool ev = true; for (auto &m : comps(c, a)) ev = ev && d.keys.count(key(m)); g.yes("isl_union_map_every_map", B(c, isl_union_map_every_map(a.g(), f, &d), "every"), ev);
		for (auto &x : u.m) if (!d.keys.count(x.first)) w.m[x.first] = x.second; UMap r = UMF(remove_map_if, a.c(), f, &d); g.chk("isl_union_map_remove_map_if", r, w); break; }
	default: { BMap x = UMF(sample, a.c()); Map y = R(c, isl_map_from_basic_map(x.c()), "fb"); bool em = true; for (auto &z : u.m) em = em && empty(c, z.second); if (u.m.empty()) break;
		if (em != empty(c, y)) c.fail("isl_union_map_sample", g.ctx + S(x)); if (!em) { auto it = u.m.find(key(y)); if (it == u.m.end() || !B(c, isl_map_is_subset(y.g(), it->second.g()), "ss")) c.fail("isl_union_map_sample", g.ctx + S(x)); } c.label("isl_union_map_sample"); break; }
	}
}

#include "p_C11_fn.inc"

void run(Case &c)
{
	G g(c);
	if (c.index == 0) known_gist_overlap(c);
	try {
	switch (c.t.weighted({3, 2, 4, 4, 5, 4, 4})) {
	case 0: un_map(g); break;
	case 1: un_set(g); break;
	case 2: bin_map(g); break;
	case 3: mixed(g); break;
	case 4: upa_ops(g); break;
	case 5: upma_ops(g); break;
	default: mupa_ops(g); break;
	}
	} catch (FailEx &e) { if (e.kind.compare(0, 6, "error:") == 0) e.msg += "\n" + g.ctx; throw; }
	c.nontrivial = c.nontrivial || g.ctx.find(';') != std::string::npos;
	c.log << g.ctx;
}
} // namespace
namespace vp { Prop the_prop = {"C11", "random unions of sets/relations/functions over a pool of tuple spaces and parameter subsets; non-trivial: an operand has at least two components or disjuncts", run, 40000, 600000}; }
