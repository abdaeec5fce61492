// unions of piecewise (multi-dimensional) functions; included by p_C11.cc
typedef std::map<std::string, PwAff> UA;       // by domain space
typedef std::map<std::string, PMA> UPm;        // by space
const char *MASTER[] = {"n", "m"};
isl_space *master(Case &c) { isl_space *s = isl_space_params_alloc(c.ctx, 0); for (auto p : MASTER) s = isl_space_add_param_id(s, isl_id_alloc(c.ctx, p, nullptr)); return s; }
std::string key(const PwAff &p) { return key_set(isl_pw_aff_get_domain_space(p.g())); }
std::string key(const PMA &p) { return key_of(isl_pw_multi_aff_get_space(p.g())); }
std::string SA(const UA &u) { std::string r; for (auto &x : u) r += "  " + x.first + ": " + S(x.second) + "\n"; return r; }
bool same_fn(Case &c, const PwAff &a, const PwAff &b, std::string *where)
{
	PwAff x = R(c, isl_pw_aff_align_params(a.c(), master(c)), "al"), y = R(c, isl_pw_aff_align_params(b.c(), master(c)), "al");
	FFun f = fn(c, x.g()), h = fn(c, y.g());
	for (auto &p : make_window(f.np + f.nin, 150).pts) { auto u = f.eval(p), v = h.eval(p); if (u != v) { *where = "at (params,in) " + str(p) + ": " + str(u) + " instead of " + str(v); return false; } }
	return true;
}
bool pempty(Case &c, const PwAff &a) { Set d = R(c, isl_pw_aff_domain(a.c()), "dom"); return empty(c, d); }
std::vector<PwAff> comps(Case &c, const UPA &u) { std::vector<PwAff> v; if (isl_union_pw_aff_foreach_pw_aff(u.g(), [](isl_pw_aff *p, void *x) { ((std::vector<PwAff> *)x)->push_back(PwAff(p)); return isl_stat_ok; }, &v) < 0) on_error(c, "foreach_pw_aff"); return v; }
std::vector<PMA> comps(Case &c, const UPMA &u) { std::vector<PMA> v; if (isl_union_pw_multi_aff_foreach_pw_multi_aff(u.g(), [](isl_pw_multi_aff *p, void *x) { ((std::vector<PMA> *)x)->push_back(PMA(p)); return isl_stat_ok; }, &v) < 0) on_error(c, "foreach_pw_multi_aff"); return v; }
void chk(G &g, const std::string &op, const UPA &got, const UA &want)
{
	Case &c = g.c; std::set<std::string> seen; c.label(op);
	std::string how = g.ctx + "result " + S(got);
	for (auto &p : comps(c, got)) {
		std::string k = key(p), w;
		if (!seen.insert(k).second) c.fail(op, "two components on " + k + "\n" + how);
		auto it = want.find(k);
		if (it == want.end()) { if (!pempty(c, p)) c.fail(op, "extra component " + S(p) + "\n" + how); continue; }
		if (!same_fn(c, p, it->second, &w)) c.fail(op, w + "\ncomponent " + S(p) + "\nexpected " + S(it->second) + "\n" + how);
	}
	for (auto &w : want) if (!seen.count(w.first) && !pempty(c, w.second)) c.fail(op, "missing component " + S(w.second) + "\n" + how);
	int n = N(c, isl_union_pw_aff_n_pw_aff(got.g()), "n");
	isl_pw_aff_list *l = isl_union_pw_aff_get_pw_aff_list(got.g()); int m = N(c, isl_pw_aff_list_n_pw_aff(l), "n"); isl_pw_aff_list_free(l);
	if (n != (int)seen.size() || m != n) c.fail("isl_union_pw_aff_n_pw_aff", ints({n, m, (long)seen.size()}) + how);
}
Map graph(Case &c, const PMA &p) { return R(c, isl_pw_multi_aff_as_map(p.c()), "isl_pw_multi_aff_as_map"); }
UM graph(Case &c, const UPm &u) { UM r; for (auto &x : u) add(c, r, graph(c, x.second)); return r; }
void chk(G &g, const std::string &op, const UPMA &got, const UM &want)
{
	Case &c = g.c; std::vector<Map> v;
	for (auto &p : comps(c, got)) v.push_back(graph(c, p));
	cmp<isl_map>(c, op, v, want, g.ctx + "result " + S(got));
	if (N(c, isl_union_pw_multi_aff_n_pw_multi_aff(got.g()), "n") != (int)v.size()) c.fail("isl_union_pw_multi_aff_n_pw_multi_aff", g.ctx);
}
PwAff comp_pa(Case &c, bool nested, const Tup *t = nullptr)
{
	Sp sp; sp.params = params_subset(c); sp.out = t ? *t : pick_tup(c, nested);
	PwAff p = gen_pwaff(c, sp, c.t.chance(1, 3));
	return p;
}
PMA comp_pma(Case &c, bool nd, bool nr, const Tup *d = nullptr, const Tup *r = nullptr)
{
	Sp sp; sp.params = params_subset(c); sp.is_map = true; sp.in = d ? *d : pick_tup(c, nd); sp.out = r ? *r : pick_tup(c, nr);
	return gen_pma(c, sp, c.t.chance(1, 3));
}
UPA upa_empty(Case &c) { return c.t.chance(1, 2) ? UPA(isl_union_pw_aff_empty_ctx(c.ctx)) : UPA(isl_union_pw_aff_empty(pspace(c))); }
UPA gen_upa(Case &c, UA &u, int maxn, bool nested)
{
	UPA r = upa_empty(c); int n = c.t.below(maxn + 1);
	for (int i = 0; i < n; ++i) {
		PwAff p = comp_pa(c, nested); auto k = key(p); if (u.count(k)) continue; u[k] = p;
		switch (c.t.below(3)) {
		case 0: r = R(c, isl_union_pw_aff_add_pw_aff(r.r(), p.c()), "add_pw_aff"); break;
		case 1: r = R(c, isl_union_pw_aff_union_add(r.r(), isl_union_pw_aff_from_pw_aff(p.c())), "union_add"); break;
		default: r = R(c, isl_union_pw_aff_union_add(isl_union_pw_aff_from_pw_aff(p.c()), r.r()), "union_add"); break;
		}
	}
	return r;
}
UPMA gen_upma(Case &c, UPm &u, int maxn, bool nd, bool nr, const Tup *ran = nullptr, bool multi = true)
{
	UPMA r(c.t.chance(1, 2) ? isl_union_pw_multi_aff_empty_ctx(c.ctx) : isl_union_pw_multi_aff_empty(pspace(c)));
	int n = c.t.below(maxn + 1);
	for (int i = 0; i < n; ++i) {
		PMA p = comp_pma(c, nd, nr, nullptr, ran); auto k = key(p); if (u.count(k)) continue;
		std::string dk = key_set(isl_pw_multi_aff_get_domain_space(p.g())); bool skip = false;
		for (auto &x : u) if (key_set(isl_pw_multi_aff_get_domain_space(x.second.g())) == dk) { if (!multi) skip = true; p = R(c, isl_pw_multi_aff_subtract_domain(p.c(), isl_pw_multi_aff_domain(x.second.c())), "sd"); }
		if (skip) continue;
		u[k] = p;
		if (c.t.chance(1, 2)) r = R(c, isl_union_pw_multi_aff_add_pw_multi_aff(r.r(), p.c()), "add_pma");
		else r = R(c, isl_union_pw_multi_aff_union_add(isl_union_pw_multi_aff_from_pw_multi_aff(p.c()), r.r()), "union_add");
	}
	return r;
}
void upa_ops(G &g)
{
	Case &c = g.c;
	UA u, w; bool nst = c.t.chance(1, 3);
	UPA a = gen_upa(c, u, 4, nst); g.ctx += "operand " + S(a) + "\n";
	auto each = [&](auto f) { for (auto &x : u) w[x.first] = f(x.second); };
	auto other = [&](UA &v) { UPA b = gen_upa(c, v, 3, nst); g.ctx += "operand " + S(b) + "\n"; return b; };
	auto uset = [&](US &s) { USet b = gen_us(c, s, 3, nst); g.in(b); return b; };
	switch (c.t.below(24)) {
	case 0: { UA v; UPA b = other(v); for (auto &x : u) if (v.count(x.first)) w[x.first] = R(c, isl_pw_aff_add(x.second.c(), v[x.first].c()), "add"); chk(g, "isl_union_pw_aff_add", R(c, isl_union_pw_aff_add(a.c(), b.c()), "add"), w); break; }
	case 1: { UA v; UPA b = other(v); for (auto &x : u) if (v.count(x.first)) w[x.first] = R(c, isl_pw_aff_sub(x.second.c(), v[x.first].c()), "sub"); chk(g, "isl_union_pw_aff_sub", R(c, isl_union_pw_aff_sub(a.c(), b.c()), "sub"), w); break; }
	case 2: { UA v; UPA b = other(v); w = u; for (auto &x : v) w[x.first] = u.count(x.first) ? R(c, isl_pw_aff_union_add(x.second.c(), u[x.first].c()), "ua") : x.second; chk(g, "isl_union_pw_aff_union_add", R(c, isl_union_pw_aff_union_add(a.c(), b.c()), "ua"), w); break; }
	case 3: each([&](PwAff &p) { return R(c, isl_pw_aff_neg(p.c()), "neg"); }); chk(g, "isl_union_pw_aff_neg", R(c, isl_union_pw_aff_neg(a.c()), "neg"), w); break;
	case 4: { int n = c.t.range(-3, 3), d = c.t.range(1, 3); mpq_class q(n, d); q.canonicalize(); g.ctx += "scale " + q.get_str() + "\n"; each([&](PwAff &p) { return R(c, isl_pw_aff_scale_val(p.c(), mkrat(c.ctx, q)), "s"); }); chk(g, "isl_union_pw_aff_scale_val", R(c, isl_union_pw_aff_scale_val(a.c(), mkrat(c.ctx, q)), "s"), w); break; }
	case 5: { int d = c.t.range(1, 4); g.ctx += "scale down " + std::to_string(d) + "\n"; each([&](PwAff &p) { PwAff x = R(c, isl_pw_aff_scale_down_val(p.c(), isl_val_int_from_si(c.ctx, d)), "s"); return x; }); UPA r = R(c, isl_union_pw_aff_scale_down_val(a.c(), isl_val_int_from_si(c.ctx, d)), "s"); if (c.t.chance(1, 2)) { for (auto &x : w) x.second = R(c, isl_pw_aff_floor(x.second.c()), "f"); chk(g, "isl_union_pw_aff_floor", R(c, isl_union_pw_aff_floor(r.c()), "floor"), w); } else chk(g, "isl_union_pw_aff_scale_down_val", r, w); break; }
	case 6: { int d = c.t.range(1, 5); g.ctx += "mod " + std::to_string(d) + "\n"; each([&](PwAff &p) { return R(c, isl_pw_aff_mod_val(p.c(), isl_val_int_from_si(c.ctx, d)), "m"); }); chk(g, "isl_union_pw_aff_mod_val", R(c, isl_union_pw_aff_mod_val(a.c(), isl_val_int_from_si(c.ctx, d)), "m"), w); break; }
	case 7: { US s; USet b = uset(s); for (auto &x : u) if (s.m.count(x.first)) w[x.first] = R(c, isl_pw_aff_intersect_domain(x.second.c(), s.m[x.first].c()), "id"); chk(g, "isl_union_pw_aff_intersect_domain", R(c, c.t.chance(1, 2) ? isl_union_pw_aff_intersect_domain(a.c(), b.c()) : isl_union_pw_aff_intersect_domain_union_set(a.c(), b.c()), "id"), w); break; }
	case 8: { US s; USet b = uset(s); for (auto &x : u) w[x.first] = s.m.count(x.first) ? R(c, isl_pw_aff_subtract_domain(x.second.c(), s.m[x.first].c()), "id") : x.second; chk(g, "isl_union_pw_aff_subtract_domain", R(c, c.t.chance(1, 2) ? isl_union_pw_aff_subtract_domain(a.c(), b.c()) : isl_union_pw_aff_subtract_domain_union_set(a.c(), b.c()), "sd"), w); break; }
	case 9: { if (u.empty()) break; auto it = u.begin(); std::advance(it, c.t.below(u.size())); Space sp(isl_pw_aff_get_domain_space(it->second.g())); std::string k = key_set(sp.c()); g.ctx += "space " + S(sp.g()) + "\n";
		if (c.t.chance(1, 2)) { w[k] = u[k]; chk(g, "isl_union_pw_aff_intersect_domain_space", R(c, isl_union_pw_aff_intersect_domain_space(a.c(), sp.c()), "ids"), w); } else { w = u; w.erase(k); chk(g, "isl_union_pw_aff_subtract_domain_space", R(c, isl_union_pw_aff_subtract_domain_space(a.c(), sp.c()), "sds"), w); } break; }
	case 10: { US s; USet b = uset(s); UPA r = R(c, isl_union_pw_aff_gist(a.c(), b.c()), "gist"); g.ctx += "gist " + S(r) + "\n"; for (auto &x : u) if (s.m.count(x.first)) w[x.first] = R(c, isl_pw_aff_intersect_domain(x.second.c(), s.m[x.first].c()), "id"); chk(g, "isl_union_pw_aff_gist", R(c, isl_union_pw_aff_intersect_domain(r.c(), b.c()), "id"), w); break; }
	case 11: { US ws; for (auto &x : u) add(c, ws, R(c, isl_pw_aff_domain(x.second.c()), "d")); g.chk("isl_union_pw_aff_domain", R(c, isl_union_pw_aff_domain(a.c()), "d"), ws); break; }
	case 12: { US ws; for (auto &x : u) add(c, ws, R(c, isl_pw_aff_zero_set(x.second.c()), "z")); g.chk("isl_union_pw_aff_zero_union_set", R(c, isl_union_pw_aff_zero_union_set(a.c()), "z"), ws); break; }
	case 13: { UM wm; for (auto &x : u) add(c, wm, R(c, isl_map_from_pw_aff(x.second.c()), "m")); g.chk("isl_union_map_from_union_pw_aff", R(c, isl_union_map_from_union_pw_aff(a.c()), "m"), wm); break; }
	case 14: { UPm f; UPMA m = gen_upma(c, f, 3, false, nst, nullptr, false); g.ctx += "function " + S(m) + "\n"; UA z; for (auto &x : f) { std::string rk = key_set(isl_space_range(isl_pw_multi_aff_get_space(x.second.g()))), dk = key_set(isl_pw_multi_aff_get_domain_space(x.second.g())); auto it = u.find(rk); if (it == u.end()) continue; PwAff p = R(c, isl_pw_aff_pullback_pw_multi_aff(it->second.c(), x.second.c()), "pb"); z[dk] = z.count(dk) ? R(c, isl_pw_aff_union_add(z[dk].c(), p.c()), "ua") : p; }
		chk(g, "isl_union_pw_aff_pullback_union_pw_multi_aff", R(c, isl_union_pw_aff_pullback_union_pw_multi_aff(a.c(), m.c()), "pb"), z); break; }
	case 15: { US s; USet b = uset(s); int v = c.t.range(-3, 3); g.ctx += "value " + std::to_string(v) + "\n"; for (auto &x : s.m) w[x.first] = R(c, isl_pw_aff_val_on_domain(x.second.c(), isl_val_int_from_si(c.ctx, v)), "v"); chk(g, "isl_union_pw_aff_val_on_domain", R(c, isl_union_pw_aff_val_on_domain(b.c(), isl_val_int_from_si(c.ctx, v)), "v"), w); break; }
	case 16: { US s; USet b = uset(s); for (auto &x : s.m) w[x.first] = R(c, isl_pw_aff_param_on_domain_id(x.second.c(), isl_id_alloc(c.ctx, "m", nullptr)), "v"); chk(g, "isl_union_pw_aff_param_on_domain_id", R(c, isl_union_pw_aff_param_on_domain_id(b.c(), isl_id_alloc(c.ctx, "m", nullptr)), "v"), w); break; }
	case 17: { Sp ps; ps.params = {"n", "m"}; ps.out = mk_tup("", 0); Set p = R(c, isl_set_params(gen_set(c, ps, opt(c), false).r()), "p"); g.ctx += "params " + S(p) + "\n"; each([&](PwAff &x) { return R(c, isl_pw_aff_intersect_params(x.c(), p.c()), "ip"); });
		if (c.t.chance(1, 2)) chk(g, "isl_union_pw_aff_intersect_params", R(c, isl_union_pw_aff_intersect_params(a.c(), p.c()), "ip"), w); else { UPA r = R(c, isl_union_pw_aff_gist_params(a.c(), p.c()), "gp"); g.ctx += "gist " + S(r) + "\n"; chk(g, "isl_union_pw_aff_gist_params", R(c, isl_union_pw_aff_intersect_params(r.c(), p.c()), "ip"), w); } break; }
	case 18: chk(g, "isl_union_pw_aff_coalesce", R(c, isl_union_pw_aff_coalesce(a.c()), "co"), u); break;
	case 19: { US ws; for (auto &x : u) { PwAff p = x.second; Set s = R(c, isl_pw_aff_bind_id(p.c(), isl_id_alloc(c.ctx, "v", nullptr)), "b"); add(c, ws, s); } g.chk("isl_union_pw_aff_bind_id", R(c, isl_union_pw_aff_bind_id(a.c(), isl_id_alloc(c.ctx, "v", nullptr)), "b"), ws); break; }
	case 20: { // extraction and list
		for (auto &x : u) { Space sp(isl_pw_aff_get_space(x.second.g())); PwAff p = R(c, isl_union_pw_aff_extract_pw_aff(a.g(), sp.c()), "ex"); std::string wh; if (!same_fn(c, p, x.second, &wh)) c.fail("isl_union_pw_aff_extract_pw_aff", wh + "\n" + S(p) + "\n" + g.ctx); } c.label("isl_union_pw_aff_extract_pw_aff"); chk(g, "identity", a, u); break; }
	case 21: { // intersect wrapped
		US s; USet b = uset(s); bool d = c.t.chance(1, 2); for (auto &x : u) { isl_space *sp = isl_pw_aff_get_domain_space(x.second.g()); if (isl_space_is_wrapping(sp) != isl_bool_true) { isl_space_free(sp); continue; } sp = isl_space_unwrap(sp); auto it = s.m.find(key_set(d ? isl_space_domain(sp) : isl_space_range(sp))); if (it == s.m.end()) continue; w[x.first] = R(c, d ? isl_pw_aff_intersect_domain_wrapped_domain(x.second.c(), it->second.c()) : isl_pw_aff_intersect_domain_wrapped_range(x.second.c(), it->second.c()), "iw"); }
		chk(g, "isl_union_pw_aff_intersect_domain_wrapped_*", R(c, d ? isl_union_pw_aff_intersect_domain_wrapped_domain(a.c(), b.c()) : isl_union_pw_aff_intersect_domain_wrapped_range(a.c(), b.c()), "iw"), w); break; }
	case 22: { // affine/piecewise function of the parameters on a domain
		US s; USet b = uset(s); Sp ps; ps.params = {"n"}; ps.out = mk_tup("", 0); PwAff q = gen_pwaff(c, ps, true); isl_pw_aff *pp = isl_pw_aff_project_domain_on_params(q.c()); PwAff p = R(c, pp, "pp"); g.ctx += "param function " + S(p) + "\n";
		for (auto &x : s.m) { PwAff t = R(c, isl_pw_aff_from_range(p.c()), "fr"); (void)t; isl_space *sp = isl_set_get_space(x.second.g()); PwAff e = R(c, isl_pw_aff_insert_domain(p.c(), sp), "insd"); w[x.first] = R(c, isl_pw_aff_intersect_domain(e.r(), x.second.c()), "id"); }
		chk(g, "isl_union_pw_aff_pw_aff_on_domain", R(c, isl_union_pw_aff_pw_aff_on_domain(b.c(), p.c()), "on"), w); break; }
	default: { UPA r = a; bool e = B(c, isl_union_pw_aff_plain_is_equal(a.g(), r.g()), "pe"); UA v; UPA b = other(v); bool e2 = B(c, isl_union_pw_aff_plain_is_equal(a.g(), b.g()), "pe"); if (!e) c.fail("isl_union_pw_aff_plain_is_equal", "not equal to itself\n" + g.ctx); if (e2) chk(g, "isl_union_pw_aff_plain_is_equal", a, v);
		int cnt_ = 0; isl_bool ev = isl_union_pw_aff_every_pw_aff(a.g(), [](isl_pw_aff *, void *n) { ++*(int *)n; return isl_bool_true; }, &cnt_); if (ev != isl_bool_true) c.fail("isl_union_pw_aff_every_pw_aff", g.ctx); break; }
	}
}
std::string ran_key(const PMA &p) { return key_set(isl_space_range(isl_pw_multi_aff_get_space(p.g()))); }
std::string dom_key(const PMA &p) { return key_set(isl_pw_multi_aff_get_domain_space(p.g())); }
// Known finding "upma-gist-overlap": the gist of a function with several range
// spaces on one domain space fails when the simplified cells overlap outside
// the context.  True (and the error cleared) if this is what happened.
bool gist_overlap(Case &c, const UPMA &a)
{
	bool two = false; std::set<std::string> seen;
	for (auto &p : comps(c, a)) two = two || !seen.insert(dom_key(p)).second;
	const char *m = isl_ctx_last_error_msg(c.ctx);
	if (!two || !m || !strstr(m, "overlapping domain with other part")) return false;
	c.label("known:upma-gist-overlap"); clear_error(c); return true;
}
void known_gist_overlap(Case &c)
{
	UPMA a = R(c, isl_union_pw_multi_aff_read_from_str(c.ctx, "{ A[x, y] -> B[x] : x >= 0 and y < 0; A[x, y] -> C[y] : x >= 0 and y >= x }"), "read");
	USet b = R(c, isl_union_set_read_from_str(c.ctx, "{ A[x, y] : x >= 0 }"), "read");
	isl_union_pw_multi_aff *r = isl_union_pw_multi_aff_gist(a.c(), b.c());
	if (!r && !gist_overlap(c, a)) on_error(c, "isl_union_pw_multi_aff_gist");
	if (!r) return;
	UPMA h(r); UPMA i = R(c, isl_union_pw_multi_aff_intersect_domain(h.c(), b.c()), "id"); Map x, y; UMap mx = R(c, isl_union_map_from_union_pw_multi_aff(i.c()), "m"), my = R(c, isl_union_map_from_union_pw_multi_aff(a.c()), "m");
	if (!B(c, isl_union_map_is_equal(mx.g(), my.g()), "eq")) c.fail("isl_union_pw_multi_aff_gist", S(h));
}
void upma_ops(G &g)
{
	Case &c = g.c;
	UPm u, v; UM w; bool nst = c.t.chance(1, 3);
	UPMA a = gen_upma(c, u, 4, nst, nst); g.ctx += "operand " + S(a) + "\n";
	auto other = [&](bool share = false) { (void)share; UPMA b = gen_upma(c, v, 3, nst, nst); g.ctx += "operand " + S(b) + "\n"; return b; };
	auto each = [&](auto f) { for (auto &x : u) { PMA r = f(x.second); if (r) add(c, w, graph(c, r)); } };
	auto pairs = [&](auto cond, auto f) { for (auto &x : u) for (auto &y : v) if (cond(x.second, y.second)) { PMA r = R(c, f(x.second.c(), y.second.c()), "pair"); add(c, w, graph(c, r)); c.label("upma pair"); } };
	auto eqk = [](const PMA &x, const PMA &y) { return key(x) == key(y); };
	auto eqd = [](const PMA &x, const PMA &y) { return dom_key(x) == dom_key(y); };
	switch (c.t.below(26)) {
	case 0: { UPMA b = other(); pairs(eqk, isl_pw_multi_aff_add); chk(g, "isl_union_pw_multi_aff_add", R(c, isl_union_pw_multi_aff_add(a.c(), b.c()), "add"), w); break; }
	case 1: { UPMA b = other(); pairs(eqk, isl_pw_multi_aff_sub); chk(g, "isl_union_pw_multi_aff_sub", R(c, isl_union_pw_multi_aff_sub(a.c(), b.c()), "sub"), w); break; }
	case 2: { // union_add of functions with a single range space per domain
		UPm u1; UPMA a1 = gen_upma(c, u1, 3, nst, nst, nullptr, false), b = gen_upma(c, v, 3, nst, nst, nullptr, false); UPm z = u1;
		for (auto &x : v) for (auto &y : u1) if (dom_key(x.second) == dom_key(y.second) && ran_key(x.second) != ran_key(y.second)) return;
		g.ctx = "operand " + S(a1) + "\noperand " + S(b) + "\n";
		for (auto &x : v) z[x.first] = z.count(x.first) ? R(c, isl_pw_multi_aff_union_add(z[x.first].c(), x.second.c()), "ua") : x.second; chk(g, "isl_union_pw_multi_aff_union_add", R(c, isl_union_pw_multi_aff_union_add(a1.c(), b.c()), "ua"), graph(c, z)); break; }
	case 3: each([&](PMA &p) { return R(c, isl_pw_multi_aff_neg(p.c()), "neg"); }); chk(g, "isl_union_pw_multi_aff_neg", R(c, isl_union_pw_multi_aff_neg(a.c()), "neg"), w); break;
	case 4: { int q = c.t.range(-3, 3); each([&](PMA &p) { return R(c, isl_pw_multi_aff_scale_val(p.c(), isl_val_int_from_si(c.ctx, q)), "s"); }); chk(g, "isl_union_pw_multi_aff_scale_val", R(c, isl_union_pw_multi_aff_scale_val(a.c(), isl_val_int_from_si(c.ctx, q)), "s"), w); break; }
	case 5: { UPMA b = other(); pairs(eqd, isl_pw_multi_aff_flat_range_product); chk(g, "isl_union_pw_multi_aff_flat_range_product", R(c, isl_union_pw_multi_aff_flat_range_product(a.c(), b.c()), "frp"), w); break; }
	case 6: { UPMA b = other(); pairs(eqd, isl_pw_multi_aff_range_product); chk(g, "isl_union_pw_multi_aff_range_product", R(c, isl_union_pw_multi_aff_range_product(a.c(), b.c()), "rp"), w); break; }
	case 7: case 8: { UPMA b = other(); pairs([](const PMA &x, const PMA &y) { return dom_key(x) == ran_key(y); }, isl_pw_multi_aff_pullback_pw_multi_aff); chk(g, "isl_union_pw_multi_aff_pullback_union_pw_multi_aff", R(c, isl_union_pw_multi_aff_pullback_union_pw_multi_aff(a.c(), b.c()), "pb"), w); break; }
	case 9: { UPMA b = other(); pairs([](const PMA &x, const PMA &y) { return ran_key(x) == dom_key(y); }, [](isl_pw_multi_aff *x, isl_pw_multi_aff *y) { return isl_pw_multi_aff_pullback_pw_multi_aff(y, x); }); chk(g, "isl_union_pw_multi_aff_apply_union_pw_multi_aff", R(c, isl_union_pw_multi_aff_apply_union_pw_multi_aff(a.c(), b.c()), "ap"), w); break; }
	case 10: { US s; USet b = gen_us(c, s, 3, nst); g.in(b); for (auto &x : u) { auto it = s.m.find(dom_key(x.second)); if (it != s.m.end()) add(c, w, graph(c, R(c, isl_pw_multi_aff_intersect_domain(x.second.c(), it->second.c()), "id"))); } chk(g, "isl_union_pw_multi_aff_intersect_domain", R(c, isl_union_pw_multi_aff_intersect_domain(a.c(), b.c()), "id"), w); break; }
	case 11: { US s; USet b = gen_us(c, s, 3, nst); g.in(b); for (auto &x : u) { auto it = s.m.find(dom_key(x.second)); add(c, w, graph(c, it == s.m.end() ? x.second : R(c, isl_pw_multi_aff_subtract_domain(x.second.c(), it->second.c()), "sd"))); } chk(g, "isl_union_pw_multi_aff_subtract_domain", R(c, isl_union_pw_multi_aff_subtract_domain(a.c(), b.c()), "sd"), w); break; }
	case 12: { US s; USet b = gen_us(c, s, 3, nst); g.in(b); isl_union_pw_multi_aff *raw = isl_union_pw_multi_aff_gist(a.c(), b.c());
		if (!raw && gist_overlap(c, a)) break;
		UPMA r = R(c, raw, "gist"); g.ctx += "gist " + S(r) + "\n"; for (auto &x : u) { auto it = s.m.find(dom_key(x.second)); if (it != s.m.end()) add(c, w, graph(c, R(c, isl_pw_multi_aff_intersect_domain(x.second.c(), it->second.c()), "id"))); } chk(g, "isl_union_pw_multi_aff_gist", R(c, isl_union_pw_multi_aff_intersect_domain(r.c(), b.c()), "id"), w); break; }
	case 13: g.chk("isl_union_pw_multi_aff_as_union_map", R(c, isl_union_pw_multi_aff_as_union_map(a.c()), "as"), graph(c, u)); break;
	case 14: { UMap m = R(c, isl_union_pw_multi_aff_as_union_map(a.c()), "as"); chk(g, "isl_union_pw_multi_aff_from_union_map", R(c, isl_union_pw_multi_aff_from_union_map(m.c()), "fum"), graph(c, u)); break; }
	case 15: { US ws; for (auto &x : u) add(c, ws, R(c, isl_pw_multi_aff_domain(x.second.c()), "d")); g.chk("isl_union_pw_multi_aff_domain", R(c, isl_union_pw_multi_aff_domain(a.c()), "d"), ws); break; }
	case 16: case 17: { // preimages of sets and relations
		US s, ws; UMap mm; UM um; int k = c.t.below(3);
		if (k == 0) { USet b = gen_us(c, s, 3, nst); g.in(b); for (auto &x : u) { auto it = s.m.find(ran_key(x.second)); if (it != s.m.end()) add(c, ws, R(c, isl_set_preimage_pw_multi_aff(it->second.c(), x.second.c()), "pre")); } g.chk("isl_union_set_preimage_union_pw_multi_aff", R(c, isl_union_set_preimage_union_pw_multi_aff(b.c(), a.c()), "pre"), ws); break; }
		mm = gen_um(c, um, 3, nst, nst); g.in(mm);
		for (auto &x : u) for (auto &y : um.m) { if (k == 1 && dkey(y.second) == ran_key(x.second)) add(c, w, R(c, isl_map_preimage_domain_pw_multi_aff(y.second.c(), x.second.c()), "pre")); if (k == 2 && rkey(y.second) == ran_key(x.second)) add(c, w, R(c, isl_map_preimage_range_pw_multi_aff(y.second.c(), x.second.c()), "pre")); }
		g.chk(k == 1 ? "isl_union_map_preimage_domain_union_pw_multi_aff" : "isl_union_map_preimage_range_union_pw_multi_aff", R(c, k == 1 ? isl_union_map_preimage_domain_union_pw_multi_aff(mm.c(), a.c()) : isl_union_map_preimage_range_union_pw_multi_aff(mm.c(), a.c()), "pre"), w); break; }
	case 18: { bool d = c.t.chance(1, 2); for (auto &x : u) { isl_space *sp = isl_space_range(isl_pw_multi_aff_get_space(x.second.g())); bool wr = isl_space_is_wrapping(sp) == isl_bool_true; isl_space_free(sp); if (!wr) continue; add(c, w, graph(c, R(c, d ? isl_pw_multi_aff_range_factor_domain(x.second.c()) : isl_pw_multi_aff_range_factor_range(x.second.c()), "rf"))); }
		chk(g, "isl_union_pw_multi_aff_range_factor_*", R(c, d ? isl_union_pw_multi_aff_range_factor_domain(a.c()) : isl_union_pw_multi_aff_range_factor_range(a.c()), "rf"), w); break; }
	case 19: { for (auto &x : u) { PMA p = R(c, isl_union_pw_multi_aff_extract_pw_multi_aff(a.g(), isl_pw_multi_aff_get_space(x.second.g())), "ex"); if (!eq(c, graph(c, p), graph(c, x.second))) c.fail("isl_union_pw_multi_aff_extract_pw_multi_aff", S(p) + "\n" + g.ctx); }
		bool isa = B(c, isl_union_pw_multi_aff_isa_pw_multi_aff(a.g()), "isa"); if (isa != (comps(c, a).size() == 1)) c.fail("isl_union_pw_multi_aff_isa_pw_multi_aff", g.ctx); if (isa) { PMA p = R(c, isl_union_pw_multi_aff_as_pw_multi_aff(a.c()), "as"); if (!eq(c, graph(c, p), graph(c, u.at(key(p))))) c.fail("isl_union_pw_multi_aff_as_pw_multi_aff", g.ctx); } c.label("isl_union_pw_multi_aff_extract_pw_multi_aff"); break; }
	case 20: { // functions from union sets
		US s; USet b = gen_us(c, s, 3, nst); g.in(b); for (auto &x : s.m) add(c, w, R(c, isl_map_from_domain(x.second.c()), "fd")); chk(g, "isl_union_pw_multi_aff_from_domain", R(c, isl_union_pw_multi_aff_from_domain(b.c()), "fd"), w); break; }
	case 21: { // i-th output
		u.clear(); a = gen_upma(c, u, 4, nst, nst, nullptr, false); g.ctx = "operand " + S(a) + "\n"; int pos = 0; UA wa; for (auto &x : u) { int n = isl_pw_multi_aff_dim(x.second.g(), isl_dim_out); if (n <= pos) return; auto dk = dom_key(x.second); PwAff p = R(c, isl_pw_multi_aff_get_pw_aff(x.second.g(), pos), "gpa"); wa[dk] = wa.count(dk) ? R(c, isl_pw_aff_union_add(wa[dk].c(), p.c()), "ua") : p; } chk(g, "isl_union_pw_multi_aff_get_union_pw_aff", R(c, isl_union_pw_multi_aff_get_union_pw_aff(a.g(), pos), "gupa"), wa); break; }
	case 22: chk(g, "isl_union_pw_multi_aff_coalesce", R(c, isl_union_pw_multi_aff_coalesce(a.c()), "co"), graph(c, u)); break;
	case 23: { US s; USet b = gen_us(c, s, 3, nst); g.in(b); isl_multi_val *mv = isl_multi_val_zero(isl_space_set_tuple_name(isl_space_add_dims(isl_space_set_alloc(c.ctx, 0, 0), isl_dim_set, 2), isl_dim_set, "V")); int q0 = c.t.range(-3, 3), q1 = c.t.range(-3, 3); mv = isl_multi_val_set_at(isl_multi_val_set_at(mv, 0, isl_val_int_from_si(c.ctx, q0)), 1, isl_val_int_from_si(c.ctx, q1)); g.ctx += ints({q0, q1});
		for (auto &x : s.m) add(c, w, graph(c, R(c, isl_pw_multi_aff_multi_val_on_domain(x.second.c(), isl_multi_val_copy(mv)), "mv"))); chk(g, "isl_union_pw_multi_aff_multi_val_on_domain", R(c, isl_union_pw_multi_aff_multi_val_on_domain(b.c(), mv), "mv"), w); break; }
	case 24: { Sp ps; ps.params = {"n", "m"}; ps.out = mk_tup("", 0); Set p = R(c, isl_set_params(gen_set(c, ps, opt(c), false).r()), "p"); g.ctx += "params " + S(p) + "\n"; each([&](PMA &x) { return R(c, isl_pw_multi_aff_intersect_params(x.c(), p.c()), "ip"); }); chk(g, "isl_union_pw_multi_aff_intersect_params", R(c, isl_union_pw_multi_aff_intersect_params(a.c(), p.c()), "ip"), w); break; }
	default: { if (!B(c, isl_union_pw_multi_aff_plain_is_equal(a.g(), a.g()), "pe")) c.fail("isl_union_pw_multi_aff_plain_is_equal", g.ctx); UPMA b = other(); if (B(c, isl_union_pw_multi_aff_plain_is_equal(a.g(), b.g()), "pe")) chk(g, "isl_union_pw_multi_aff_plain_is_equal", a, graph(c, v)); bool em = true; for (auto &x : u) em = em && empty(c, graph(c, x.second)); if (!em && B(c, isl_union_pw_multi_aff_plain_is_empty(a.g()), "pe")) c.fail("isl_union_pw_multi_aff_plain_is_empty", g.ctx); break; }
	}
}
// multi-dimensional union functions: one union function per output
struct MU { Tup ran; std::vector<UA> e; US dom; };   // dom: explicit domain if no outputs
isl_space *ran_space(Case &c, const Tup &t) { Sp sp; sp.out = t; isl_space *s = mk_space(c, sp); return s; }
Map one(Case &c, const std::vector<PwAff> &v, const Tup &ran)
{
	Map m; for (auto &p : v) { Map x = R(c, isl_map_from_pw_aff(p.c()), "m"); m = m ? R(c, isl_map_flat_range_product(m.r(), x.r()), "frp") : x; }
	if (!ran.name.empty()) m = R(c, isl_map_set_tuple_name(m.r(), isl_dim_out, ran.name.c_str()), "name");
	return m;
}
UM graph(Case &c, const MU &m)
{
	UM r; int n = m.e.size();
	if (n == 0) { for (auto &s : m.dom.m) { Map x = R(c, isl_map_from_domain(s.second.c()), "fd"); if (!m.ran.name.empty()) x = R(c, isl_map_set_tuple_name(x.r(), isl_dim_out, m.ran.name.c_str()), "name"); add(c, r, x); } return r; }
	for (auto &x : m.e[0]) { std::vector<PwAff> v; for (auto &e : m.e) { auto it = e.find(x.first); if (it != e.end()) v.push_back(it->second); } if ((int)v.size() == n) add(c, r, one(c, v, m.ran)); }
	return r;
}
MUPA gen_mupa(Case &c, MU &m, int maxn, bool nst, const Tup *ran = nullptr)
{
	m.ran = ran ? *ran : mk_tup(c.t.chance(1, 2) ? "S" : "", c.t.weighted({2, 4, 4}));
	if (m.ran.n == 0) {
		MUPA r(isl_multi_union_pw_aff_zero(ran_space(c, m.ran)));
		std::vector<Set> p; int n = 1 + c.t.below(maxn); for (int i = 0; i < n; ++i) p.push_back(comp_set(c, nst));
		USet d = build<USet, isl_set>(c, m.dom, p, isl_union_set_from_set, isl_union_set_add_set, isl_union_set_union, [&] { return isl_union_set_empty_ctx(c.ctx); });
		return R(c, isl_multi_union_pw_aff_intersect_domain(r.r(), d.r()), "id");
	}
	isl_union_pw_aff_list *l = isl_union_pw_aff_list_alloc(c.ctx, m.ran.n);
	std::vector<Tup> ts; int n = 1 + c.t.below(maxn); for (int i = 0; i < n; ++i) ts.push_back(pick_tup(c, nst));
	for (int i = 0; i < m.ran.n; ++i) { UA u; UPA r = upa_empty(c); for (auto &t : ts) { if (c.t.chance(1, 6)) continue; PwAff p = comp_pa(c, nst, &t); auto k = key(p); if (u.count(k)) continue; u[k] = p; r = R(c, isl_union_pw_aff_add_pw_aff(r.r(), p.c()), "add"); } m.e.push_back(u); l = isl_union_pw_aff_list_add(l, r.r()); }
	return R(c, isl_multi_union_pw_aff_from_union_pw_aff_list(ran_space(c, m.ran), l), "isl_multi_union_pw_aff_from_union_pw_aff_list");
}
void chk(G &g, const std::string &op, const MUPA &got, const MU &want)
{
	Case &c = g.c; std::string how = g.ctx + "result " + S(got);
	int n = N(c, isl_multi_union_pw_aff_size(got.g()), "size");
	if (n != (int)want.e.size()) c.fail(op, "wrong number of elements\n" + how);
	std::string k = key_set(isl_space_range(isl_multi_union_pw_aff_get_space(got.g())));
	(void)k;
	for (int i = 0; i < n; ++i) chk(g, op, R(c, isl_multi_union_pw_aff_get_at(got.g(), i), "get_at"), want.e[i]);
	if (n == 0) { USet d = R(c, isl_multi_union_pw_aff_domain(got.c()), "d"); if (isl_union_set_is_params(d.g()) == isl_bool_true && want.dom.m.count("params") == 0) { bool em = true; for (auto &s : want.dom.m) em = em && empty(c, s.second); if (em && B(c, isl_union_set_is_empty(d.g()), "em")) return; } cmp<isl_set>(c, op, comps(c, d), want.dom, how); }
}
// elements only defined on the whole domain
MU common(Case &c, const MU &m) { (void)c; return m; }
void mupa_ops(G &g)
{
	Case &c = g.c;
	MU u; bool nst = c.t.chance(1, 4);
	MUPA a = gen_mupa(c, u, 3, nst); g.ctx += "operand " + S(a) + "\n";
	int n = u.e.size();
	MU w; w.ran = u.ran;
	auto each = [&](auto f) { for (auto &e : u.e) { UA r; for (auto &x : e) r[x.first] = f(x.second); w.e.push_back(r); } w.dom = u.dom; };
	switch (c.t.below(22)) {
	case 0: g.chk("isl_union_map_from_multi_union_pw_aff", R(c, isl_union_map_from_multi_union_pw_aff(a.c()), "um"), graph(c, u)); break;
	case 1: { US ws; if (n == 0) ws = u.dom; else for (auto &x : graph(c, u).m) add(c, ws, MF(domain, x.second.c())); g.chk("isl_multi_union_pw_aff_domain", R(c, isl_multi_union_pw_aff_domain(a.c()), "dom"), ws); break; }
	case 2: { // from a union map
		UM gr = graph(c, u); bool em = true; for (auto &x : gr.m) em = em && empty(c, x.second); if (em) break;
		UMap m(isl_union_map_empty_ctx(c.ctx)); for (auto &x : gr.m) m = UMF(add_map, m.r(), x.second.c());
		MUPA r = R(c, isl_multi_union_pw_aff_from_union_map(m.c()), "from_union_map"); g.ctx += "map " + S(m) + "\nresult " + S(r) + "\n";
		g.chk("isl_multi_union_pw_aff_from_union_map", R(c, isl_union_map_from_multi_union_pw_aff(r.c()), "um"), gr); break; }
	case 3: { UPMA r = R(c, isl_union_pw_multi_aff_from_multi_union_pw_aff(a.c()), "upma"); chk(g, "isl_union_pw_multi_aff_from_multi_union_pw_aff", r, graph(c, u)); if (comps(c, r).empty()) break;
		MUPA b = R(c, isl_multi_union_pw_aff_from_union_pw_multi_aff(r.c()), "mupa"); g.chk("isl_multi_union_pw_aff_from_union_pw_multi_aff", R(c, isl_union_map_from_multi_union_pw_aff(b.c()), "um"), graph(c, u)); break; }
	case 4: { US s; USet b = gen_us(c, s, 3, nst); g.in(b); for (auto &e : u.e) { UA r; for (auto &x : e) if (s.m.count(x.first)) r[x.first] = R(c, isl_pw_aff_intersect_domain(x.second.c(), s.m[x.first].c()), "id"); w.e.push_back(r); } for (auto &x : u.dom.m) if (s.m.count(x.first)) w.dom.m[x.first] = SF(intersect, x.second.c(), s.m[x.first].c()); chk(g, "isl_multi_union_pw_aff_intersect_domain", R(c, isl_multi_union_pw_aff_intersect_domain(a.c(), b.c()), "id"), w); break; }
	case 5: { Sp ps; ps.params = {"n", "m"}; ps.out = mk_tup("", 0); Set p = R(c, isl_set_params(gen_set(c, ps, opt(c), false).r()), "p"); g.ctx += "params " + S(p) + "\n"; each([&](PwAff &x) { return R(c, isl_pw_aff_intersect_params(x.c(), p.c()), "ip"); }); for (auto &x : w.dom.m) x.second = SF(intersect_params, x.second.c(), p.c()); chk(g, "isl_multi_union_pw_aff_intersect_params", R(c, isl_multi_union_pw_aff_intersect_params(a.c(), p.c()), "ip"), w); break; }
	case 6: each([&](PwAff &x) { return R(c, isl_pw_aff_neg(x.c()), "n"); }); chk(g, "isl_multi_union_pw_aff_neg", R(c, isl_multi_union_pw_aff_neg(a.c()), "n"), w); break;
	case 7: { int q = c.t.range(-3, 3); each([&](PwAff &x) { return R(c, isl_pw_aff_scale_val(x.c(), isl_val_int_from_si(c.ctx, q)), "s"); }); chk(g, "isl_multi_union_pw_aff_scale_val", R(c, isl_multi_union_pw_aff_scale_val(a.c(), isl_val_int_from_si(c.ctx, q)), "s"), w); break; }
	case 8: case 9: { bool sub = c.t.chance(1, 2), uadd = c.t.chance(1, 2); MU v; MUPA b = gen_mupa(c, v, 3, nst, &u.ran); g.ctx += "operand " + S(b) + "\n"; 
		if (n == 0 && uadd) { w.dom = u.dom; for (auto &x : v.dom.m) add(c, w.dom, x.second); chk(g, "isl_multi_union_pw_aff_union_add", R(c, isl_multi_union_pw_aff_union_add(a.c(), b.c()), "ua"), w); break; }
		for (int i = 0; i < n; ++i) { UA r; for (auto &x : u.e[i]) { auto it = v.e[i].find(x.first); if (it == v.e[i].end()) { if (uadd) r[x.first] = x.second; continue; } r[x.first] = R(c, uadd ? isl_pw_aff_union_add(x.second.c(), it->second.c()) : sub ? isl_pw_aff_sub(x.second.c(), it->second.c()) : isl_pw_aff_add(x.second.c(), it->second.c()), "op"); } if (uadd) for (auto &x : v.e[i]) if (!u.e[i].count(x.first)) r[x.first] = x.second; w.e.push_back(r); }
		for (auto &x : u.dom.m) if (v.dom.m.count(x.first)) w.dom.m[x.first] = SF(intersect, x.second.c(), v.dom.m[x.first].c());
		if (uadd) chk(g, "isl_multi_union_pw_aff_union_add", R(c, isl_multi_union_pw_aff_union_add(a.c(), b.c()), "ua"), w);
		else chk(g, sub ? "isl_multi_union_pw_aff_sub" : "isl_multi_union_pw_aff_add", R(c, sub ? isl_multi_union_pw_aff_sub(a.c(), b.c()) : isl_multi_union_pw_aff_add(a.c(), b.c()), "op"), w); break; }
	case 10: { MU v; MUPA b = gen_mupa(c, v, 3, nst); g.ctx += "operand " + S(b) + "\n"; bool flat = c.t.chance(1, 2); UM gu = graph(c, u), gv = graph(c, v), wm; for (auto &x : gu.m) for (auto &y : gv.m) if (dkey(x.second) == dkey(y.second)) add(c, wm, flat ? MF(flat_range_product, x.second.c(), y.second.c()) : MF(range_product, x.second.c(), y.second.c()));
		MUPA r = R(c, flat ? isl_multi_union_pw_aff_flat_range_product(a.c(), b.c()) : isl_multi_union_pw_aff_range_product(a.c(), b.c()), "rp"); g.ctx += "result " + S(r) + "\n"; g.chk("isl_multi_union_pw_aff_range_product", R(c, isl_union_map_from_multi_union_pw_aff(r.c()), "um"), wm); break; }
	case 11: case 12: { // apply a function to the value
		if (n == 0) break; Sp sp; sp.params = params_subset(c); sp.is_map = true; sp.in = u.ran; sp.out = mk_tup("T", 1 + c.t.below(2)); int k = c.t.below(4); UM gu = graph(c, u), wm; 
		if (k < 2) { MAff f = gen_maff(c, sp, 1); g.ctx += "function " + S(f) + "\n"; PMA pf = R(c, isl_multi_aff_to_pw_multi_aff(f.c()), "to"); Map m = graph(c, pf); for (auto &x : gu.m) add(c, wm, MF(apply_range, x.second.c(), m.c()));
			if (k == 0) { MUPA r = R(c, isl_multi_union_pw_aff_apply_multi_aff(a.c(), f.c()), "ap"); g.ctx += "result " + S(r) + "\n"; g.chk("isl_multi_union_pw_aff_apply_multi_aff", R(c, isl_union_map_from_multi_union_pw_aff(r.c()), "um"), wm); }
			else { sp.out = mk_tup("", 1); MAff f1 = gen_maff(c, sp, 1); Aff af(isl_multi_aff_get_at(f1.g(), 0)); UM w2; Map m1 = graph(c, R(c, isl_multi_aff_to_pw_multi_aff(f1.c()), "to")); for (auto &x : gu.m) add(c, w2, MF(apply_range, x.second.c(), m1.c())); g.ctx += "aff " + S(af) + "\n"; UPA r = R(c, isl_multi_union_pw_aff_apply_aff(a.c(), af.c()), "ap"); g.chk("isl_multi_union_pw_aff_apply_aff", R(c, isl_union_map_from_union_pw_aff(r.c()), "um"), w2); } }
		else { PMA pf = gen_pma(c, sp, c.t.chance(1, 2)); g.ctx += "function " + S(pf) + "\n"; Map m = graph(c, pf); for (auto &x : gu.m) add(c, wm, MF(apply_range, x.second.c(), m.c()));
			MUPA r = R(c, isl_multi_union_pw_aff_apply_pw_multi_aff(a.c(), pf.c()), "ap"); g.ctx += "result " + S(r) + "\n"; g.chk("isl_multi_union_pw_aff_apply_pw_multi_aff", R(c, isl_union_map_from_multi_union_pw_aff(r.c()), "um"), wm); }
		break; }
	case 13: { US ws; for (auto &x : graph(c, u).m) { Set z = R(c, isl_set_universe(isl_space_range(isl_map_get_space(x.second.g()))), "u"); for (int i = 0; i < n; ++i) z = R(c, isl_set_fix_si(z.r(), isl_dim_set, i, 0), "f"); add(c, ws, MF(domain, MF(intersect_range, x.second.c(), z.c()).r())); } g.chk("isl_multi_union_pw_aff_zero_union_set", R(c, isl_multi_union_pw_aff_zero_union_set(a.c()), "z"), ws); break; }
	case 14: { UPm f; UPMA m = gen_upma(c, f, 3, false, nst, nullptr, false); g.ctx += "function " + S(m) + "\n"; UM gf = graph(c, f), gu = graph(c, u), wm; for (auto &x : gf.m) for (auto &y : gu.m) if (rkey(x.second) == dkey(y.second)) add(c, wm, MF(apply_range, x.second.c(), y.second.c())); MUPA r = R(c, isl_multi_union_pw_aff_pullback_union_pw_multi_aff(a.c(), m.c()), "pb"); g.ctx += "result " + S(r) + "\n"; 
		USet d = R(c, isl_multi_union_pw_aff_domain(r.c()), "d"); if (n == 0 && isl_union_set_is_params(d.g()) == isl_bool_true) { if (!wm.m.empty() ) { bool em = true; for (auto &x : wm.m) em = em && empty(c, x.second); if (!em) c.fail("isl_multi_union_pw_aff_pullback_union_pw_multi_aff", "domain lost\n" + g.ctx); } break; }
		g.chk("isl_multi_union_pw_aff_pullback_union_pw_multi_aff", R(c, isl_union_map_from_multi_union_pw_aff(r.c()), "um"), wm); break; }
	case 15: { US s; USet b = gen_us(c, s, 3, nst); if (s.m.empty()) break; g.in(b); isl_multi_val *mv = isl_multi_val_zero(ran_space(c, u.ran)); std::vector<int> q; for (int i = 0; i < n; ++i) { q.push_back(c.t.range(-3, 3)); mv = isl_multi_val_set_at(mv, i, isl_val_int_from_si(c.ctx, q[i])); } UM wm; for (auto &x : s.m) { Map m = R(c, isl_map_from_domain_and_range(x.second.c(), isl_set_universe(ran_space(c, u.ran))), "m"); for (int i = 0; i < n; ++i) m = R(c, isl_map_fix_si(m.r(), isl_dim_out, i, q[i]), "f"); add(c, wm, m); }
		MUPA r = R(c, isl_multi_union_pw_aff_multi_val_on_domain(b.c(), mv), "mv"); g.ctx += "result " + S(r) + "\n"; g.chk("isl_multi_union_pw_aff_multi_val_on_domain", R(c, isl_union_map_from_multi_union_pw_aff(r.c()), "um"), wm); break; }
	case 16: case 17: case 18: { // pairs with equal / ordered images
		UM m, wm; UMap um = gen_um(c, m, 4, nst, nst); g.in(um); int k = c.t.below(5); UM gu = graph(c, u);
		// as for other multi expressions, a component only needs to be defined if it is looked at
		for (auto &x : m.m) {
			Map res, eqs; bool ok = true;
			auto put = [&](Map y) { res = res ? MF(union, res.r(), y.r()) : y; };
			std::string dk = dkey(x.second), rk = rkey(x.second);
			eqs = x.second;
			if (n == 0) { eqs = Map(); for (auto &y : gu.m) for (auto &z : gu.m) if (dkey(y.second) == dk && dkey(z.second) == rk) eqs = MF(intersect, x.second.c(), MF(apply_range, y.second.c(), MF(reverse, z.second.c()).r()).r()); if (!eqs) continue; }
			for (int i = 0; i < n && ok; ++i) {
				auto p = u.e[i].find(dk), q = u.e[i].find(rk);
				if (p == u.e[i].end() || q == u.e[i].end()) { ok = false; break; }
				Map pm = R(c, isl_map_from_pw_aff(p->second.c()), "m"), qm = R(c, isl_map_from_pw_aff(q->second.c()), "m");
				if (k) put(MF(intersect, eqs.c(), k <= 2 ? MF(lex_lt_map, pm.c(), qm.c()).r() : MF(lex_gt_map, pm.c(), qm.c()).r()));
				eqs = MF(intersect, eqs.r(), MF(apply_range, pm.c(), MF(reverse, qm.c()).r()).r());
			}
			if (ok && k % 2 == 0) put(eqs);
			if (res) { add(c, wm, res); c.label("at match"); }
		}
		UMap r = R(c, k == 0 ? isl_union_map_eq_at_multi_union_pw_aff(um.c(), a.c()) : k == 1 ? isl_union_map_lex_lt_at_multi_union_pw_aff(um.c(), a.c()) : k == 2 ? isl_union_map_lex_le_at_multi_union_pw_aff(um.c(), a.c()) : k == 3 ? isl_union_map_lex_gt_at_multi_union_pw_aff(um.c(), a.c()) : isl_union_map_lex_ge_at_multi_union_pw_aff(um.c(), a.c()), "at"); g.ctx += ints({k});
		g.chk(k == 0 ? "isl_union_map_eq_at_multi_union_pw_aff" : "isl_union_map_lex_*_at_multi_union_pw_aff", r, wm); break; }
	case 19: { // extraction on a space
		UM gu = graph(c, u); for (auto &x : gu.m) { MPA p = R(c, isl_multi_union_pw_aff_extract_multi_pw_aff(a.g(), isl_space_domain(isl_map_get_space(x.second.g()))), "ex"); Map m = R(c, isl_map_from_multi_pw_aff(p.c()), "m"); if (!eq(c, m, x.second)) c.fail("isl_multi_union_pw_aff_extract_multi_pw_aff", S(p) + "\nexpected " + S(x.second) + "\n" + g.ctx); } c.label("isl_multi_union_pw_aff_extract_multi_pw_aff"); break; }
	case 20: { US s; USet b = gen_us(c, s, 3, nst); g.in(b); MUPA r = R(c, isl_multi_union_pw_aff_gist(a.c(), b.c()), "gist"); g.ctx += "gist " + S(r) + "\n"; r = R(c, isl_multi_union_pw_aff_intersect_domain(r.c(), b.c()), "id"); for (auto &e : u.e) { UA t; for (auto &x : e) if (s.m.count(x.first)) t[x.first] = R(c, isl_pw_aff_intersect_domain(x.second.c(), s.m[x.first].c()), "id"); w.e.push_back(t); } for (auto &x : u.dom.m) if (s.m.count(x.first)) w.dom.m[x.first] = SF(intersect, x.second.c(), s.m[x.first].c()); chk(g, "isl_multi_union_pw_aff_gist", r, w); break; }
	default: { // range restrictions
		if (!u.ran.sub.empty()) break; Set s = comp_set(c, false, &u.ran); g.in(s); UM gu = graph(c, u), wm; for (auto &x : gu.m) add(c, wm, MF(intersect_range, x.second.c(), s.c())); MUPA r = R(c, isl_multi_union_pw_aff_intersect_range(a.c(), s.c()), "ir"); g.ctx += "result " + S(r) + "\n"; g.chk("isl_multi_union_pw_aff_intersect_range", R(c, isl_union_map_from_multi_union_pw_aff(r.c()), "um"), wm); break; }
	}
}
