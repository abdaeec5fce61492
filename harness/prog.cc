#include "prog.h"
#define R_(e) R(c, e, #e)
namespace vp {
std::string S(isl_schedule *p) { return take_str(isl_schedule_to_str(p)); }
std::string S(isl_schedule_node *p) { return take_str(isl_schedule_node_to_str(p)); }
std::string str(const Inst &i) { return i.k + str(i.x); }
std::string tkey(const Tup &t)
{
	if (t.sub.empty()) return t.name + "/" + std::to_string(t.n);
	return t.name + "[" + tkey(t.sub[0]) + "->" + tkey(t.sub[1]) + "]";
}
std::string key_of(Case &c, isl_space *s)
{
	const char *n = isl_space_has_tuple_name(s, isl_dim_set) == isl_bool_true ? isl_space_get_tuple_name(s, isl_dim_set) : "";
	std::string nm = n ? n : "";
	if (isl_space_is_wrapping(s) == isl_bool_true) {
		Space m(isl_space_unwrap(isl_space_copy(s)));
		Space d(isl_space_domain(m.c())), r(isl_space_range(m.c()));
		return nm + "[" + key_of(c, d.g()) + "->" + key_of(c, r.g()) + "]";
	}
	return nm + "/" + std::to_string(N(c, isl_space_dim(s, isl_dim_set), "isl_space_dim"));
}
isl_space *Prog::pspace(Case &c) const { Sp s; s.params = params; s.out = mk_tup("", 0); return isl_space_params(mk_space(c, s)); }
std::vector<Inst> Prog::insts(const Pt &par) const
{
	std::vector<Inst> r;
	for (auto &t : st) for (auto &x : box_points(t.dim(), lo, hi)) { Inst i{tkey(t), x}; if (dm.has(par, i)) r.push_back(i); }
	return r;
}
Prog gen_prog(Case &c, const ProgOpt &o)
{
	Prog p; int np = c.t.below(o.max_par + 1);
	static const char *PN[] = {"n", "m"};
	for (int i = 0; i < np; ++i) p.params.push_back(PN[i]);
	int ns = 1 + c.t.below(o.max_st);
	p.lo = -1; p.hi = o.box + 1;
	p.dom = USet(isl_union_set_empty(p.pspace(c)));
	for (int i = 0; i < ns; ++i) {
		int d = c.t.weighted({o.allow_zero_d ? 1 : 0, 4, 4, 1}); if (d > o.max_d) d = o.max_d;
		p.st.push_back(mk_tup("S" + std::to_string(i), d));
		Sp sp = p.sp(i); auto names = var_names(sp);
		// box plus a few random constraints
		MMap m; m.np = np; m.ni = 0; m.no = d;
		std::string cons;
		int nb = 1 + c.t.chance(1, 5);
		Set s = R_(isl_set_empty(mk_space(c, sp)));
		for (int b = 0; b < nb; ++b) {
			Set q = R_(isl_set_universe(mk_space(c, sp)));
			for (int j = 0; j < d; ++j) {
				int l = c.t.below(3) ? 0 : c.t.range(p.lo, o.box); int u = c.t.chance(1, 2) ? o.box : c.t.range(p.lo, p.hi);
				if (c.t.chance(1, 8)) { l = p.lo; }
				q = R_(isl_set_lower_bound_si(q.r(), isl_dim_set, j, l));
				q = R_(isl_set_upper_bound_si(q.r(), isl_dim_set, j, u));
			}
			int ne = c.t.weighted({4, 4, 2, 1});
			for (int e = 0; e < ne; ++e) {
				QE x = gen_qe(c, np + d, c.t.weighted({0, 4, 1}), false);
				isl_pw_aff *pa = R_(x.build(c, mk_space(c, sp))).r();
				if (!pa) break;
				Set cs = c.t.chance(1, 8) ? R_(isl_pw_aff_zero_set(pa)) : R_(isl_pw_aff_nonneg_set(pa));
				q = R_(isl_set_intersect(q.r(), cs.r()));
			}
			s = R_(isl_set_union(s.r(), q.r()));
		}
		p.dom = R_(isl_union_set_add_set(p.dom.r(), s.r()));
	}
	p.dm = extract_us(c, p, p.dom.g());
	p.text = "domain " + S(p.dom) + "\n";
	return p;
}
USM extract_us(Case &c, const Prog &p, isl_union_set *u)
{
	USM r; if (!u) on_error(c, "extract_us");
	Space ps(p.pspace(c));
	USet a = R_(isl_union_set_align_params(isl_union_set_copy(u), ps.c()));
	std::vector<Set> l;
	if (isl_union_set_foreach_set(a.g(), [](isl_set *s, void *v) -> isl_stat { ((std::vector<Set> *)v)->push_back(Set(s)); return isl_stat_ok; }, &l) < 0) on_error(c, "isl_union_set_foreach_set");
	for (auto &s : l) { Space sp(isl_set_get_space(s.g())); if (isl_space_is_params(sp.g()) == isl_bool_true) { r.m["params"] = extract(c, s.g()); continue; } if (N(c, isl_space_dim(sp.g(), isl_dim_param), "dim") != p.np()) c.fail("harness:extract_us", "extra parameters " + S(u)); r.m[key_of(c, sp.g())] = extract(c, s.g()); }
	return r;
}
UMM extract_um(Case &c, const Prog &p, isl_union_map *u)
{
	UMM r; if (!u) on_error(c, "extract_um");
	Space ps(p.pspace(c));
	UMap a = R_(isl_union_map_align_params(isl_union_map_copy(u), ps.c()));
	std::vector<Map> l;
	if (isl_union_map_foreach_map(a.g(), [](isl_map *s, void *v) -> isl_stat { ((std::vector<Map> *)v)->push_back(Map(s)); return isl_stat_ok; }, &l) < 0) on_error(c, "isl_union_map_foreach_map");
	for (auto &s : l) { Space sp(isl_map_get_space(s.g())), d(isl_space_domain(sp.c())), q(isl_space_range(sp.c())); if (N(c, isl_space_dim(sp.g(), isl_dim_param), "dim") != p.np()) c.fail("harness:extract_um", "extra parameters " + S(u)); r.m[{key_of(c, d.g()), key_of(c, q.g())}] = extract(c, s.g()); }
	return r;
}
UFM extract_upa(Case &c, const Prog &p, isl_union_pw_aff *u)
{
	UFM r; if (!u) on_error(c, "extract_upa");
	Space ps(p.pspace(c));
	UPA a = R_(isl_union_pw_aff_align_params(isl_union_pw_aff_copy(u), ps.c()));
	std::vector<PwAff> l;
	if (isl_union_pw_aff_foreach_pw_aff(a.g(), [](isl_pw_aff *s, void *v) -> isl_stat { ((std::vector<PwAff> *)v)->push_back(PwAff(s)); return isl_stat_ok; }, &l) < 0) on_error(c, "isl_union_pw_aff_foreach_pw_aff");
	for (auto &s : l) { Space sp(isl_pw_aff_get_domain_space(s.g())); r.f[isl_space_is_params(sp.g()) == isl_bool_true ? "params" : key_of(c, sp.g())] = fn(c, s.g()); }
	return r;
}
isl_union_pw_aff *gen_upa(Case &c, const Prog &p, int depth)
{
	UPA u = R_(isl_union_pw_aff_empty(p.pspace(c)));
	for (size_t i = 0; i < p.st.size(); ++i) {
		Sp sp = p.sp(i); int n = p.np() + p.st[i].dim(); QE e;
		if (p.st[i].dim() && c.t.chance(1, 2)) { e.k = QE::VAR; e.var = p.np() + c.t.below(p.st[i].dim()); }
		else if (depth < 0) { e.c = c.t.range(-2, 3); for (int j = p.np(); j < n; ++j) if (c.t.chance(1, 2)) { QE v; v.k = QE::VAR; v.var = j; QE m; m.k = QE::MULC; m.c = c.t.range(-2, 2); m.ch = {v}; QE a; a.k = QE::ADD; a.ch = {e, m}; e = a; } }
		else e = gen_qe(c, n, depth, false);
		PwAff a = R_(e.build(c, mk_space(c, sp)));
		u = R_(isl_union_pw_aff_add_pw_aff(u.r(), a.r()));
	}
	return u.r();
}
isl_multi_union_pw_aff *gen_mupa(Case &c, const Prog &p, int n, const char *name, int depth)
{
	isl_space *sp = isl_space_set_from_params(p.pspace(c)); sp = isl_space_add_dims(sp, isl_dim_set, n);
	if (name) sp = isl_space_set_tuple_name(sp, isl_dim_set, name);
	isl_union_pw_aff_list *l = isl_union_pw_aff_list_alloc(c.ctx, n);
	for (int i = 0; i < n; ++i) l = isl_union_pw_aff_list_add(l, gen_upa(c, p, depth));
	MUPA m = R_(isl_multi_union_pw_aff_from_union_pw_aff_list(sp, l));
	return m.r();
}
TNode read_tree(Case &c, const Prog &p, isl_schedule_node *n)
{
	TNode t; t.type = isl_schedule_node_get_type(n);
	switch (t.type) {
	case isl_schedule_node_error: on_error(c, "isl_schedule_node_get_type");
	case isl_schedule_node_domain: { USet u = R_(isl_schedule_node_domain_get_domain(n)); t.filter = extract_us(c, p, u.g()); break; }
	case isl_schedule_node_filter: { USet u = R_(isl_schedule_node_filter_get_filter(n)); t.filter = extract_us(c, p, u.g()); break; }
	case isl_schedule_node_context: { Set s = R_(isl_schedule_node_context_get_context(n)); Space ps(p.pspace(c)); s = R_(isl_set_align_params(s.r(), ps.r())); t.par = extract(c, s.g()); break; }
	case isl_schedule_node_guard: { Set s = R_(isl_schedule_node_guard_get_guard(n)); Space ps(p.pspace(c)); s = R_(isl_set_align_params(s.r(), ps.r())); t.par = extract(c, s.g()); break; }
	case isl_schedule_node_band: {
		MUPA m = R_(isl_schedule_node_band_get_partial_schedule(n)); int k = N(c, isl_schedule_node_band_n_member(n), "isl_schedule_node_band_n_member");
		t.permutable = B(c, isl_schedule_node_band_get_permutable(n), "permutable");
		for (int i = 0; i < k; ++i) { UPA u = R_(isl_multi_union_pw_aff_get_union_pw_aff(m.g(), i)); t.band.push_back(extract_upa(c, p, u.g())); t.coincident.push_back(B(c, isl_schedule_node_band_member_get_coincident(n, i), "coincident")); t.loop.push_back((int)isl_schedule_node_band_member_get_ast_loop_type(n, i)); }
		break; }
	case isl_schedule_node_extension: { UMap u = R_(isl_schedule_node_extension_get_extension(n)); t.ext = extract_um(c, p, u.g()); break; }
	case isl_schedule_node_expansion: { UMap u = R_(isl_schedule_node_expansion_get_expansion(n)); t.ext = extract_um(c, p, u.g()); break; }
	default: break;
	}
	int k = N(c, isl_schedule_node_n_children(n), "isl_schedule_node_n_children");
	if (t.type == isl_schedule_node_leaf) k = 0;
	for (int i = 0; i < k; ++i) { Node ch = R_(isl_schedule_node_get_child(n, i)); t.ch.push_back(read_tree(c, p, ch.g())); }
	return t;
}
TNode read_schedule(Case &c, const Prog &p, isl_schedule *s) { Node r = R_(isl_schedule_get_root(s)); return read_tree(c, p, r.g()); }
static void walk(const TNode &t, const Pt &par, const Inst &i, Tm &r)
{
	switch (t.type) {
	case isl_schedule_node_domain: case isl_schedule_node_filter:
		if (!t.filter.has(par, i)) { auto it = t.filter.m.find("params"); if (it == t.filter.m.end() || !it->second.has(par)) { r.in = false; return; } }
		break;
	case isl_schedule_node_band:
		for (auto &f : t.band) { auto it = f.f.find(i.k); FV v; if (it != f.f.end()) v = it->second.eval(cat(par, i.x))[0]; else if ((it = f.f.find("params")) != f.f.end()) v = it->second.eval(par)[0]; if (v.st != 1) { r.in = false; return; } r.v.push_back({'b', v.v}); }
		break;
	case isl_schedule_node_sequence: case isl_schedule_node_set:
		for (size_t k = 0; k < t.ch.size(); ++k) {
			Tm s; s.v = r.v; s.v.push_back({t.type == isl_schedule_node_set ? 't' : 's', mpq_class((long)k)});
			walk(t.ch[k], par, i, s);
			if (s.in) { r = s; return; }
		}
		r.in = false; return;
	default: break;
	}
	if (!t.ch.empty()) walk(t.ch[0], par, i, r);
}
Tm time_of(const TNode &t, const Pt &par, const Inst &i) { Tm r; walk(t, par, i, r); return r; }
int cmp(const Tm &a, const Tm &b)
{
	for (size_t k = 0; k < a.v.size() && k < b.v.size(); ++k) {
		if (a.v[k].second == b.v[k].second) continue;
		if (a.v[k].first == 't') return 2;
		return a.v[k].second < b.v[k].second ? -1 : 1;
	}
	return 0;
}
static Node gen_at(Case &c, const Prog &p, Node n, std::vector<int> act, int depth, const SchedOpt &o)
{
	// n points at a leaf; returns a node at the same position
	int k = depth <= 0 ? 0 : c.t.weighted({1, 5, 3, o.marks ? 1 : 0});
	if (k == 0) return n;
	if (k == 1) {
		int m = 1 + c.t.weighted({3, 2, 1});
		n = R_(isl_schedule_node_insert_partial_schedule(n.r(), gen_mupa(c, p, m, nullptr, o.affine ? -1 : 1)));
		if (c.t.chance(1, 3)) n = R_(isl_schedule_node_band_set_permutable(n.r(), 1));
		n = R_(isl_schedule_node_child(n.r(), 0));
		n = gen_at(c, p, n, act, depth - 1, o);
		return R_(isl_schedule_node_parent(n.r()));
	}
	if (k == 3) {
		n = R_(isl_schedule_node_insert_mark(n.r(), isl_id_alloc(c.ctx, "mark", nullptr)));
		n = R_(isl_schedule_node_child(n.r(), 0));
		n = gen_at(c, p, n, act, depth - 1, o);
		return R_(isl_schedule_node_parent(n.r()));
	}
	// sequence / set: partition the active statements, possibly splitting one
	USet here = R_(isl_schedule_node_get_domain(n.g()));
	int parts = 2 + c.t.chance(1, 3);
	std::vector<USet> f; for (int i = 0; i < parts; ++i) f.push_back(R_(isl_union_set_empty(p.pspace(c))));
	for (int i : act) {
		Sp sp = p.sp(i); Set u = R_(isl_set_universe(mk_space(c, sp)));
		if (!o.affine && c.t.chance(1, 4) && p.st[i].dim()) {
			QE e = gen_qe(c, p.np() + p.st[i].dim(), 1, false);
			Set a = R_(isl_pw_aff_nonneg_set(e.build(c, mk_space(c, sp))));
			Set b = R_(isl_set_subtract(u.c(), a.c()));
			int x = c.t.below(parts), y = c.t.below(parts);
			f[x] = R_(isl_union_set_add_set(f[x].r(), a.r())); f[y] = R_(isl_union_set_add_set(f[y].r(), b.r()));
		} else { int x = c.t.below(parts); f[x] = R_(isl_union_set_add_set(f[x].r(), u.r())); }
	}
	isl_union_set_list *l = isl_union_set_list_alloc(c.ctx, parts);
	int cnt = 0;
	for (auto &u : f) { bool e = B(c, isl_union_set_is_empty(u.g()), "isl_union_set_is_empty"); if (e) continue; l = isl_union_set_list_add(l, u.c()); ++cnt; }
	bool set = o.sets && c.t.chance(1, 3);
	n = R_(set ? isl_schedule_node_insert_set(n.r(), l) : isl_schedule_node_insert_sequence(n.r(), l));
	for (int i = 0; i < cnt; ++i) {
		n = R_(isl_schedule_node_child(n.r(), i));
		n = R_(isl_schedule_node_child(n.r(), 0));
		n = gen_at(c, p, n, act, depth - 1, o);
		n = R_(isl_schedule_node_parent(n.r()));
		n = R_(isl_schedule_node_parent(n.r()));
	}
	return n;
}
Sched gen_sched(Case &c, const Prog &p, const SchedOpt &o)
{
	Node n = R_(isl_schedule_node_from_domain(p.dom.c()));
	n = R_(isl_schedule_node_child(n.r(), 0));
	std::vector<int> act; for (size_t i = 0; i < p.st.size(); ++i) act.push_back(i);
	n = gen_at(c, p, n, act, o.depth, o);
	return R_(isl_schedule_node_get_schedule(n.g()));
}
} // namespace vp
