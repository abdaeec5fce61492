// C24: generated code executes each scheduled instance once, in order.
#include "ast.h"
#include <algorithm>
#define R_(e) R(c, e, #e)
using namespace vp;
namespace {
struct Occ { std::string name; Pt x; Tm t; };
std::string base(const std::string &k) { return k.substr(0, k.find('/')); }
std::string str(const Occ &o) { return o.name + vp::str(o.x); }

void occ(const TNode &t, const Pt &par, std::vector<std::pair<Inst, Tm>> act, std::vector<Occ> &out, int lo, int hi)
{
	switch (t.type) {
	case isl_schedule_node_filter: {
		std::vector<std::pair<Inst, Tm>> r; for (auto &a : act) if (t.filter.has(par, a.first)) r.push_back(a); act = r; break; }
	case isl_schedule_node_band:
		for (auto &a : act) for (auto &f : t.band) { auto it = f.f.find(a.first.k); FV v; if (it != f.f.end()) v = it->second.eval(cat(par, a.first.x))[0]; else if ((it = f.f.find("params")) != f.f.end()) v = it->second.eval(par)[0]; if (v.st != 1) throw FailEx{"harness:band", "no value"}; a.second.v.push_back({'b', v.v}); }
		break;
	case isl_schedule_node_sequence: case isl_schedule_node_set:
		for (size_t k = 0; k < t.ch.size(); ++k) {
			auto r = act; for (auto &a : r) a.second.v.push_back({t.type == isl_schedule_node_set ? 't' : 's', mpq_class((long)k)});
			occ(t.ch[k], par, r, out, lo, hi);
		}
		return;
	case isl_schedule_node_extension: {
		std::set<std::vector<std::pair<char, mpq_class>>> seen; auto r = act;
		for (auto &a : act) {
			if (!seen.insert(a.second.v).second) continue;
			Pt pre; for (auto &q : a.second.v) if (q.first == 'b') { if (q.second.get_den() != 1) return; pre.push_back(q.second.get_num().get_si()); }
			for (auto &m : t.ext.m) {
				if (m.second.ni != (int)pre.size()) continue;
				for (auto &x : box_points(m.second.no, lo, hi)) if (m.second.has(cat(cat(par, pre), x))) r.push_back({Inst{m.first.second, x}, a.second});
			}
		}
		act = r; break; }
	default: break;
	}
	if (!t.ch.empty()) { occ(t.ch[0], par, act, out, lo, hi); return; }
	for (auto &a : act) out.push_back({base(a.first.k), a.first.x, a.second});
}

struct Domain { UMap sched; std::vector<std::string> ids; AExpr acc; int stmt = -1; QE q; };
struct CB {
	Case *c; Prog *p; std::vector<Domain> dom; int fors = 0, fors_done = 0, marks_in = 0, marks_out = 0; std::vector<std::string> open; std::string err; bool acc = false;
	MUPA inner; std::vector<UMap> inner_opt; int leaves = 0; bool cb_for = false; bool nested_at = false;
};
template <class F> auto guard(CB *b, F f) -> decltype(f()) { try { return f(); } catch (FailEx &e) { b->err = e.kind + ": " + e.msg; } catch (DiscardEx &e) { b->err = "discard " + e.why; } return decltype(f())(); }

isl_ast_node *at_domain(isl_ast_node *node, isl_ast_build *build, void *v)
{
	CB *b = (CB *)v; Case &c = *b->c; ANode_ n(node);
	return guard(b, [&]() -> isl_ast_node * {
		Domain d; d.sched = R_(isl_ast_build_get_schedule(build));
		Space sp = R_(isl_ast_build_get_schedule_space(build));
		int k = N(c, isl_space_dim(sp.g(), isl_dim_set), "isl_space_dim");
		for (int i = 0; i < k; ++i) { const char *s = isl_space_get_dim_name(sp.g(), isl_dim_set, i); d.ids.push_back(s ? s : ""); }
		AExpr e = R_(isl_ast_node_user_get_expr(n.g())); AEx x = read_expr(c, e.g());
		if (x.k == AEx::OP && x.op == isl_ast_expr_op_call && b->acc) {
			for (size_t i = 0; i < b->p->st.size(); ++i) if (b->p->st[i].name == x.a[0].id && isl_union_map_n_map(d.sched.g()) == 1) {
				d.stmt = i; Map m = R_(isl_map_from_union_map(d.sched.c())); m = R_(isl_map_reverse(m.r()));
				isl_pw_multi_aff *it = R_(isl_pw_multi_aff_from_map(m.r())).r();
				d.q = gen_qe(c, b->p->np() + b->p->st[i].dim(), 2, true);
				PwAff f = R_(d.q.build(c, mk_space(c, b->p->sp(i))));
				f = R_(isl_pw_aff_pullback_pw_multi_aff(f.r(), it));
				if (c.t.chance(1, 2)) d.acc = R_(isl_ast_build_expr_from_pw_aff(build, f.r()));
				else { H<isl_pw_multi_aff> g = R_(isl_pw_multi_aff_from_pw_aff(f.r())); g = R_(isl_pw_multi_aff_set_tuple_id(g.r(), isl_dim_out, isl_id_alloc(c.ctx, "A", nullptr))); d.acc = R_(isl_ast_build_access_from_pw_multi_aff(build, g.r())); }
			}
		}
		std::string nm = "d" + std::to_string(b->dom.size()); b->dom.push_back(d);
		return R_(isl_ast_node_set_annotation(n.r(), isl_id_alloc(c.ctx, nm.c_str(), nullptr))).r();
	});
}
isl_id *before_for(isl_ast_build *build, void *v)
{
	CB *b = (CB *)v; (void)build; std::string nm = "f" + std::to_string(b->fors++); b->open.push_back(nm);
	return isl_id_alloc(b->c->ctx, nm.c_str(), nullptr);
}
isl_ast_node *after_for(isl_ast_node *node, isl_ast_build *build, void *v)
{
	CB *b = (CB *)v; Case &c = *b->c; (void)build; ANode_ n(node);
	return guard(b, [&]() -> isl_ast_node * {
		if (isl_ast_node_get_type(n.g()) != isl_ast_node_for) c.fail("after_each_for", "not a for node: " + S(n.g()));
		isl_id *id = isl_ast_node_get_annotation(n.g()); std::string nm = id ? isl_id_get_name(id) : ""; isl_id_free(id);
		if (b->open.empty() || nm != b->open.back()) c.fail("after_each_for", "annotation " + nm + " instead of " + (b->open.empty() ? "nothing" : b->open.back()));
		b->open.pop_back(); b->fors_done++;
		return n.r();
	});
}
isl_stat before_mark(isl_id *m, isl_ast_build *, void *v) { CB *b = (CB *)v; if (!m || std::string(isl_id_get_name(m)) != "mark") b->err = "before_each_mark: id"; b->marks_in++; return isl_stat_ok; }
isl_ast_node *after_mark(isl_ast_node *n, isl_ast_build *, void *v) { CB *b = (CB *)v; b->marks_out++; if (isl_ast_node_get_type(n) != isl_ast_node_mark) b->err = "after_each_mark: not a mark node"; if (b->marks_out > b->marks_in) b->err = "after_each_mark before before_each_mark"; return n; }
isl_ast_node *leaf(isl_ast_build *build, void *v)
{
	CB *b = (CB *)v; Case &c = *b->c; ABuild bl(build);
	return guard(b, [&]() -> isl_ast_node * {
		b->leaves++;
		UMap s = R_(isl_ast_build_get_schedule(bl.g()));
		UMap in = R_(isl_union_map_from_multi_union_pw_aff(b->inner.c()));
		s = R_(isl_union_map_range_product(s.r(), in.r()));
		if (!b->inner_opt.empty()) bl = R_(isl_ast_build_set_options(bl.r(), b->inner_opt[0].c()));
		if (b->nested_at) bl = R_(isl_ast_build_set_at_each_domain(bl.r(), &at_domain, b));
		return R_(isl_ast_build_node_from_schedule_map(bl.g(), s.r())).r();
	});
}

// random set over n dimensions plus parameters: a few affine inequalities
isl_set *cond_set(Case &c, const Prog &p, int n, int used)
{
	Sp sp; sp.params = p.params; sp.out = mk_tup("", n);
	Set s = R_(isl_set_universe(mk_space(c, sp)));
	if (used <= 0) return s.r();
	int k = c.t.below(3);
	for (int i = 0; i < k; ++i) { QE e = gen_qe(c, p.np() + used, 1, false); s = R_(isl_set_intersect(s.r(), R_(isl_pw_aff_nonneg_set(e.build(c, mk_space(c, sp)))).r())); }
	return s.r();
}
// decorate the bands of a schedule tree with options, insert other nodes
struct Deco { Case *c; Prog *p; bool unroll = false; int next = 0; std::string err; bool ext = false; };
isl_schedule_node *decorate(isl_schedule_node *node, void *v)
{
	Deco &d = *(Deco *)v; Case &c = *d.c; Node n(node);
	try {
		auto ty = isl_schedule_node_get_type(n.g());
		if (ty == isl_schedule_node_band) {
			int k = N(c, isl_schedule_node_band_n_member(n.g()), "n_member"), depth = N(c, isl_schedule_node_get_schedule_depth(n.g()), "isl_schedule_node_get_schedule_depth");
			auto lt = [&]() { int q = c.t.weighted({3, 2, 1, 3}); if (q == 2) d.unroll = true; return (enum isl_ast_loop_type)q; };
			for (int i = 0; i < k; ++i) if (c.t.chance(2, 3)) n = R_(isl_schedule_node_band_member_set_ast_loop_type(n.r(), i, lt()));
			if (c.t.chance(1, 4)) {
				Sp sp; sp.params = d.p->params; sp.in = mk_tup("", depth); sp.out = mk_tup("", k); sp.is_map = true;
				Map m = R_(isl_map_universe(mk_space(c, sp)));
				int q = 1 + c.t.below(2);
				for (int i = 0; i < q; ++i) { QE e = gen_qe(c, d.p->np() + depth + k, 1, false); Set s = R_(isl_map_wrap(m.c())); s = R_(isl_set_intersect(s.r(), R_(isl_pw_aff_nonneg_set(e.build(c, isl_set_get_space(s.g())))).r())); m = R_(isl_set_unwrap(s.r())); }
				Set iso = R_(isl_map_wrap(m.r())); iso = R_(isl_set_set_tuple_name(iso.r(), "isolate"));
				USet o = R_(isl_schedule_node_band_get_ast_build_options(n.g()));
				o = R_(isl_union_set_add_set(o.r(), iso.r()));
				n = R_(isl_schedule_node_band_set_ast_build_options(n.r(), o.r()));
				for (int i = 0; i < k; ++i) if (c.t.chance(1, 2)) n = R_(isl_schedule_node_band_member_set_isolate_ast_loop_type(n.r(), i, lt()));
				c.label("isolate");
			}
		} else if (ty == isl_schedule_node_leaf && d.ext && c.t.chance(1, 3) && !d.next) {
			// extension node adding a statement X at (a subset of) the prefix values
			UMap pre = R_(isl_schedule_node_get_prefix_schedule_union_map(n.g()));
			USet dom = R_(isl_schedule_node_get_domain(n.g())); pre = R_(isl_union_map_intersect_domain(pre.r(), dom.r()));
			USet rg = R_(isl_union_map_range(pre.r()));
			if (isl_union_set_n_set(rg.g()) == 1) {
				Set r = R_(isl_set_from_union_set(rg.r())); Space ps(d.p->pspace(c)); r = R_(isl_set_align_params(r.r(), ps.r()));
				int depth = N(c, isl_schedule_node_get_schedule_depth(n.g()), "depth"), dim = c.t.below(2);
				std::string nm = "X" + std::to_string(d.next++);
				Sp sp; sp.params = d.p->params; sp.in = mk_tup("", depth); sp.out = mk_tup(nm, dim); sp.is_map = true;
				Map m = R_(isl_map_universe(mk_space(c, sp)));
				for (int i = 0; i < dim; ++i) { m = R_(isl_map_lower_bound_si(m.r(), isl_dim_out, i, c.t.range(-1, 1))); m = R_(isl_map_upper_bound_si(m.r(), isl_dim_out, i, c.t.range(0, 3))); }
				if (c.t.chance(1, 2)) { QE e = gen_qe(c, d.p->np() + depth + dim, 1, false); Set s = R_(isl_map_wrap(m.r())); s = R_(isl_set_intersect(s.r(), R_(isl_pw_aff_nonneg_set(e.build(c, isl_set_get_space(s.g())))).r())); m = R_(isl_set_unwrap(s.r())); }
				m = R_(isl_map_intersect_domain(m.r(), r.r()));
				Node g = R_(isl_schedule_node_from_extension(isl_union_map_from_map(m.r())));
				if (dim && c.t.chance(1, 2)) {   // schedule of the grafted statement
					g = R_(isl_schedule_node_child(g.r(), 0));
					Sp ss; ss.params = d.p->params; ss.out = mk_tup(nm, dim);
					QE e = gen_qe(c, d.p->np() + dim, 1, false); PwAff pa = R_(e.build(c, mk_space(c, ss)));
					UPA u = R_(isl_union_pw_aff_from_pw_aff(pa.r()));
					g = R_(isl_schedule_node_insert_partial_schedule(g.r(), R_(isl_multi_union_pw_aff_from_union_pw_aff(u.r())).r()));
					g = R_(isl_schedule_node_parent(g.r()));
				}
				n = R_(c.t.chance(1, 2) ? isl_schedule_node_graft_before(n.r(), g.r()) : isl_schedule_node_graft_after(n.r(), g.r()));
				c.label("extension");
			}
		}
	} catch (FailEx &e) { d.err = e.kind + ": " + e.msg; return nullptr; } catch (DiscardEx &e) { d.err = "discard " + e.why; return nullptr; }
	return n.r();
}

struct Opts { bool ab, pdiv, mm, nest, group, sb, stride, el, orr; };
void structure(Case &c, const ANode &n, const Opts &o, const std::string &how)
{
	std::set<int> s; n.e.ops(s); n.cond.ops(s); n.init.ops(s); n.inc.ops(s);
	if (!o.pdiv && (s.count(isl_ast_expr_op_pdiv_q) || s.count(isl_ast_expr_op_pdiv_r))) c.fail("option:prefer_pdiv", "pdiv operator although prefer_pdiv is off\n" + how);
	if (n.type == isl_ast_node_if) {
		std::set<int> g; n.cond.ops(g);
		if (!o.el && n.ch.size() > 1) c.fail("option:allow_else", "else branch although allow_else is off\n" + how);
		if (!o.orr && (g.count(isl_ast_expr_op_or) || g.count(isl_ast_expr_op_or_else))) c.fail("option:allow_or", "disjunction although allow_or is off\n" + how);
	}
	if (n.type == isl_ast_node_for && o.ab) {
		auto &e = n.cond; bool ok = e.k == AEx::OP && (e.op == isl_ast_expr_op_le || e.op == isl_ast_expr_op_lt || e.op == isl_ast_expr_op_ge || e.op == isl_ast_expr_op_gt) && e.a[0].k == AEx::ID && e.a[0].id == n.it.id && !e.a[1].mentions(n.it.id);
		if (!ok) c.fail("option:atomic_upper_bound", "loop condition " + e.str() + "\n" + how);
	}
	for (auto &x : n.ch) structure(c, x, o, how);
}

void run(Case &c)
{
	ProgOpt po; po.box = 2 + c.t.below(3); po.max_par = 2; po.max_st = 3; po.max_d = c.t.chance(1, 8) ? 3 : 2;
	Prog p = gen_prog(c, po);
	isl_ctx *x = c.ctx; std::string opts;
	Opts o;
	auto opt = [&](const char *n, isl_stat (*f)(isl_ctx *, int), int (*g)(isl_ctx *)) { if (c.t.chance(1, 3)) { int v = c.t.below(2); f(x, v); opts += std::string(" ") + n + "=" + std::to_string(v); } return g(x) != 0; };
#define O(n) opt(#n, isl_options_set_ast_build_##n, isl_options_get_ast_build_##n)
	o.ab = O(atomic_upper_bound); o.pdiv = O(prefer_pdiv); o.mm = O(detect_min_max); o.nest = O(exploit_nested_bounds); o.group = O(group_coscheduled); o.sb = O(separation_bounds); o.stride = O(scale_strides); o.el = O(allow_else); o.orr = O(allow_or);
#undef O
	std::string how = p.text + "options" + opts + "\n";
	// context
	Set ctxs; MMap ctxm; bool has_ctx = false;
	if (p.np() && c.t.chance(1, 2)) { QE e = gen_qe(c, p.np(), 1, false); ctxs = R_(isl_set_params(R_(isl_pw_aff_nonneg_set(e.build(c, isl_space_set_from_params(p.pspace(c))))).r())); ctxm = extract(c, ctxs.g()); has_ctx = true; how += "context " + S(ctxs) + "\n"; }
	ABuild b = R_(has_ctx ? isl_ast_build_from_context(ctxs.c()) : isl_ast_build_alloc(x));
	CB cb; cb.c = &c; cb.p = &p; cb.acc = c.t.chance(1, 2);
	bool mk_cb = false; bool at = c.t.chance(1, 2), fors = c.t.chance(1, 3);
	int mode = c.t.weighted({4, 2, 1});
	if (at && mode != 2) b = R_(isl_ast_build_set_at_each_domain(b.r(), &at_domain, &cb));
	if (fors) { b = R_(isl_ast_build_set_before_each_for(b.r(), &before_for, &cb)); b = R_(isl_ast_build_set_after_each_for(b.r(), &after_for, &cb)); }
	std::vector<std::string> itn;
	if (c.t.chance(1, 4)) { isl_id_list *l = isl_id_list_alloc(x, 3); int k = c.t.below(6); for (int i = 0; i < k; ++i) { itn.push_back("it" + std::to_string(i)); l = isl_id_list_add(l, isl_id_alloc(x, itn.back().c_str(), nullptr)); } b = R_(isl_ast_build_set_iterators(b.r(), l)); how += "iterators " + std::to_string(k) + "\n"; }
	TNode tr; std::vector<std::vector<QE>> tm; std::vector<std::vector<int>> wd; int nt = 0; bool two = false; bool unroll = false, sched_err_ok = false; int nmarks = 0;
	isl_ast_node *ast_ = nullptr;
	MMap tctx; bool has_tctx = false;
	if (mode == 0) {
		SchedOpt so; so.depth = 1 + c.t.below(3); so.marks = true; so.sets = c.t.chance(1, 3); so.affine = c.t.chance(1, 4);
		Sched s = gen_sched(c, p, so);
		Deco d; d.c = &c; d.p = &p; d.ext = c.t.chance(1, 4);
		isl_schedule *s2 = isl_schedule_map_schedule_node_bottom_up(s.c(), &decorate, &d);
		if (!s2) { if (d.err.compare(0, 7, "discard") == 0) c.discard(d.err.substr(8)); if (!d.err.empty()) c.fail("decorate", d.err + "\n" + how); on_error(c, "isl_schedule_map_schedule_node_bottom_up"); }
		s = Sched(s2); unroll = d.unroll;
		if (p.np() && c.t.chance(1, 4)) {   // context node
			QE e = gen_qe(c, p.np(), 1, false); Set q = R_(isl_set_params(R_(isl_pw_aff_nonneg_set(e.build(c, isl_space_set_from_params(p.pspace(c))))).r()));
			tctx = extract(c, q.g()); has_tctx = true;
			q = R_(isl_set_from_params(q.r())); s = R_(isl_schedule_insert_context(s.r(), q.r()));
		}
		if (c.t.chance(1, 6) && p.np()) {  // guard implied by the domain, below the root
			Node n = R_(isl_schedule_get_root(s.g())); n = R_(isl_schedule_node_child(n.r(), 0));
			Set q = R_(isl_set_from_params(isl_union_set_params(p.dom.c()))); n = R_(isl_schedule_node_insert_guard(n.r(), q.r()));
			s = R_(isl_schedule_node_get_schedule(n.g())); c.label("guard");
		}
		tr = read_schedule(c, p, s.g());
		how += "schedule " + S(s) + "\n"; c.log << how;
		if ((mk_cb = c.t.chance(1, 3))) { b = R_(isl_ast_build_set_before_each_mark(b.r(), &before_mark, &cb)); b = R_(isl_ast_build_set_after_each_mark(b.r(), &after_mark, &cb)); }
		ast_ = isl_ast_build_node_from_schedule(b.g(), s.r());
		c.label("tree");
	} else {
		nt = c.t.weighted({1, 4, 4, 2}); two = mode == 1 && p.st.size() > 1 && c.t.chance(1, 8);
		int ni = mode == 2 ? c.t.below(3) : 0;
		UMap s = R_(isl_union_map_empty(p.pspace(c)));
		for (size_t i = 0; i < p.st.size(); ++i) {
			int nv = p.np() + p.st[i].dim(); std::vector<QE> e; std::vector<int> w;
			Sp sp; sp.params = p.params; sp.in = p.st[i]; sp.out = mk_tup(two && i ? "T" : "", nt); sp.is_map = true;
			Map m = R_(isl_map_universe(mk_space(c, sp)));
			for (int j = 0; j < nt; ++j) {
				QE q; if (p.st[i].dim() && c.t.chance(2, 3)) { q.k = QE::VAR; q.var = p.np() + c.t.below(p.st[i].dim()); if (c.t.chance(1, 4)) { QE k; k.k = QE::MULC; k.c = c.t.range(-2, 3); k.ch = {q}; q = k; } }
				else q = gen_qe(c, nv, 1, c.t.chance(1, 8));
				int ww = mode == 1 && c.t.chance(1, 10) ? 1 + c.t.below(2) : 0;
				e.push_back(q); w.push_back(ww);
				// t_j between q and q + ww
				Sp s1; s1.params = p.params; s1.in = p.st[i]; s1.out = mk_tup("", 1); s1.is_map = true;
				Map mj = R_(isl_map_from_pw_aff(q.build(c, mk_space(c, p.sp(i)))));
				if (ww) { Sp s0; s0.params = p.params; s0.in = s0.out = mk_tup("", 1); s0.is_map = true; auto sp_ = mk_space(c, s0);
					Map st = R_(isl_map_universe(sp_)); Map lt = R_(isl_map_order_le(isl_map_universe(isl_map_get_space(st.g())), isl_dim_in, 0, isl_dim_out, 0)); isl_map *g = nullptr;
					isl_local_space *ls = isl_local_space_from_space(isl_map_get_space(st.g())); isl_constraint *k = isl_constraint_alloc_inequality(ls); k = isl_constraint_set_coefficient_si(k, isl_dim_in, 0, 1); k = isl_constraint_set_coefficient_si(k, isl_dim_out, 0, -1); k = isl_constraint_set_constant_si(k, ww);
					g = isl_map_add_constraint(lt.r(), k); mj = R_(isl_map_apply_range(mj.r(), R_(g).r())); }
				// place in dimension j
				Map full = R_(isl_map_insert_dims(mj.r(), isl_dim_out, 0, j)); full = R_(isl_map_add_dims(full.r(), isl_dim_out, nt - j - 1));
				if (two && i) full = R_(isl_map_set_tuple_name(full.r(), isl_dim_out, "T"));
				m = R_(isl_map_intersect(m.r(), full.r()));
			}
			tm.push_back(e); wd.push_back(w);
			s = R_(isl_union_map_add_map(s.r(), m.r()));
		}
		s = R_(isl_union_map_intersect_domain(s.r(), p.dom.c()));
		how += "schedule " + S(s) + "\n";
		auto mkopt = [&](int n, const char *nm) {
			UMap r = R_(isl_union_map_empty(p.pspace(c)));
			for (int d = 0; d < n; ++d) {
				int q = c.t.weighted({3, 2, 1, 3, 1}); if (!q) continue;
				static const char *ON[] = {"", "atomic", "unroll", "separate"};
				Set dom = R_(cond_set(c, p, n, c.t.chance(1, 2) ? d + 1 : 0)); if (*nm) dom = R_(isl_set_set_tuple_name(dom.r(), nm));
				Map m;
				if (q == 4) {
					Sp sp; sp.params = p.params; sp.in = mk_tup("", 1); sp.out = mk_tup("", 1); sp.is_map = true;
					Map k = R_(isl_map_universe(mk_space(c, sp))); k = R_(isl_map_fix_si(k.r(), isl_dim_in, 0, d)); k = R_(isl_map_fix_si(k.r(), isl_dim_out, 0, c.t.below(2)));
					Set w = R_(isl_map_wrap(k.r())); w = R_(isl_set_set_tuple_name(w.r(), "separation_class")); m = R_(isl_map_from_domain_and_range(dom.r(), w.r())); c.label("separation_class");
				} else {
					if (q == 2) unroll = true;
					Sp sp; sp.params = p.params; sp.out = mk_tup(ON[q], 1); Set w = R_(isl_set_universe(mk_space(c, sp))); w = R_(isl_set_fix_si(w.r(), isl_dim_set, 0, d));
					m = R_(isl_map_from_domain_and_range(dom.r(), w.r()));
				}
				r = R_(isl_union_map_add_map(r.r(), m.r()));
			}
			return r;
		};
		if (nt && c.t.chance(2, 3)) { UMap om = mkopt(nt, ""); how += "options " + S(om) + "\n"; b = R_(isl_ast_build_set_options(b.r(), om.r())); }
		if (mode == 2) {
			for (size_t i = 0; i < p.st.size(); ++i) for (int j = 0; j < ni; ++j) tm[i].push_back(gen_qe(c, p.np() + p.st[i].dim(), 1, false)), wd[i].push_back(0);
			isl_space *sp = isl_space_set_from_params(p.pspace(c)); sp = isl_space_add_dims(sp, isl_dim_set, ni);
			if (ni) {
				isl_union_pw_aff_list *l = isl_union_pw_aff_list_alloc(x, ni);
				for (int j = 0; j < ni; ++j) { UPA u = R_(isl_union_pw_aff_empty(p.pspace(c))); for (size_t i = 0; i < p.st.size(); ++i) u = R_(isl_union_pw_aff_add_pw_aff(u.r(), R_(tm[i][nt + j].build(c, mk_space(c, p.sp(i)))).r())); l = isl_union_pw_aff_list_add(l, u.r()); }
				cb.inner = R_(isl_multi_union_pw_aff_from_union_pw_aff_list(sp, l));
				UMap im = R_(isl_union_map_from_multi_union_pw_aff(cb.inner.c())); how += "inner " + S(im) + "\n";
				if (c.t.chance(1, 2)) { cb.inner_opt.push_back(mkopt(ni, "")); how += "inner options " + S(cb.inner_opt[0]) + "\n"; }
			} else { cb.inner = R_(isl_multi_union_pw_aff_zero(sp)); USet uu = R_(isl_union_set_universe(p.dom.c())); cb.inner = R_(isl_multi_union_pw_aff_intersect_domain(cb.inner.r(), uu.r())); }
			b = R_(isl_ast_build_set_create_leaf(b.r(), &leaf, &cb)); cb.nested_at = at;
			c.label("nested");
		} else c.label(two ? "map2" : "map");
		c.log << how;
		ast_ = isl_ast_build_node_from_schedule_map(b.g(), s.r());
	}
	(void)sched_err_ok; (void)nmarks;
	if (!cb.err.empty()) { if (cb.err.compare(0, 7, "discard") == 0) c.discard(cb.err.substr(8)); if (unroll && cb.err.find("for unrolling") != std::string::npos) c.discard("cannot-unroll"); c.fail("callback", cb.err + "\n" + how); }
	if (!ast_) {
		std::string m = isl_ctx_last_error_msg(x) ? isl_ctx_last_error_msg(x) : "";
		if (unroll && (m.find("unrolling") != std::string::npos)) { c.label("cannot-unroll"); c.discard("cannot-unroll"); }
		on_error(c, "isl_ast_build_node_from_schedule");
	}
	ANode_ ast(ast_);
	how += S(ast.g());
	ANode n = read_node(c, ast.g());
	structure(c, n, o, how);
	// known finding ast-unroll-bound-own-iterator: with an unroll option on part of
	// the schedule domain, a bound of a loop may refer to the iterator of the loop itself
	if (mode && unroll) {
		std::function<bool(const ANode &)> own = [&](const ANode &q) { if (q.type == isl_ast_node_for && (q.init.mentions(q.it.id))) return true; for (auto &z : q.ch) if (own(z)) return true; return false; };
		if (own(n)) { c.label("known:ast-unroll-bound-own-iterator"); return; }
	}
	if (fors && (cb.fors != cb.fors_done || !cb.open.empty())) c.fail("before_each_for", "calls do not match\n" + how);
	if (mk_cb) { int nm = 0; std::function<void(const ANode &)> cm = [&](const ANode &q) { if (q.type == isl_ast_node_mark) ++nm; for (auto &z : q.ch) cm(z); }; cm(n);
		// grafts may be dropped or duplicated after the callback, so the numbers need not match
		if (nm && !cb.marks_out) c.fail("after_each_mark", "not called for any of the " + std::to_string(nm) + " mark nodes\n" + how); }
	std::vector<UMM> ds; for (auto &d : cb.dom) { UMM m; if (d.sched) m = extract_um(c, p, d.sched.g()); ds.push_back(m); }
	std::vector<Pt> pars = p.pars(-1, 3); long nocc = 0, multi = 0; std::set<std::string> shape;
	std::function<void(const ANode &)> shp = [&](const ANode &q) { if (q.type == isl_ast_node_for) shape.insert("for"); if (q.type == isl_ast_node_if) shape.insert(q.ch.size() > 1 ? "if-else" : "if"); if (q.type == isl_ast_node_mark) shape.insert("mark"); for (auto &z : q.ch) shp(z); }; shp(n);
	for (auto &s : shape) c.label("ast-" + s);
	for (auto &par : pars) {
		if ((has_ctx && !ctxm.has(par)) || (has_tctx && !tctx.has(par))) continue;
		std::vector<Occ> want;
		if (mode == 0) { std::vector<std::pair<Inst, Tm>> act; for (auto &i : p.insts(par)) act.push_back({i, Tm()}); occ(tr, par, act, want, p.lo, p.hi + 1); }
		else for (auto &i : p.insts(par)) {
			size_t k = 0; while (tkey(p.st[k]) != i.k) ++k;
			std::vector<Tm> ts(1); if (two) ts[0].v.push_back({'t', k ? 1 : 0});
			// without group_coscheduled, instances at the same outer time may end up in different leaves
			size_t nj = mode == 2 && !o.group ? nt : tm[k].size();
			for (size_t j = 0; j < nj; ++j) { std::vector<Tm> r; mpq_class v = tm[k][j].eval(cat(par, i.x)); for (auto &t : ts) for (int w = 0; w <= wd[k][j]; ++w) { Tm u = t; u.v.push_back({'b', v + w}); r.push_back(u); } ts = r; }
			for (auto &t : ts) want.push_back({base(i.k), i.x, t});
		}
		// run
		std::vector<std::pair<std::string, Pt>> got; Interp in; Env env; for (int i = 0; i < p.np(); ++i) env[p.params[i]] = Z(par[i]);
		auto where = [&](const std::string &w) { return w + " at " + vp::str(par) + "\n" + how; };
		in.visit = [&](const ANode &u, const Env &e) {
			Call k = eval_call(u.e, e); got.push_back({k.name, k.x});
			if (got.size() > want.size() + 50) throw EvalErr{"too many instances executed"};
			if (u.note.size() > 1 && u.note[0] == 'd') {
				int di = atoi(u.note.c_str() + 1); auto &d = cb.dom[di];
				// the schedule of the build maps the instance to the iterations it is executed in
				bool ok = false; for (auto &m : ds[di].m) { if (base(m.first.first) != k.name) continue;
					Pt q = cat(par, k.x); MMap mm = m.second; std::vector<int> free; for (size_t i = 0; i < d.ids.size(); ++i) { auto it = e.find(d.ids[i]); if (it == e.end()) { free.push_back(i); q.push_back(0); } else q.push_back(it->second.get_si()); }
					if (q.size() != (size_t)(mm.np + mm.ni + mm.no)) continue;
					if (free.empty()) ok = mm.has(q); else { for (auto &cj : mm.d) { std::vector<std::pair<int, int64_t>> fx; int off = mm.np + mm.ni; for (int v = 0; v < off; ++v) fx.push_back({v, q[v]}); for (int i = 0; i < (int)d.ids.size(); ++i) if (std::find(free.begin(), free.end(), i) == free.end()) fx.push_back({off + i, q[off + i]}); if (sat(fix(cj, fx))) ok = true; } }
				}
				if (!ok) throw EvalErr{"isl_ast_build_get_schedule does not relate " + k.name + vp::str(k.x) + " to the current iterations: " + S(d.sched)};
				if (d.acc && d.stmt >= 0) {
					AExpr h = d.acc; AEx a = read_expr(c, h.g()); mpq_class ex = d.q.eval(cat(par, k.x)); AZ v;
					if (a.k == AEx::OP && a.op == isl_ast_expr_op_access) { Call g = eval_call(a, e); if (g.name != "A" || g.x.size() != 1) throw EvalErr{"access expression " + a.str()}; v = Z(g.x[0]); } else v = eval(a, e);
					if (mpq_class(v) != ex) throw EvalErr{"expression " + vp::S(d.acc.g()) + " = " + v.get_str() + " for " + k.name + vp::str(k.x) + ", the function is " + ex.get_str()};
				}
			}
		};
		c_division = true; try { in.run(n, env); } catch (EvalErr &e) { c.fail(e.what.find("dividend") != std::string::npos ? "pdiv" : "execution", where(e.what)); }
		nocc += want.size();
		// multiset comparison
		std::map<std::pair<std::string, Pt>, int> cnt; for (auto &w : want) cnt[{w.name, w.x}]++; for (auto &g : got) cnt[g]--;
		// the constraints on an extension may not be enforced completely, so the added instances may be executed more often
		bool xtra = false; for (auto &q : cnt) if (q.second < 0 && q.first.first[0] == 'X') xtra = true;
		if (xtra) {
			c.label("extension-extra");
			for (auto &w : want) if (w.name[0] == 'X') cnt[{w.name, w.x}] = std::max(0, cnt[{w.name, w.x}]);
			for (auto &q : cnt) if (q.second < 0 && q.first.first[0] == 'X') q.second = 0;
			want.erase(std::remove_if(want.begin(), want.end(), [](const Occ &o) { return o.name[0] == 'X'; }), want.end());
			got.erase(std::remove_if(got.begin(), got.end(), [](const std::pair<std::string, Pt> &o) { return o.first[0] == 'X'; }), got.end());
		}
		for (auto &q : cnt) if (q.second) c.fail(q.second > 0 ? "missing" : "extra", where(q.first.first + vp::str(q.first.second) + (q.second > 0 ? " is executed too few times" : " is executed too often")));
		// order
		if (want.size() > 1) {
			std::map<std::pair<std::string, Pt>, std::vector<int>> pos; for (size_t i = 0; i < got.size(); ++i) pos[got[i]].push_back(i);
			bool mult = false; for (auto &q : pos) if (q.second.size() > 1) mult = true;
			if (!mult) { for (auto &a : want) for (auto &d : want) if (cmp(a.t, d.t) == -1 && pos[{a.name, a.x}][0] > pos[{d.name, d.x}][0]) c.fail("order", where(str(a) + " is executed after " + str(d))); }
			else {
				// occurrences of one instance are interchangeable: match them in schedule order
				++multi; bool set_ = false; for (auto &w : want) for (auto &z : w.t.v) if (z.first == 't') set_ = true;
				if (!set_) {
					std::stable_sort(want.begin(), want.end(), [](const Occ &a, const Occ &d) { return cmp(a.t, d.t) == -1; });
					for (size_t i = 0; i < want.size();) { size_t j = i; std::multiset<std::pair<std::string, Pt>> A, G; while (j < want.size() && cmp(want[i].t, want[j].t) == 0) { A.insert({want[j].name, want[j].x}); G.insert(got[j]); ++j; } if (A != G) c.fail("order", where("instances executed at one time differ, first " + str(want[i]))); i = j; }
				}
			}
		}
	}
	if (c_division_used) { c.label("division-outside-domain"); c_division_used = 0; }
	if (multi) c.label("repeated-instances");
	c.nontrivial = nocc >= 6 && n.type != isl_ast_node_user;
}
} // namespace
Prop vp::the_prop = {"C24", "random programs with random schedule trees (bands, sequences, sets, marks, contexts, guards, extensions, loop types, isolate) or schedule relations (multi-valued, several spaces, separation classes, nested generation), random build options; the generated tree is interpreted for every parameter value in a box; non-trivial: at least 6 executed instances and a non-trivial tree", run, 20000, 400000};
