// C25: AST expressions and their printed C text compute the right value.
#include "ast.h"
#include <isl/id_to_ast_expr.h>
#include <algorithm>
#define R_(e) R(c, e, #e)
using namespace vp;
namespace vp { VP_TRAIT(isl_id_to_ast_expr) VP_TRAIT(isl_ast_print_options) }
namespace {
const char *PN[] = {"n", "m", "p"};

// a condition: union of conjunctions of constraints on expressions
struct Cond { std::vector<std::vector<std::pair<int, QE>>> d;   // 0: >= 0, 1: == 0
	bool eval(const Pt &p) const { for (auto &x : d) { bool ok = true; for (auto &k : x) { mpq_class v = k.second.eval(p); if (k.first ? v != 0 : v < 0) ok = false; } if (ok) return true; } return false; }
	isl_set *build(Case &c, isl_space *sp) const {
		Set r = R_(isl_set_empty(isl_space_copy(sp)));
		for (auto &x : d) { Set s = R_(isl_set_universe(isl_space_copy(sp))); for (auto &k : x) { PwAff f = R_(k.second.build(c, sp)); Set q = R_(k.first ? isl_pw_aff_zero_set(f.r()) : isl_pw_aff_nonneg_set(f.r())); if (isl_space_is_params(sp)) q = R_(isl_set_params(q.r())); s = R_(isl_set_intersect(s.r(), q.r())); } r = R_(isl_set_union(r.r(), s.r())); }
		return r.r();
	}
};
Cond gen_cond(Case &c, int nv, int md, int mk)
{
	Cond r; int n = 1 + c.t.below(md);
	for (int i = 0; i < n; ++i) { std::vector<std::pair<int, QE>> x; int k = c.t.below(mk + 1); for (int j = 0; j < k; ++j) { int w = c.t.chance(1, 3); x.push_back({w, gen_qe(c, nv, 2, c.t.chance(1, 5))}); } r.d.push_back(x); }
	return r;
}
Env env_of(const std::vector<std::string> &nm, const Pt &p) { Env e; for (size_t i = 0; i < nm.size(); ++i) e[nm[i]] = Z(p[i]); return e; }

// one request to the build: an expression together with what it has to compute
// no expression can be generated for a function without domain
isl_ast_expr *not_void(Case &c, isl_ast_expr *e, bool allowed)
{
	const char *m = e ? nullptr : isl_ctx_last_error_msg(c.ctx);
	if (m && std::string(m).find("void expression") != std::string::npos && allowed) c.discard("void");
	return e;
}
struct Req { AExpr e; int kind; std::vector<QE> f; Cond cond; Cond dom; bool has_dom = false; bool access; std::vector<int> grp; std::string text; AEx x, cx; std::vector<std::string> it; };

Req make_req(Case &c, isl_ast_build *b, isl_space *sp, int nv, isl_set *ctx)
{
	Req r; r.kind = c.t.weighted({4, 4, 2, 1});
	bool params = isl_space_is_params(sp);
	if (r.kind == 0) { r.cond = gen_cond(c, nv, 3, 3); Set s = R_(r.cond.build(c, sp)); if (c.t.chance(1, 3)) s = R_(isl_set_coalesce(s.r())); r.text = "set " + S(s); r.e = R_(isl_ast_build_expr_from_set(b, s.r())); }
	else if (r.kind == 1) {
		r.f = {gen_qe(c, nv, 3, true)}; PwAff f = R_(r.f[0].build(c, sp));
		if ((r.has_dom = c.t.chance(1, 3))) { r.dom = gen_cond(c, nv, 2, 2); f = R_(isl_pw_aff_intersect_domain(f.r(), r.dom.build(c, sp))); }
		if (c.t.chance(1, 4)) f = R_(isl_pw_aff_coalesce(f.r()));
		bool nil = r.has_dom; if (ctx) { Set q = R_(isl_pw_aff_domain(f.c())); q = R_(isl_set_intersect(q.r(), isl_set_copy(ctx))); nil = B(c, isl_set_is_empty(q.g()), "isl_set_is_empty"); }
		r.text = "function " + S(f); r.e = R_(not_void(c, isl_ast_build_expr_from_pw_aff(b, f.r()), nil));
	} else {
		r.access = c.t.chance(1, 2); int k = c.t.below(4);
		bool nest = !params && r.access && k >= 2 && c.t.chance(1, 3);
		isl_pw_aff_list *l = isl_pw_aff_list_alloc(c.ctx, k);
		for (int i = 0; i < k; ++i) { r.f.push_back(gen_qe(c, nv, 2, r.kind == 3 || c.t.chance(1, 3))); l = isl_pw_aff_list_add(l, r.f.back().build(c, sp)); }
		isl_space *os = isl_space_copy(sp); if (params) os = isl_space_set_from_params(os);
		isl_space *ms; std::string nm = "F";
		if (nest) {   // [A[..] -> f[..]]
			isl_space *pr = isl_space_params(isl_space_copy(sp));
			isl_space *a = isl_space_set_tuple_name(isl_space_add_dims(isl_space_set_from_params(isl_space_copy(pr)), isl_dim_set, 1), isl_dim_set, "F"), *d = isl_space_set_tuple_name(isl_space_add_dims(isl_space_set_from_params(pr), isl_dim_set, k - 1), isl_dim_set, "fld");
			isl_space *w = isl_space_wrap(isl_space_map_from_domain_and_range(a, d)); ms = isl_space_map_from_domain_and_range(os, w);
			r.grp = {1, k - 1};
		} else { isl_space *o = isl_space_params(isl_space_copy(sp)); o = isl_space_set_from_params(o); o = isl_space_add_dims(o, isl_dim_set, k); o = isl_space_set_tuple_name(o, isl_dim_set, "F"); ms = isl_space_map_from_domain_and_range(os, o); }
		isl_multi_pw_aff *m;
		if (params) { // functions of the parameters only
			isl_space_free(isl_space_copy(ms)); m = isl_multi_pw_aff_from_pw_aff_list(isl_space_range(ms), l);
		} else m = isl_multi_pw_aff_from_pw_aff_list(ms, l);
		H<isl_multi_pw_aff> M = R_(m); r.text = (r.access ? "access " : "call ") + S(M);
		bool nil = ctx && B(c, isl_set_is_empty(ctx), "isl_set_is_empty");
		if (r.kind == 3) r.e = R_(not_void(c, r.access ? isl_ast_build_access_from_multi_pw_aff(b, M.r()) : isl_ast_build_call_from_multi_pw_aff(b, M.r()), nil));
		else { H<isl_pw_multi_aff> P = R_(isl_pw_multi_aff_from_multi_pw_aff(M.r())); r.e = R_(not_void(c, r.access ? isl_ast_build_access_from_pw_multi_aff(b, P.r()) : isl_ast_build_call_from_pw_multi_aff(b, P.r()), nil)); }
	}
	r.x = read_expr(c, r.e.g()); r.text += "\nexpression " + S(r.e.g());
	try { r.cx = parse_c_expr(S(r.e.g())); } catch (EvalErr &e) { c.fail("C text", e.what + "\n" + r.text); }
	return r;
}
void collect(const AEx &e, std::vector<AEx> &g, std::vector<std::string> &nm)
{
	// F[..] / F(..) / F[..].fld[..] -> argument groups
	if (e.k == AEx::OP && e.op == isl_ast_expr_op_access && !e.a.empty()) {
		if (e.a[0].k == AEx::OP && e.a[0].op == isl_ast_expr_op_member) { collect(e.a[0].a[0], g, nm); nm.push_back(e.a[0].a[1].id); }
		else if (e.a[0].k == AEx::ID) nm.push_back(e.a[0].id); else throw EvalErr{"array " + e.a[0].str()};
		for (size_t i = 1; i < e.a.size(); ++i) g.push_back(e.a[i]);
	} else if (e.k == AEx::OP && e.op == isl_ast_expr_op_call && e.a[0].k == AEx::ID) { nm.push_back(e.a[0].id); for (size_t i = 1; i < e.a.size(); ++i) g.push_back(e.a[i]); }
	else if (e.k == AEx::OP && e.op == isl_ast_expr_op_member) { collect(e.a[0], g, nm); nm.push_back(e.a[1].id); }
	else if (e.k == AEx::ID) nm.push_back(e.id);
	else throw EvalErr{"not an access: " + e.str()};
}
// value at a point of the context; strict evaluation of the tree and C evaluation of the text
void check_req(Case &c, const Req &r, const Pt &pt, const Env &env, const std::string &how)
{
	c.step();
	for (int m = 0; m < 2; ++m) {
		const AEx &x = m ? r.cx : r.x; c_division = m;
		auto bad = [&](const std::string &w) { c_division = false; c.fail(m ? "C text" : r.kind == 0 ? "condition" : r.kind == 1 ? "value" : "access", w + " at " + vp::str(pt) + "\n" + r.text + "\n" + how); };
		try {
			if (r.kind == 0) { bool got = eval(x, env) != 0, want = r.cond.eval(pt); if (got != want) bad(std::string("evaluates to ") + (got ? "true" : "false")); c.label(want ? "holds" : "holds-not"); }
			else if (r.kind == 1) { if (r.has_dom && !r.dom.eval(pt)) { c.label("outside-domain"); continue; } AZ got = eval(x, env); mpq_class want = r.f[0].eval(pt); if (mpq_class(got) != want) bad("evaluates to " + got.get_str() + " instead of " + want.get_str()); }
			else {
				std::vector<AEx> g; std::vector<std::string> nm; collect(x, g, nm);
				if (nm.empty() || nm[0] != "F" || (r.grp.empty() ? nm.size() != 1 : nm.size() != 2 || nm[1] != "fld")) bad("names in the access");
				if (g.size() != r.f.size()) bad("number of arguments");
				for (size_t i = 0; i < g.size(); ++i) { AZ v = eval(g[i], env); mpq_class w = r.f[i].eval(pt); if (mpq_class(v) != w) bad("argument " + std::to_string(i) + " is " + v.get_str() + " instead of " + w.get_str()); }
			}
		} catch (EvalErr &e) { bad(e.what); }
	}
	c_division = false;
}

// ---------------------------------------------------------------- expressions assembled by hand
AEx gen_x(Case &c, const std::vector<std::string> &ids, int d, bool boolean);
AExpr build_x(Case &c, const AEx &e)
{
	if (e.k == AEx::INT) return R_(isl_ast_expr_from_val(mkval(c.ctx, e.v)));
	if (e.k == AEx::ID) return R_(isl_ast_expr_from_id(isl_id_alloc(c.ctx, e.id.c_str(), nullptr)));
	std::vector<AExpr> a; for (auto &x : e.a) a.push_back(build_x(c, x));
	switch (e.op) {
#define B2(o, f) case isl_ast_expr_op_##o: return R_(isl_ast_expr_##f(a[0].r(), a[1].r()));
	B2(add, add) B2(sub, sub) B2(mul, mul) B2(div, div) B2(pdiv_q, pdiv_q) B2(pdiv_r, pdiv_r) B2(and, and) B2(and_then, and_then) B2(or, or) B2(or_else, or_else) B2(le, le) B2(lt, lt) B2(ge, ge) B2(gt, gt) B2(eq, eq)
	case isl_ast_expr_op_minus: return R_(isl_ast_expr_neg(a[0].r()));
	case isl_ast_expr_op_call: case isl_ast_expr_op_access: {
		isl_ast_expr_list *l = isl_ast_expr_list_alloc(c.ctx, a.size()); for (size_t i = 1; i < a.size(); ++i) l = isl_ast_expr_list_add(l, a[i].r());
		return R_(e.op == isl_ast_expr_op_call ? isl_ast_expr_call(a[0].r(), l) : isl_ast_expr_access(a[0].r(), l)); }
	case isl_ast_expr_op_address_of: return R_(isl_ast_expr_address_of(a[0].r()));
	default: c.fail("harness", "op"); 
	}
}
AEx op(enum isl_ast_expr_op_type o, std::vector<AEx> a) { AEx r; r.k = AEx::OP; r.op = o; r.a = std::move(a); return r; }
AEx gen_x(Case &c, const std::vector<std::string> &ids, int d, bool boolean)
{
	AEx r;
	if (boolean) {
		int k = d <= 0 ? 4 + c.t.below(5) : c.t.below(9);
		static const enum isl_ast_expr_op_type BO[] = {isl_ast_expr_op_and, isl_ast_expr_op_and_then, isl_ast_expr_op_or, isl_ast_expr_op_or_else, isl_ast_expr_op_le, isl_ast_expr_op_lt, isl_ast_expr_op_ge, isl_ast_expr_op_gt, isl_ast_expr_op_eq};
		bool sub = k < 4; AEx x = gen_x(c, ids, d - 1, sub); AEx y = gen_x(c, ids, d - 1, sub); return op(BO[k], {x, y});
	}
	int k = d <= 0 ? c.t.weighted({2, 3}) : c.t.weighted({1, 2, 3, 3, 3, 1, 2, 2, 2});
	if (k == 0) { r.v = c.t.range(-9, 9); if (c.t.chance(1, 10)) r.v *= AZ("12345678901234567890"); return r; }
	if (k == 1) { r.k = AEx::ID; r.id = ids[c.t.below(ids.size())]; return r; }
	AEx x = gen_x(c, ids, d - 1, false);
	if (k == 5) return op(isl_ast_expr_op_minus, {x});
	AEx y; if (k >= 6) y.v = 1 + c.t.below(6); else y = gen_x(c, ids, d - 1, false);
	static const enum isl_ast_expr_op_type NO[] = {isl_ast_expr_op_error, isl_ast_expr_op_error, isl_ast_expr_op_add, isl_ast_expr_op_sub, isl_ast_expr_op_mul, isl_ast_expr_op_error, isl_ast_expr_op_div, isl_ast_expr_op_pdiv_q, isl_ast_expr_op_pdiv_r};
	if (k >= 7) x = op(isl_ast_expr_op_mul, {x, x});       // the dividend of a pdiv is non-negative
	if (k == 6) { AEx z; z.v = y.v; x = op(isl_ast_expr_op_mul, {x, z}); }
	return op(NO[k], {x, y});
}
bool same(const AEx &a, const AEx &b) { if (a.k != b.k || a.id != b.id || (a.k == AEx::INT && a.v != b.v) || (a.k == AEx::OP && a.op != b.op) || a.a.size() != b.a.size()) return false; for (size_t i = 0; i < a.a.size(); ++i) if (!same(a.a[i], b.a[i])) return false; return true; }
AEx subst(const AEx &e, const std::map<std::string, AEx> &m) { if (e.k == AEx::ID) { auto it = m.find(e.id); return it == m.end() ? e : it->second; } AEx r = e; for (auto &x : r.a) x = subst(x, m); return r; }
void hand(Case &c)
{
	std::vector<std::string> ids = {"x", "y", "A"}; ids.resize(1 + c.t.below(3));
	bool bo = c.t.chance(1, 2), call = c.t.chance(1, 6);
	AEx e = gen_x(c, ids, 1 + c.t.below(4), bo);
	if (call) { AEx f; f.k = AEx::ID; f.id = "fun"; e = op(c.t.chance(1, 2) ? isl_ast_expr_op_call : isl_ast_expr_op_access, {f, e, gen_x(c, ids, 2, false)}); if (e.op == isl_ast_expr_op_access && c.t.chance(1, 3)) e = op(isl_ast_expr_op_address_of, {e}); }
	AExpr E = build_x(c, e); c.log << e.str() << "\n" << S(E.g()) << "\n"; std::string how = e.str() + "\n" + S(E.g());
	if (!same(read_expr(c, E.g()), e)) c.fail("built expression", read_expr(c, E.g()).str() + " instead of " + how);
	AExpr E2 = build_x(c, e);
	if (!B(c, isl_ast_expr_is_equal(E.g(), E2.g()), "isl_ast_expr_is_equal")) c.fail("isl_ast_expr_is_equal", "two equal expressions differ: " + how);
	AEx f = gen_x(c, ids, 2, bo); AExpr F = build_x(c, f);
	if (B(c, isl_ast_expr_is_equal(E.g(), F.g()), "isl_ast_expr_is_equal") != same(e, f)) c.fail("isl_ast_expr_is_equal", how + "\nand " + S(F.g()));
	AEx cur = e;
	if (c.t.chance(1, 2)) {   // substitution
		std::map<std::string, AEx> m; isl_id_to_ast_expr *h = isl_id_to_ast_expr_alloc(c.ctx, 2);
		for (auto &i : ids) if (c.t.chance(1, 2)) { AEx v = gen_x(c, ids, 1, false); m[i] = v; h = isl_id_to_ast_expr_set(h, isl_id_alloc(c.ctx, i.c_str(), nullptr), build_x(c, v).r()); }
		E2 = R_(isl_ast_expr_substitute_ids(E.c(), h)); cur = subst(e, m);
		if (!same(read_expr(c, E2.g()), cur)) c.fail("isl_ast_expr_substitute_ids", read_expr(c, E2.g()).str() + " instead of " + cur.str() + "\n" + how);
		if (!same(read_expr(c, E.g()), e)) c.fail("isl_ast_expr_substitute_ids", "changes its argument: " + how);
		c.label("substitute");
	} else if (e.k == AEx::OP && c.t.chance(1, 2)) {
		int p = c.t.below(e.a.size()); if (call && p == 0) p = e.a.size() - 1;
		bool sub = e.op == isl_ast_expr_op_and || e.op == isl_ast_expr_op_and_then || e.op == isl_ast_expr_op_or || e.op == isl_ast_expr_op_or_else;
		AEx v = gen_x(c, ids, 1, sub); cur.a[p] = v; E2 = R_(isl_ast_expr_set_op_arg(E.c(), p, build_x(c, v).r()));
		if (!same(read_expr(c, E2.g()), cur)) c.fail("isl_ast_expr_set_op_arg", read_expr(c, E2.g()).str() + " instead of " + cur.str());
		if (!same(read_expr(c, E.g()), e)) c.fail("isl_ast_expr_set_op_arg", "changes its argument: " + how);
	}
	// the printed C text computes the same
	AEx t; std::string txt = S(E2.g());
	try { t = parse_c_expr(txt); } catch (EvalErr &q) { c.fail("C text", q.what + "\n" + txt + "\nof " + cur.str()); }
	for (int k = 0; k < 12; ++k) {
		Env env; for (auto &i : ids) env[i] = AZ(c.t.range(-7, 7));
		auto val = [&](const AEx &x, bool cs) -> std::string { c_division = cs; std::string r; try { if (call) { AEx y = x; if (y.k == AEx::OP && y.op == isl_ast_expr_op_address_of) { r = "&"; y = y.a[0]; } Call q = eval_call(y, env); r += q.name + vp::str(q.x); } else r = eval(x, env).get_str(); } catch (EvalErr &q) { r = "!" + q.what; } c_division = false; return r; };
		std::string a = val(cur, false), b = val(t, true); if (a[0] == '!') { c.label("undefined"); continue; }
		c.step(); if (a != b) { std::string at; for (auto &q : env) at += " " + q.first + "=" + q.second.get_str(); c.fail("C text", txt + " evaluates to " + b + " but " + cur.str() + " is " + a + " at" + at); }
	}
	c.nontrivial = e.k == AEx::OP && e.str().size() > 20; c.label("by-hand");
}

struct CB { Case *c; std::vector<Req> req; std::string err; bool loop = true; };
isl_ast_node *at_domain(isl_ast_node *node, isl_ast_build *build, void *v)
{
	CB *b = (CB *)v; Case &c = *b->c; ANode_ n(node);
	try {
		if (b->req.size() < 4) {
			Space sp = R_(isl_ast_build_get_schedule_space(build));
			int np = N(c, isl_space_dim(sp.g(), isl_dim_param), "dim"), k = N(c, isl_space_dim(sp.g(), isl_dim_set), "dim");
			std::vector<std::string> nm; for (int i = 0; i < k; ++i) { const char *s = isl_space_get_dim_name(sp.g(), isl_dim_set, i); nm.push_back(s ? s : ""); }
			Req r = make_req(c, build, sp.g(), np + k, nullptr); r.it = nm;
			b->req.push_back(r);
			n = R_(isl_ast_node_set_annotation(n.r(), isl_id_alloc(c.ctx, ("r" + std::to_string(b->req.size() - 1)).c_str(), nullptr)));
		}
		return n.r();
	} catch (FailEx &e) { b->err = e.kind + ": " + e.msg; } catch (DiscardEx &e) { b->err = "discard " + e.why; }
	return nullptr;
}

void run(Case &c)
{
	int mode = c.t.weighted({3, 3, 2});
	if (mode == 2) { hand(c); return; }
	isl_ctx *x = c.ctx; std::string opts;
	auto opt = [&](const char *n, isl_stat (*f)(isl_ctx *, int)) { if (c.t.chance(1, 3)) { int v = c.t.below(2); f(x, v); opts += std::string(" ") + n + "=" + std::to_string(v); } };
#define O(n) opt(#n, isl_options_set_ast_build_##n)
	O(atomic_upper_bound); O(prefer_pdiv); O(detect_min_max); O(exploit_nested_bounds); O(scale_strides); O(allow_else); O(allow_or);
#undef O
	opt("always_print_block", isl_options_set_ast_always_print_block); opt("print_outermost_block", isl_options_set_ast_print_outermost_block);
	if (mode == 0) {
		int np = 1 + c.t.below(3);
		Space sp = R_(isl_space_params_alloc(x, np)); std::vector<std::string> nm;
		for (int i = 0; i < np; ++i) { nm.push_back(PN[i]); sp = R_(isl_space_set_dim_name(sp.r(), isl_dim_param, i, PN[i])); }
		Cond ctx = gen_cond(c, np, 2, 3); Set cs = R_(ctx.build(c, sp.g()));
		std::string how = "context " + S(cs) + " options" + opts;
		ABuild b = R_(isl_ast_build_from_context(cs.c()));
		if (c.t.chance(1, 4)) { Cond k2 = gen_cond(c, np, 2, 2); Set r2 = R_(k2.build(c, sp.g())); how += " restrict " + S(r2); cs = R_(isl_set_intersect(cs.r(), r2.c())); b = R_(isl_ast_build_restrict(b.r(), r2.r())); for (auto &d : k2.d) (void)d; Cond both; for (auto &d : ctx.d) for (auto &e : k2.d) { auto z = d; z.insert(z.end(), e.begin(), e.end()); both.d.push_back(z); } ctx = both; }
		c.log << how << "\n";
		Req r = make_req(c, b.g(), sp.g(), np, cs.g()); c.log << r.text << "\n";
		Window w = make_window(np, 350); long in = 0;
		for (auto &p : w.pts) { if (!ctx.eval(p)) continue; ++in; check_req(c, r, p, env_of(nm, p), how); }
		c.label("parameters"); c.nontrivial = in >= 5 && r.x.k == AEx::OP && r.x.str().size() > 12;
		return;
	}
	// inside generated code
	ProgOpt po; po.box = 2 + c.t.below(3); po.max_par = 2; po.max_st = 2; po.max_d = 2;
	Prog p = gen_prog(c, po);
	UMap s = R_(isl_union_map_empty(p.pspace(c)));
	int nt = 1 + c.t.below(2);
	for (size_t i = 0; i < p.st.size(); ++i) {
		isl_pw_aff_list *l = isl_pw_aff_list_alloc(x, nt);
		for (int j = 0; j < nt; ++j) { QE q; if (p.st[i].dim() && c.t.chance(3, 4)) { q.k = QE::VAR; q.var = p.np() + c.t.below(p.st[i].dim()); if (c.t.chance(1, 3)) { QE k; k.k = QE::MULC; k.c = c.t.range(1, 4); k.ch = {q}; QE a; a.k = QE::ADD; QE z; z.c = c.t.range(-2, 2); a.ch = {k, z}; q = a; } } else q = gen_qe(c, p.np() + p.st[i].dim(), 1, false); l = isl_pw_aff_list_add(l, q.build(c, mk_space(c, p.sp(i)))); }
		Sp sp; sp.params = p.params; sp.in = p.st[i]; sp.out = mk_tup("", nt); sp.is_map = true;
		Map m = R_(isl_map_from_multi_pw_aff(isl_multi_pw_aff_from_pw_aff_list(mk_space(c, sp), l)));
		s = R_(isl_union_map_add_map(s.r(), m.r()));
	}
	s = R_(isl_union_map_intersect_domain(s.r(), p.dom.c()));
	std::string how = p.text + "options" + opts + "\nschedule " + S(s) + "\n"; c.log << how;
	ABuild b = R_(isl_ast_build_alloc(x)); CB cb; cb.c = &c;
	if (c.t.chance(1, 2)) b = R_(isl_ast_build_set_at_each_domain(b.r(), &at_domain, &cb));
	if (c.t.chance(1, 3)) { static const char *UO[] = {"unroll", "separate", "atomic"}; std::string o = std::string("{ [") + (nt == 1 ? "i" : "i,j") + "] -> " + UO[c.t.below(3)] + "[" + std::to_string(c.t.below(nt)) + "] }"; how += o; b = R_(isl_ast_build_set_options(b.r(), isl_union_map_read_from_str(x, o.c_str()))); }
	isl_ast_node *nn = isl_ast_build_node_from_schedule_map(b.g(), s.c());
	if (!cb.err.empty()) { if (cb.err.compare(0, 7, "discard") == 0) c.discard(cb.err.substr(8)); c.fail("callback", cb.err + "\n" + how); }
	if (!nn) { std::string m = isl_ctx_last_error_msg(x) ? isl_ctx_last_error_msg(x) : ""; if (m.find("unrolling") != std::string::npos) c.discard("cannot-unroll"); on_error(c, "isl_ast_build_node_from_schedule_map"); }
	ANode_ ast(nn); ANode n = read_node(c, ast.g()); std::string txt = S(ast.g()); how += txt; ANode t;
	try { t = parse_c_node(txt); } catch (EvalErr &e) { c.fail("C text", e.what + "\n" + how); }
	// macros
	if (c.t.chance(1, 2)) {
		isl_printer *pr = isl_printer_set_output_format(isl_printer_to_str(x), ISL_FORMAT_C);
		static const enum isl_ast_expr_op_type MO[] = {isl_ast_expr_op_min, isl_ast_expr_op_max, isl_ast_expr_op_fdiv_q}; static const char *DN[] = {"min", "max", "floord"}; std::string mn[3];
		bool ren = c.t.chance(1, 2); for (int i = 0; i < 3; ++i) { mn[i] = DN[i]; if (ren && c.t.chance(1, 2)) { mn[i] = std::string("my_") + DN[i]; pr = isl_ast_expr_op_type_set_print_name(pr, MO[i], mn[i].c_str()); } }
		pr = isl_ast_node_print_macros(ast.g(), pr); std::string mac = take_str(isl_printer_get_str(pr)); pr = isl_printer_flush(pr);
		pr = isl_ast_node_print(ast.g(), pr, isl_ast_print_options_alloc(x)); std::string all = take_str(isl_printer_get_str(pr)); isl_printer_free(pr);
		std::string body = all.substr(0, mac.size()) == mac ? all.substr(mac.size()) : all;
		for (int i = 0; i < 3; ++i) { bool used = false; for (size_t q = body.find(mn[i] + "("); q != std::string::npos; q = body.find(mn[i] + "(", q + 1)) if (q == 0 || !(isalnum(body[q - 1]) || body[q - 1] == '_')) used = true;
			bool def = mac.find("#define " + mn[i] + "(") != std::string::npos;
			if (used != def) c.fail("isl_ast_node_print_macros", mn[i] + (used ? " is used but not defined" : " is defined but not used") + "\n" + mac + body + "\n" + how); }
		std::string q = body; for (int i = 0; i < 3; ++i) if (mn[i] != DN[i]) for (size_t z; (z = q.find(mn[i])) != std::string::npos;) q.replace(z, mn[i].size(), DN[i]);
		auto ws = [](const std::string &s) { std::string r; for (char z : s) if (!isspace((unsigned char)z)) r += z; return r; };
		if (ws(q) != ws(txt)) c.fail("isl_ast_node_print", body + "\ninstead of\n" + how); c.label("macros");
	}
	long cnt = 0, reqs = 0;
	for (auto &par : p.pars(-1, 3)) {
		Env env; for (int i = 0; i < p.np(); ++i) env[p.params[i]] = Z(par[i]); Env e2 = env;
		std::vector<std::string> a, d; Interp ia, ib; c_division = true;
		ia.visit = [&](const ANode &u, const Env &e) {
			Call k = eval_call(u.e, e); a.push_back(k.name + vp::str(k.x)); if (a.size() > 3000) throw EvalErr{"too many"};
			if (u.note.size() > 1 && u.note[0] == 'r') {
				const Req &r = cb.req[atoi(u.note.c_str() + 1)]; Pt pt = par; bool ok = true;
				for (auto &nm : r.it) { auto it = e.find(nm); if (it == e.end()) { ok = false; break; } pt.push_back(it->second.get_si()); }
				if (ok) { ++reqs; check_req(c, r, pt, e, how); c_division = true; } else c.label("degenerate-iterator");
			}
		};
		ib.visit = [&](const ANode &u, const Env &e) { Call k = eval_call(u.e, e); d.push_back(k.name + vp::str(k.x)); if (d.size() > 3000) throw EvalErr{"too many"}; };
		try { ia.run(n, env); ib.run(t, e2); } catch (EvalErr &e) { c_division = false; c.fail("C text", e.what + " at " + vp::str(par) + "\n" + how); }
		c_division = false; cnt += a.size();
		if (a != d) c.fail("C text", "the printed code executes other instances than the tree at " + vp::str(par) + "\n" + how);
	}
	c_division_used = 0;
	c.label("code"); if (reqs) c.label("in-loop-expressions"); c.nontrivial = cnt >= 6;
}
} // namespace
Prop vp::the_prop = {"C25", "conditions, values, calls and accesses generated from random sets and piecewise functions under a random context or inside generated loops, hand-assembled expressions, printed C text parsed back; each evaluated at every point of a window inside the context; non-trivial: at least 5 points and an operator tree, or 6 executed instances", run, 40000, 1200000};
