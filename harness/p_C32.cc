// C32: options select algorithms, not answers.
#include "ops.h"
#include <isl_options_private.h>

using namespace vp;
#define R_(e) R(c, e, #e)

struct Opts { unsigned context, gbr, gbr_only_first, closure; int recurse, triangulate, symmetry, convex, bounded, locals; };
static struct isl_options *O(isl_ctx *x) { return (struct isl_options *)isl_ctx_peek_options(x, &isl_options_args); }
static void get(isl_ctx *x, Opts &o)
{
	struct isl_options *p = O(x);
	o = {p->context, p->gbr, p->gbr_only_first, p->closure, p->bernstein_recurse, p->bernstein_triangulate, p->pip_symmetry, p->convex, p->coalesce_bounded_wrapping, p->coalesce_preserve_locals};
}
static void set(isl_ctx *x, const Opts &o)
{
	struct isl_options *p = O(x);
	p->context = o.context; p->gbr = o.gbr; p->gbr_only_first = o.gbr_only_first; p->closure = o.closure;
	p->bernstein_recurse = o.recurse; p->bernstein_triangulate = o.triangulate; p->pip_symmetry = o.symmetry;
	p->convex = o.convex; p->coalesce_bounded_wrapping = o.bounded; p->coalesce_preserve_locals = o.locals;
}

static bool has(const char *s, const char *t) { return strstr(s, t) != nullptr; }
// documented freedom in the result
static bool loose(const Op &op)
{
	const char *n = op.name;
	return has(n, "closure") || has(n, "power") || has(n, "path_lengths") || has(n, "sample") || has(n, "simple_hull") || has(n, "unshifted") || has(n, "gist") || has(n, "_hash") || has(n, "bound_") || has(n, "_n_") || has(n, "size") || has(n, "vertices") || has(n, "plain_") || has(n, "schedule") || repr_op(op);
}

static bool divs(isl_map *m)
{
	bool f = false;
	isl_map_foreach_basic_map(m, [](isl_basic_map *b, void *u) { if (isl_basic_map_dim(b, isl_dim_div) != 0) *(bool *)u = true; isl_basic_map_free(b); return isl_stat_ok; }, &f);
	return f;
}
static bool divs(void *p, int type)
{
	std::string n = otypes[type].name;
	if (n == "set" || n == "map") return divs((isl_map *)p);
	if (n == "basic_set" || n == "basic_map") return isl_basic_map_dim((isl_basic_map *)p, isl_dim_div) != 0;
	return has(n.c_str(), "union_") || has(n.c_str(), "pw_");
}

static void run(Case &c)
{
	OCfg cfg;
	OProg P;
	P.seeds = gen_seeds(c);
	isl_ctx_set_max_operations(c.ctx, 30000);
	Opts def, alt;
	get(c.ctx, def);
	alt = def;
	auto flip = [&](int p) { return c.t.chance(p, 100); };
	std::string how;
	if (flip(50)) { alt.context = ISL_CONTEXT_LEXMIN; how += " context=lexmin"; }
	if (flip(50)) { alt.gbr = c.t.below(2); how += " gbr=" + std::to_string(alt.gbr); }
	if (flip(40)) { alt.gbr_only_first = 1; how += " gbr-only-first"; }
	if (flip(50)) { alt.symmetry = 0; how += " no-pip-symmetry"; }
	if (flip(50)) { alt.convex = ISL_CONVEX_HULL_FM; how += " convex=fm"; }
	if (flip(40)) { alt.bounded = 0; how += " no-bounded-wrapping"; }
	if (flip(40)) { alt.locals = 1; how += " preserve-locals"; }
	if (flip(30)) { alt.closure = ISL_CLOSURE_BOX; how += " closure=box"; }
	if (flip(30)) { alt.recurse = c.t.below(4); how += " recurse=" + std::to_string(alt.recurse); }
	if (flip(30)) { alt.triangulate = 0; how += " no-triangulate"; }
	if (how.empty()) { alt.context = ISL_CONTEXT_LEXMIN; how = " context=lexmin"; }
	c.log << "options:" << how << "\n";
	OState A(c.ctx);
	load_seeds(c, P, A);
	for (size_t i = 0; i < A.p.size(); ++i) c.log << "$" << i << ": " << otypes[A.type[i]].name << " " << P.seeds[i].s << "\n";
	auto both = [&](const std::string &name, const std::function<int()> &f) { (void)name; (void)f; };
	(void)both;
	int n = 3 + c.t.below(9), done = 0;
	for (int k = 0; k < n; ++k) {
		Step s;
		if (!gen_step(c, P, A, cfg, s)) break;
		const Op &op = all_ops[s.op];
		Step t = s;
		s.out = op.ret == 'o' ? (int)A.p.size() : -1;
		c.log << show(P, s) << "\n";
		void *r = exec(P, A, s);
		set(c.ctx, alt);
		void *q = exec(P, A, t);
		set(c.ctx, def);
		isl_ctx_reset_operations(c.ctx);
		auto drop = [&] { if (q && op.ret == 'o') otypes[op.rtype].free(q); q = nullptr; };
		if (s.failed != t.failed) {
			bool quota = (s.failed ? s.err : t.err) == isl_error_quota;
			if (!quota && !loose(op)) c.fail("fails", std::string(op.name) + (t.failed ? " fails only with" : " fails only without") + how);
			drop();
			if (r && op.ret == 'o') otypes[op.rtype].free(r);
			continue;
		}
		if (s.failed) continue;
		c.label(std::string("op:") + op.name);
		c.step();
		done++;
		bool l = loose(op);
		// hulls of objects with existentially quantified variables are not unique
		if (has(op.name, "hull")) for (int o : s.obj) if (divs(A.p[o], A.type[o])) l = true;
		if (op.ret != 'o') {
			c.log << "    " << s.r << " " << s.str << "\n";
			if (!l && (s.r != t.r || s.str != t.str)) c.fail("answer", std::string(op.name) + " gives " + std::to_string(s.r) + s.str + " by default and " + std::to_string(t.r) + t.str + " with" + how);
			continue;
		}
		bool overlap = strstr(op.name, "gist") && strstr(op.name, "pw_");
		if (overlap || !well_typed(c.ctx, op.rtype, r) || !well_typed(c.ctx, op.rtype, q)) { otypes[op.rtype].free(r); drop(); continue; }
		std::string rs = ostr(op.rtype, r), qs = ostr(op.rtype, q);
		c.log << "    " << rs << "\n";
		if (!l && rs != qs) {
			c.label(std::string("other-form:") + op.name);
			c.nontrivial = true;
			isl_ctx_reset_operations(c.ctx);
			if (oequal(c.ctx, op.rtype, r, q) == 0) c.fail("value", std::string(op.name) + " gives\n" + rs + "\nby default and\n" + qs + "\nwith" + how);
		}
		drop();
		if (rs.size() > cfg.max_str || rs == "(no string)") { otypes[op.rtype].free(r); continue; }
		A.p.push_back(r);
		A.type.push_back(op.rtype);
		P.slot_type.push_back(op.rtype);
	}
	// operations in which the options matter
	for (size_t i = 0; i < A.p.size(); ++i) {
		if (!A.p[i] || !c.t.chance(1, 2)) continue;
		std::string tn = otypes[A.type[i]].name;
		bool ism = tn == "map";
		if (!ism && tn != "set") continue;
		isl_map *m = (isl_map *)A.p[i];
		auto cmp = [&](const char *what, const std::function<isl_map *(isl_map *)> &f) {
			isl_ctx_reset_operations(c.ctx); isl_ctx_reset_error(c.ctx);
			isl_map *a = f(isl_map_copy(m));
			int e1 = isl_ctx_last_error(c.ctx);
			set(c.ctx, alt);
			isl_ctx_reset_operations(c.ctx); isl_ctx_reset_error(c.ctx);
			isl_map *b = f(isl_map_copy(m));
			int e2 = isl_ctx_last_error(c.ctx);
			set(c.ctx, def);
			isl_ctx_reset_operations(c.ctx); isl_ctx_reset_error(c.ctx);
			if (!a != !b) {
				isl_map_free(a); isl_map_free(b);
				if (e1 != isl_error_quota && e2 != isl_error_quota) c.fail("fails", std::string(what) + " of $" + std::to_string(i) + (a ? " fails only with" : " fails only without") + how);
				return;
			}
			if (!a) return;
			done++;
			c.nontrivial = true;
			c.label(std::string("direct:") + what);
			int e = isl_map_is_equal(a, b);
			char *sa = isl_map_to_str(a), *sb = isl_map_to_str(b);
			std::string x = sa ? sa : "", y = sb ? sb : "";
			free(sa); free(sb);
			isl_map_free(a); isl_map_free(b);
			c.log << what << " $" << i << ": " << x << "\n";
			if (e == 0) c.fail("value", std::string(what) + " of $" + std::to_string(i) + " gives\n" + x + "\nby default and\n" + y + "\nwith" + how);
		};
		int w = c.t.below(64);
		if (w & 1) cmp("lexmin", isl_map_lexmin);
		if (w & 2) cmp("lexmax", isl_map_lexmax);
		if (w & 4) cmp("coalesce", isl_map_coalesce);
		if (w & 8) cmp("remove-divs", isl_map_compute_divs);
		if (w & 16) cmp("disjoint", isl_map_make_disjoint);
		if ((w & 32) && !divs(m)) cmp("convex-hull", [](isl_map *x) { return isl_map_from_basic_map(isl_map_convex_hull(x)); });
		// the closures are the same if they are both known to be exact
		if (ism && c.t.chance(1, 4)) {
			isl_bool e1 = isl_bool_false, e2 = isl_bool_false;
			isl_map *a = isl_map_transitive_closure(isl_map_copy(m), &e1);
			set(c.ctx, alt);
			isl_ctx_reset_operations(c.ctx);
			isl_map *b = isl_map_transitive_closure(isl_map_copy(m), &e2);
			set(c.ctx, def);
			isl_ctx_reset_operations(c.ctx); isl_ctx_reset_error(c.ctx);
			int e = a && b && e1 == 1 && e2 == 1 ? isl_map_is_equal(a, b) : 1;
			isl_map_free(a); isl_map_free(b);
			c.label("direct:closure");
			if (e == 0) c.fail("closure", "exact transitive closures of $" + std::to_string(i) + " differ with" + how);
		}
	}
	if (done >= 3) c.nontrivial = true;
}

Prop vp::the_prop = {"C32", "random programs over the public functions, every call made with default and with generated options, plus parametric integer programming, coalescing, hulls and closures of the objects made; non-trivial: at least 3 calls succeeded with both, or the two results have a different form",
	run, 30000, 400000, 0};
