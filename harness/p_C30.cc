// C30: the parameter lists of the arguments do not influence what the result
// denotes.  The same random calls are made on objects with their own (partial,
// permuted, extended) parameter lists and on the same objects read with one
// common list; the results have to denote the same, over spaces with the same
// tuples and with every parameter exactly once.
#include "ops.h"
#include <set>
#include <algorithm>
using namespace vp;
namespace {
const char *PN[] = {"N", "M", "P", "Q"};
bool uses(const std::string &s, const std::string &p)
{
	for (size_t i = s.find(p); i != std::string::npos; i = s.find(p, i + 1)) {
		bool l = i > 0 && (isalnum((unsigned char)s[i - 1]) || s[i - 1] == '_'), r = i + 1 < s.size() && (isalnum((unsigned char)s[i + 1]) || s[i + 1] == '_');
		if (!l && !r) return true;
	}
	return false;
}
// replaces every parameter list "[N, M, P] -> "
std::string with_list(const std::string &s, const std::string &old, const std::vector<std::vector<std::string>> &lists)
{
	std::string o; size_t p = 0, q; int k = 0;
	while ((q = s.find(old, p)) != std::string::npos) {
		auto &l = lists[std::min<size_t>(k++, lists.size() - 1)];
		o += s.substr(p, q - p);
		if (!l.empty()) { o += "["; for (size_t i = 0; i < l.size(); ++i) o += (i ? ", " : "") + l[i]; o += "] -> "; }
		p = q + old.size();
	}
	return o + s.substr(p);
}
const std::set<std::string> types = {"set", "map", "union_set", "union_map", "pw_aff", "multi_aff", "pw_multi_aff", "multi_pw_aff", "union_pw_aff", "union_pw_multi_aff", "multi_union_pw_aff", "pw_qpolynomial", "pw_qpolynomial_fold", "union_pw_qpolynomial", "union_pw_qpolynomial_fold", "val", "multi_val", "id", "aff", "basic_set", "basic_map"};
bool allow(const Op &op)
{
	if (repr_op(op)) return false;
	if (op.ret != 'o' && op.ret != 'b') return false;
	if (op.ret == 'o' && !types.count(otypes[op.rtype].name)) return false;
	int nobj = 0;
	for (auto &a : op.args) {
		if ((a.kind == 't' || a.kind == 'k') && !types.count(otypes[a.type].name)) return false;
		if (a.kind == 't' || a.kind == 'k') ++nobj;
		// positions of parameters mean different things
		if (a.kind == 'd') return false;
	}
	if (!nobj) return false;
	static const char *const no[] = {"param", "has_equal_space", "has_equal_tuples", "_get_", "foreach", "_cmp", "read_from", "_flatten_", "lift", "_is_params", "universe", "dim_", "_n_", "involves_", "obviously", "_as_", "bounded_", "partial_lexopt", "has_space", "bind", "solutions"};
	for (auto n : no) if (strstr(op.name, n)) { if (strstr(op.name, "intersect_params") || strstr(op.name, "union_set_params") || !strcmp(op.name, "isl_set_params")) continue; return false; }
	return true;
}
// The documentation only says that many functions align the parameters: these
// reject arguments with different lists (which is not a wrong result).
bool may_reject(const Op &op)
{
	static const char *const pre[] = {"isl_basic_", "isl_aff_", "isl_multi_aff_lex_"};
	static const char *const in[] = {"_alloc", "multi_val_on_domain", "on_domain_multi_val", "fold_fold"};
	static const char *const eq[] = {"isl_map_sum", "isl_set_sum", "isl_pw_qpolynomial_mul"};
	for (auto p : pre) if (!strncmp(op.name, p, strlen(p))) return true;
	for (auto p : in) if (strstr(op.name, p)) return true;
	for (auto p : eq) if (!strcmp(op.name, p)) return true;
	return false;
}
std::vector<std::string> plist(Case &c, isl_space *sp)
{
	std::vector<std::string> r; int n = isl_space_dim(sp, isl_dim_param);
	for (int i = 0; i < n; ++i) { const char *s = isl_space_get_dim_name(sp, isl_dim_param, i); r.push_back(s ? s : "?"); }
	return r;
}
void run(Case &c)
{
	OCfg cfg; cfg.allow = &allow;
	isl_ctx_set_max_operations(c.ctx, 30000);
	OProg P, Q;
	Q.seeds = gen_seeds(c, 3);
	P.seeds = Q.seeds;
	std::string all = "[N, M, P] -> ", text;
	std::vector<std::string> common = {"N", "M", "P", "Q"};
	bool differ = false;
	for (size_t k = 0; k < P.seeds.size(); ++k) {
		std::string s = P.seeds[k].s;
		std::vector<std::vector<std::string>> ls;
		std::string body = with_list(s, all, {{}});
		bool drop = c.t.chance(2, 3), extra = c.t.chance(1, 4);
		for (int r = 0; r < 3; ++r) {
			std::vector<std::string> l;
			for (auto &p : common) if (uses(body, p) || (p == "Q" ? extra : !drop || c.t.chance(1, 6))) l.insert(l.begin() + c.t.below(l.size() + 1), p);
			ls.push_back(l);
		}
		P.seeds[k].s = with_list(s, all, ls);
		Q.seeds[k].s = with_list(s, all, {common});
		if (P.seeds[k].s != Q.seeds[k].s) differ = true;
		text += "$" + std::to_string(k) + ": " + otypes[P.seeds[k].type].name + " " + P.seeds[k].s + "\n    common " + Q.seeds[k].s + "\n";
	}
	OState A(c.ctx), Bs(c.ctx);
	load_seeds(c, P, A);
	load_seeds(c, Q, Bs);
	int n = 3 + c.t.below(8), done = 0;
	for (int k = 0; k < n; ++k) {
		Step s;
		if (!gen_step(c, P, A, cfg, s)) break;
		const Op &op = all_ops[s.op];
		s.out = op.ret == 'o' ? (int)A.p.size() : -1;
		text += show(P, s) + "\n";
		Step t = s;
		void *r = exec(P, A, s);
		std::string m1 = s.failed && isl_ctx_last_error_msg(c.ctx) ? isl_ctx_last_error_msg(c.ctx) : "";
		void *q = exec(Q, Bs, t);
		std::string m2 = t.failed && isl_ctx_last_error_msg(c.ctx) ? isl_ctx_last_error_msg(c.ctx) : "";
		auto drop = [&]() { if (r && op.ret == 'o') otypes[op.rtype].free(r); if (q && op.ret == 'o') otypes[op.rtype].free(q); r = q = nullptr; };
		c.step();
		if (s.failed || t.failed) {
			bool quota = (s.failed && s.err == isl_error_quota) || (t.failed && t.err == isl_error_quota);
			drop();
			if (quota) { c.label("quota"); continue; }
			// an optimum that is not attained depends on the representation
			if ((s.failed ? m1 : m2).find("expecting integer affine expression") != std::string::npos && strstr(op.name, "_val")) { c.label("not integer"); continue; }
			if (s.failed && !t.failed && may_reject(op)) { c.label("rejected"); continue; }
			if (s.failed != t.failed) {
				c.label(std::string("one-sided:") + op.name);
				c.fail("one-sided", std::string(op.name) + (s.failed ? " fails with different parameter lists: " + m1 : " only fails with a common parameter list: " + m2) + "\n" + text);
			}
			continue;
		}
		done++;
		c.label(std::string("op:") + op.name);
		if (op.ret == 'b') {
			if (s.r != t.r) c.fail("predicate", std::string(op.name) + " is " + std::to_string(s.r) + " and " + std::to_string(t.r) + " with a common parameter list\n" + text);
			continue;
		}
		if (!well_typed(c.ctx, op.rtype, r) || !well_typed(c.ctx, op.rtype, q)) { drop(); continue; }
		if (strstr(otypes[op.rtype].name, "aff") && otypes[op.rtype].space) {
			// a function "without domain" obtained from a parameter set has no tuple to map to
			Space a(otypes[op.rtype].space(r));
			if (isl_space_is_params(a.g()) == isl_bool_true && !strstr(otypes[op.rtype].name, "union")) { drop(); c.label("function in a parameter space"); continue; }
		}
		std::string rs = ostr(op.rtype, r), qs = ostr(op.rtype, q);
		text += "    " + rs + "\n";
		if (rs.size() > cfg.max_str || qs.size() > cfg.max_str || rs == "(no string)") { drop(); continue; }
		std::string msg;
		if (otypes[op.rtype].space) {
			Space a(otypes[op.rtype].space(r)), b(otypes[op.rtype].space(q));
			auto pl = plist(c, a.g());
			std::set<std::string> u(pl.begin(), pl.end());
			if (u.size() != pl.size()) msg = "parameter twice";
			for (auto &p : pl) if (std::find(common.begin(), common.end(), p) == common.end()) msg = "unexpected parameter " + p;
			isl_bool e = isl_space_has_equal_tuples(a.g(), b.g());
			if (e == isl_bool_false) msg = "different tuples";
		}
		if (msg.empty()) {
			int e = oequal(c.ctx, op.rtype, r, q);
			if (e == 0) msg = "different values";
			c.label(e == 1 ? "compared" : e == 0 ? "different" : "cannot tell");
			if (e == 1 && rs != qs) c.label("compared, other form");
		}
		if (msg.empty() && (!strcmp(otypes[op.rtype].name, "set") || !strcmp(otypes[op.rtype].name, "map"))) {
			// independent of the library: evaluation at points
			bool map = !strcmp(otypes[op.rtype].name, "map");
			MMap x = map ? extract(c, (isl_map *)r) : extract(c, (isl_set *)r), y = map ? extract(c, (isl_map *)q) : extract(c, (isl_set *)q);
			Space a(otypes[op.rtype].space(r)), b(otypes[op.rtype].space(q));
			auto pa = plist(c, a.g()), pb = plist(c, b.g());
			int nt = x.ni + x.no;
			Window w = make_window(4 + nt, 500);
			for (auto &p : w.pts) {
				auto mk = [&](const std::vector<std::string> &l) { Pt z; for (auto &s : l) z.push_back(p[std::find(common.begin(), common.end(), s) - common.begin()]); z.insert(z.end(), p.begin() + 4, p.end()); return z; };
				if (x.has(mk(pa)) != y.has(mk(pb))) { msg = "different values at " + str(p); break; }
			}
			c.label("points");
		}
		if (!msg.empty()) { drop(); c.fail("differs", std::string(op.name) + ": " + msg + "\nown lists    " + rs + "\ncommon list  " + qs + "\n" + text); }
		A.p.push_back(r); A.type.push_back(op.rtype); P.slot_type.push_back(op.rtype);
		Bs.p.push_back(q); Bs.type.push_back(op.rtype); Q.slot_type.push_back(op.rtype);
		P.steps.push_back(s); Q.steps.push_back(t);
	}
	c.log << text;
	if (done >= 2 && differ) c.nontrivial = true;
}
} // namespace
Prop vp::the_prop = {"C30", "random programs of 3-10 calls on objects with different parameter lists, compared with the same calls on the same objects over one common list; non-trivial: at least two calls succeeded and some object has a list of its own",
	run, 20000, 600000, 0};
