#include "ops.h"
#include <fnmatch.h>
#include "gen.h"
#include <isl/fixed_box.h>
#include <isl/flow.h>
#include <isl/ilp.h>
#include <isl/stride_info.h>
#include <isl/vertices.h>
#include <cstring>
#include <algorithm>

namespace vp {

const std::vector<OType> otypes = {
#define OPS_TYPES
#include "ops_table.inc"
#undef OPS_TYPES
};
const std::vector<Op> all_ops = {
#define OPS_OPS
#include "ops_table.inc"
#undef OPS_OPS
};
int type_of(const std::string &name)
{
	for (size_t i = 0; i < otypes.size(); ++i) if (name == otypes[i].name) return (int)i;
	return -1;
}
// Functions that are not called: documented as unsafe, needing preconditions
// that the function does not check, or exposing the representation.
static const char *const excluded[] = {
#include "ops_excluded.inc"
	nullptr
};
static bool in_list(const char *const *l, const char *n)
{
	for (int i = 0; l[i]; ++i) {
		if (!fnmatch(l[i], n, 0)) return true;
	}
	return false;
}
static bool is_excluded(const char *n)
{
	return in_list(excluded, n);
}
// Functions that do not check that their arguments live in the same space.
static const char *const same_space[] = {
#include "ops_same_space.inc"
	nullptr
};
static bool same_spaces(const OState &st, const Op &op, const Step &s)
{
	if (!in_list(same_space, op.name)) return true;
	isl_space *first = nullptr;
	bool ok = true;
	for (int o : s.obj) {
		if (!otypes[st.type[o]].space) continue;
		isl_space *sp = otypes[st.type[o]].space(st.p[o]);
		if (!first) { first = sp; continue; }
		if ((strstr(op.name, "_basic_") ? isl_space_is_equal(first, sp) : isl_space_has_equal_tuples(first, sp)) != isl_bool_true) ok = false;
		isl_space_free(sp);
	}
	isl_space_free(first);
	isl_ctx_reset_error(st.ctx);
	return ok;
}
static std::vector<std::vector<int>> by_type;
static std::vector<int> ctors;
static void init()
{
	if (!by_type.empty()) return;
	by_type.resize(otypes.size());
	const char *only = getenv("VP_ONLY_OPS");
	for (size_t i = 0; i < all_ops.size(); ++i) {
		if (is_excluded(all_ops[i].name)) continue;
		if (only && !strstr(all_ops[i].name, only)) continue;
		int f = -1;
		for (auto &a : all_ops[i].args) if (a.kind == 't' || a.kind == 'k') { f = a.type; break; }
		if (f < 0) ctors.push_back(i); else {
			std::vector<int> seen;
			for (auto &a : all_ops[i].args) if ((a.kind == 't' || a.kind == 'k') && std::find(seen.begin(), seen.end(), a.type) == seen.end()) {
				by_type[a.type].push_back(i);
				seen.push_back(a.type);
			}
		}
	}
}
const std::vector<int> &ops_on(int type) { init(); return by_type[type]; }
const std::vector<int> &ctor_ops() { init(); return ctors; }

thread_local isl_ctx *print_ctx;
std::string ostr(int type, void *p)
{
	if (!p) return "NULL";
	if (!otypes[type].str) return "?";
	if (isl_ctx *ctx = print_ctx) isl_ctx_reset_operations(ctx);
	char *s = otypes[type].str(p);
	if (!s) return "(no string)";
	std::string r = s;
	free(s);
	return r;
}

// ---------------------------------------------------------------- seeds
namespace {
struct Tuple { std::string name; std::vector<std::string> v; std::string str() const { std::string o = name + "["; for (size_t i = 0; i < v.size(); ++i) o += (i ? ", " : "") + v[i]; return o + "]"; } };
struct SG {
	Case &c;
	std::vector<std::string> params;
	std::string lin(const std::vector<std::string> &vs, int depth = 0)
	{
		std::string o;
		int n = 1 + c.t.below(2);
		for (int i = 0; i < n; ++i) {
			if (i) o += " + ";
			int k = c.t.weighted({6, 2, 1, depth < 1 ? 2 : 0});
			std::string v = vs.empty() ? "1" : c.t.pick(vs);
			if (k == 0) o += v;
			else if (k == 1) o += std::to_string(c.t.range(-3, 3)) + "*" + v;
			else if (k == 2) o += std::to_string(c.t.range(-4, 6));
			else {
				std::string in = lin(vs, 1);
				o += (c.t.chance(1, 2) ? "2*floor((" : "floor((") + in + ")/" + std::to_string(2 + c.t.below(3)) + ")";
			}
		}
		if (c.t.chance(1, 2)) o += " + " + std::to_string(c.t.range(-4, 4));
		return o;
	}
	std::vector<std::string> with_params(std::vector<std::string> v) { for (auto &p : params) v.push_back(p); return v; }
	std::string cons(const std::vector<std::string> &vs)
	{
		int k = c.t.weighted({6, 2, 1, 1});
		if (k == 0) {
			std::string v = vs.empty() ? "0" : c.t.pick(vs);
			return std::to_string(c.t.range(-2, 1)) + " <= " + v + " <= " + (c.t.chance(1, 4) && !params.empty() ? params[0] : std::to_string(c.t.range(0, 6)));
		}
		if (k == 1) return lin(vs) + (c.t.chance(1, 3) ? " = " : " >= ") + lin(vs);
		if (k == 2) return "(" + lin(vs) + ") mod " + std::to_string(2 + c.t.below(3)) + " = 0";
		return "(exists e: " + lin(vs) + " = " + std::to_string(2 + c.t.below(2)) + "*e)";
	}
	std::string conj(const std::vector<std::string> &vs)
	{
		std::string o;
		int n = 1 + c.t.below(3);
		for (int i = 0; i < n; ++i) o += (i ? " and " : "") + cons(vs);
		return o;
	}
	std::string cond(const std::vector<std::string> &vs, int maxd)
	{
		std::string o;
		int n = 1 + c.t.below(maxd);
		for (int i = 0; i < n; ++i) o += (i ? " or (" : "(") + conj(vs) + ")";
		return o;
	}
	std::string pre() { if (params.empty()) return ""; std::string o = "["; for (size_t i = 0; i < params.size(); ++i) o += (i ? ", " : "") + params[i]; return o + "] -> "; }
	std::string tup(const Tuple &t, std::vector<std::string> &vs) { for (auto &v : t.v) vs.push_back(v); return t.str(); }
	std::string fn(const Tuple &d, const Tuple &r, bool pw)
	{
		std::vector<std::string> vs = with_params(d.v);
		if (vs.empty()) vs.push_back("0");
		std::string o;
		int n = pw ? 1 + c.t.below(2) : 1;
		for (int k = 0; k < n; ++k) {
			o += (k ? "; " : "") + d.str() + " -> " + r.name + "[";
			for (size_t i = 0; i < r.v.size(); ++i) o += (i ? ", " : "") + ("(" + lin(vs) + ")");
			o += "]";
			if (pw) o += " : " + (n == 1 ? conj(vs) : k == 0 ? vs[0] + " >= 2" : vs[0] + " <= 1");
		}
		return o;
	}
};
}

std::vector<Seed> gen_seeds(Case &c, int np)
{
	SG g{c, {}};
	if (np < 0) np = c.t.weighted({3, 4, 1});
	if (np > 0) g.params.push_back("N");
	if (np > 1) g.params.push_back("M");
	if (np > 2) g.params.push_back("P");
	// the theme: a domain tuple and a range tuple
	Tuple A{c.t.chance(1, 4) ? "" : "A", {}}, Bt{c.t.chance(1, 4) ? "" : "B", {}};
	int na = c.t.weighted({1, 4, 5, 1}), nb = c.t.weighted({1, 5, 3});
	const char *an[] = {"i", "j", "k"}, *bn[] = {"x", "y"};
	for (int i = 0; i < na; ++i) A.v.push_back(an[i]);
	for (int i = 0; i < nb; ++i) Bt.v.push_back(bn[i]);
	Tuple A2 = A;
	for (auto &v : A2.v) v += "2";
	std::vector<Seed> out;
	auto add = [&](const char *t, const std::string &s) { out.push_back({type_of(t), s}); };
	int n = 3 + c.t.below(6);
	for (int k = 0; k < n; ++k) {
		std::vector<std::string> va = g.with_params(A.v), vb = g.with_params(Bt.v), vab = g.with_params({}), vaa = g.with_params({});
		for (auto &v : A.v) vab.push_back(v), vaa.push_back(v);
		for (auto &v : Bt.v) vab.push_back(v);
		for (auto &v : A2.v) vaa.push_back(v);
		if (va.empty()) va.push_back("0");
		const Tuple &X = c.t.chance(1, 3) ? Bt : A;
		std::vector<std::string> vx = g.with_params(X.v);
		if (vx.empty()) vx.push_back("0");
		if (vab.empty()) vab.push_back("0");
		if (vaa.empty()) vaa.push_back("0");
		switch (c.t.weighted({6, 6, 4, 2, 2, 3, 3, 2, 2, 3, 2, 2, 2, 2, 1, 2, 3, 1, 1, 2, 2, 1, 1, 2, 1, 1, 1})) {
		case 0: add("set", g.pre() + "{ " + X.str() + " : " + g.cond(vx, 3) + " }"); break;
		case 1: add("map", g.pre() + "{ " + A.str() + " -> " + Bt.str() + " : " + g.cond(vab, 2) + " }"); break;
		case 2: add("map", g.pre() + "{ " + A.str() + " -> " + A2.str() + " : " + g.cond(vaa, 2) + " }"); break;
		case 3: add("basic_set", g.pre() + "{ " + X.str() + " : " + g.conj(vx) + " }"); break;
		case 4: add("basic_map", g.pre() + "{ " + A.str() + " -> " + Bt.str() + " : " + g.conj(vab) + " }"); break;
		case 5: add("union_set", g.pre() + "{ " + A.str() + " : " + g.cond(va, 2) + "; C[] }"); break;
		case 6: add("union_map", g.pre() + "{ " + A.str() + " -> " + Bt.str() + " : " + g.cond(vab, 2) + "; " + A.str() + " -> " + A2.str() + " : " + g.cond(vaa, 2) + " }"); break;
		case 7: add("aff", g.pre() + "{ " + A.str() + " -> [(" + g.lin(va) + ")] }"); break;
		case 8: add("pw_aff", g.pre() + "{ " + g.fn(A, Tuple{"", {"o"}}, true) + " }"); break;
		case 9: add("pw_multi_aff", g.pre() + "{ " + g.fn(A, Bt, true) + " }"); break;
		case 10: add("multi_aff", g.pre() + "{ " + g.fn(A, c.t.chance(1, 3) ? A : Bt, false) + " }"); break;
		case 11: add("multi_pw_aff", g.pre() + "{ " + g.fn(A, Bt, false) + " }"); break;
		case 12: add("union_pw_multi_aff", g.pre() + "{ " + g.fn(A, Bt, true) + "; C[] -> " + "D[1] }"); break;
		case 13: add("union_pw_aff", g.pre() + "{ " + g.fn(A, Tuple{"", {"o"}}, true) + "; C[] -> [(0)] }"); break;
		case 14: {
			std::string o = g.pre() + "[";
			int m = 1 + c.t.below(2);
			for (int i = 0; i < m; ++i) o += std::string(i ? ", " : "") + "{ " + A.str() + " -> [(" + g.lin(va) + ")]; C[] -> [(0)] }";
			add("multi_union_pw_aff", o + "]");
			break;
		}
		case 15: add("val", c.t.chance(1, 4) ? std::to_string(c.t.range(-5, 5)) + "/" + std::to_string(2 + c.t.below(4)) : std::to_string(c.t.range(-3, 5))); break;
		case 16: {
			std::string o = g.pre() + "{ " + A.str() + " -> ";
			int m = 1 + c.t.below(3);
			for (int i = 0; i < m; ++i) {
				std::string mon = std::to_string(c.t.range(-3, 3)) + (c.t.chance(1, 3) ? "/2" : "");
				int d = c.t.below(3);
				for (int q = 0; q < d; ++q) mon += " * " + c.t.pick(va);
				o += (i ? " + " : "") + mon;
			}
			add("pw_qpolynomial", o + " : " + g.conj(va) + " }");
			break;
		}
		case 17: {
			std::string nm = c.t.chance(1, 2) ? "A" : "B";
			add("id", nm);
			break;
		}
		case 18: {
			std::string o = g.pre() + "{ " + A.name + "[";
			for (size_t i = 0; i < A.v.size(); ++i) o += (i ? ", " : "") + std::to_string(c.t.range(-2, 3));
			add("set", o + "] }");
			break;
		}
		case 19: {
			std::string o = g.pre() + "{ " + Bt.name + "[";
			for (size_t i = 0; i < Bt.v.size(); ++i) o += (i ? ", " : "") + std::to_string(c.t.range(1, 4));
			add("multi_val", o + "] }");
			break;
		}
		case 20: add("set", g.pre() + "{ [" + A.str() + " -> " + Bt.str() + "] : " + g.cond(vab, 2) + " }"); break;
		case 21: add("map", g.pre() + "{ [" + A.str() + " -> " + Bt.str() + "] -> " + A2.str() + " : " + g.cond(vab, 2) + " }"); break;
		case 22: add("pw_qpolynomial_fold", g.pre() + "{ " + A.str() + " -> max(" + c.t.pick(va) + ", 2) : " + g.conj(va) + " }"); break;
		case 23: {
			std::string D = A.str() + " : ";
			std::string dom = g.pre() + "{ " + D;
			for (size_t i = 0; i < A.v.size(); ++i) dom += (i ? " and " : "") + ("0 <= " + A.v[i] + " <= " + std::to_string(1 + c.t.below(4)));
			if (A.v.empty()) dom += "1 = 1";
			dom += "; C[] }";
			std::string band = g.pre() + "[";
			int m = 1 + c.t.below(2);
			for (int i = 0; i < m; ++i) band += std::string(i ? ", " : "") + "{ " + A.str() + " -> [(" + g.lin(va) + ")]; C[] -> [(0)] }";
			band += "]";
			std::string ch;
			if (c.t.chance(1, 2)) ch = ", child: { sequence: [ { filter: \"{ C[] }\" }, { filter: \"{ " + A.str() + " }\" } ] }";
			add("schedule", "{ domain: \"" + dom + "\", child: { schedule: \"" + band + "\"" + (c.t.chance(1, 2) ? ", permutable: 1" : "") + ch + " } }");
			break;
		}
		case 24: add("set", g.params.empty() ? "{ : 1 = 1 }" : g.pre() + "{ : " + g.cond(g.params, 2) + " }"); break;
		case 25: add("schedule_constraints", "{ domain: \"{ " + A.str() + " : " + (A.v.empty() ? "1 = 1" : "0 <= " + A.v[0] + " <= 4") + " }\", validity: \"{ " + A.str() + " -> " + A2.str() + " : " + (A.v.empty() ? "1 = 0" : A2.v[0] + " = " + A.v[0] + " + 1") + " }\" }"); break;
		case 26: add("multi_id", "{ " + Bt.name + "[" + (nb > 0 ? "p" : "") + (nb > 1 ? ", q" : "") + "] }"); break;
		}
	}
	return out;
}

void load_seeds(Case &c, OProg &P, OState &st)
{
	print_ctx = st.ctx;
	for (auto &s : P.seeds) {
		isl_ctx_reset_operations(st.ctx);
		void *p = otypes[s.type].read(st.ctx, s.s.c_str());
		if (!p) {
			std::string m = isl_ctx_last_error_msg(st.ctx) ? isl_ctx_last_error_msg(st.ctx) : "";
			if (isl_ctx_last_error(st.ctx) == isl_error_quota) c.discard("quota");
			if (m == "expecting expression in single space") c.discard("empty function");
			c.fail("seed", std::string(otypes[s.type].name) + " " + s.s + " cannot be read: " + m);
		}
		st.p.push_back(p);
		st.type.push_back(s.type);
		P.slot_type.push_back(s.type);
	}
	P.nslots = st.p.size();
}

static int num_arg(Case &c, const OProg &P, const OState &st, const OCfg &cfg, const Op &op, Step &s, size_t k)
{
	const OpArg &a = op.args[k];
	// number of dimensions (elements) from the last given position on
	int room = 2;
	{
		int f = s.obj.empty() ? -1 : s.obj[0], d = isl_dim_out, pos = 0;
		for (size_t q = 0, m = 0; q < k; ++q) {
			char x = op.args[q].kind;
			if (x == 't' || x == 'k' || x == 's' || x == 'c') continue;
			// of a move, the second pair is the source
			if (x == 'd') d = s.n[m], pos = 0;
			if (x == 'p') pos = s.n[m];
			m++;
		}
		if (f >= 0 && st.p[f]) {
			const OType &t = otypes[st.type[f]];
			int sz = t.size ? t.size(st.p[f]) : t.dim ? t.dim(st.p[f], d) : 2;
			isl_ctx_reset_error(st.ctx);
			room = std::max(0, sz - pos);
		}
	}
	bool bad = cfg.invalid_pct && c.t.below(100) >= (uint64_t)(100 - cfg.invalid_pct);
	switch (a.kind) {
	case 'd': {
		static const int ds[] = {isl_dim_out, isl_dim_in, isl_dim_param};
		// isl_dim_cst and isl_dim_all are not types of dimensions; they are not generated
		if (bad) { s.valid = false; return isl_dim_div; }
		int d = ds[c.t.weighted({5, 2, 2})];
		// changing the number of outputs of a scalar expression is rejected
		// only if there is an expression
		if (d == isl_dim_out && strstr(op.name, "_dims") && (!strncmp(op.name, "isl_pw_", 7))) d = isl_dim_in;
		return d;
	}
	case 'e': return c.t.below(2);
	case 'n': {
		int w = c.t.weighted({2, 5, 1});
		if (bad) { s.valid = false; return w + 3; }
		if (!strstr(op.name, "insert") && !strstr(op.name, "add_")) w = std::min(w, room);
		return w;
	}
	case 'u': return c.t.weighted({1, 3, 3, 1});
	case 'i': return c.t.range(-3, 5);
	case 'p': {
		int f = s.obj.empty() ? -1 : s.obj[0];
		int d = isl_dim_out;
		for (size_t q = 0, m = 0; q < k; ++q)
			if (op.args[q].kind != 't' && op.args[q].kind != 'k' && op.args[q].kind != 's' && op.args[q].kind != 'c') {
				if (op.args[q].kind == 'd') d = s.n[m];
				m++;
			}
		int sz = 1;
		if (f >= 0 && st.p[f]) {
			const OType &t = otypes[st.type[f]];
			if (t.size) sz = t.size(st.p[f]);
			else if (t.dim) sz = t.dim(st.p[f], d);
		}
		isl_ctx_reset_error(st.ctx);
		if (bad) { s.valid = false; static const int bs[] = {0, -1, 1000}; int b = c.t.below(3); return b ? bs[b] : std::max(sz, 0) + (int)c.t.below(2); }
		if (sz <= 0) return 0;
		return c.t.below(sz);
	}
	}
	return 0;
}

bool gen_step(Case &c, const OProg &P, const OState &st, const OCfg &cfg, Step &s)
{
	static const char *const names[] = {"A", "B", "i", "N", "Q"};
	// live slots by type
	std::vector<int> live;
	for (size_t i = 0; i < st.p.size(); ++i) if (st.p[i]) live.push_back(i);
	if (live.empty()) return false;
	for (int attempt = 0; attempt < 12; ++attempt) {
		s = Step();
		int first = -1, oi = -1;
		if (c.t.chance(1, 25) && !ctor_ops().empty()) oi = ctor_ops()[c.t.below(ctor_ops().size())];
		else {
			// prefer recent objects
			int b = c.t.below(live.size());
			if (c.t.chance(1, 2)) b = std::max<int>(b, c.t.below(live.size()));
			first = live[b];
			auto &v = ops_on(st.type[first]);
			if (v.empty()) continue;
			oi = v[c.t.below(v.size())];
		}
		const Op &op = all_ops[oi];
		if (cfg.allow && !cfg.allow(op)) continue;
		s.op = oi;
		bool ok = true, used = first < 0;
		for (size_t k = 0; k < op.args.size() && ok; ++k) {
			const OpArg &a = op.args[k];
			if (a.kind == 't' || a.kind == 'k') {
				if (!used && a.type == st.type[first] && (c.t.chance(2, 3) || [&] { for (size_t q = k + 1; q < op.args.size(); ++q) if ((op.args[q].kind == 't' || op.args[q].kind == 'k') && op.args[q].type == a.type) return false; return true; }())) {
					s.obj.push_back(first);
					used = true;
					continue;
				}
				std::vector<int> cand;
				for (int q : live) if (st.type[q] == a.type) cand.push_back(q);
				if (cand.empty()) { ok = false; break; }
				s.obj.push_back(c.t.pick(cand));
			} else if (a.kind == 's') s.s.push_back(names[c.t.below(5)]);
			else if (a.kind == 'c') ;
			else s.n.push_back(num_arg(c, P, st, cfg, op, s, k));
		}
		if (ok && same_spaces(st, op, s)) return true;
	}
	return false;
}

ExecCtl exec_ctl;
void *exec(const OProg &P, OState &st, Step &s, const std::vector<char> *sole, bool *failed)
{
	const Op &op = all_ops[s.op];
	void *a[5] = {0};
	const char *ss[4] = {0};
	long n[6] = {0};
	int oi = 0;
	// copying some objects takes operations too
	isl_ctx_reset_operations(st.ctx);
	for (auto &x : op.args)
		if (x.kind == 't' || x.kind == 'k') {
			int slot = s.obj[oi];
			if (x.kind == 'k') a[oi] = st.p[slot];
			else if (sole && (*sole)[oi]) a[oi] = st.p[slot];
			else a[oi] = otypes[st.type[slot]].copy(st.p[slot]);
			oi++;
		}
	if (sole) {
		int q = 0;
		for (auto &x : op.args) if (x.kind == 't' || x.kind == 'k') { if (x.kind == 't' && (*sole)[q]) st.p[s.obj[q]] = nullptr; q++; }
	}
	for (size_t i = 0; i < s.s.size(); ++i) ss[i] = s.s[i].c_str();
	for (size_t i = 0; i < s.n.size(); ++i) n[i] = s.n[i];
	long r = 0;
	isl_ctx_reset_error(st.ctx);
	isl_ctx_reset_operations(st.ctx);
	unsigned long lim = isl_ctx_get_max_operations(st.ctx);
	if (exec_ctl.limit) isl_ctx_set_max_operations(st.ctx, exec_ctl.limit);
	if (exec_ctl.abort) isl_ctx_abort(st.ctx);
	void *res = op.call(st.ctx, a, n, ss, &r);
	if (exec_ctl.abort) isl_ctx_resume(st.ctx);
	isl_ctx_set_max_operations(st.ctx, lim);
	s.r = r;
	s.str.clear();
	bool f = false;
	switch (op.ret) {
	case 'o': f = !res; break;
	case 'b': f = (isl_bool)r == isl_bool_error; break;
	case 'z': f = (isl_size)r == isl_size_error; break;
	case 's': s.str = res ? (const char *)res : "(null)"; res = nullptr; break;
	case 'S': f = !res; s.str = res ? (char *)res : "(null)"; free(res); res = nullptr; break;
	}
	s.err = isl_ctx_last_error(st.ctx);
	if (failed) *failed = f;
	s.failed = f;
	return res;
}

// equality of the denoted values of types without a semantic comparison
static int sem_equal(isl_ctx *ctx, const std::string &n, void *p, void *q)
{
	auto um = [&](isl_union_map *a, isl_union_map *b) {
		int r = a && b ? isl_union_map_is_equal(a, b) : -1;
		isl_union_map_free(a);
		isl_union_map_free(b);
		return r;
	};
	auto us = [&](isl_union_set *a, isl_union_set *b) {
		int r = a && b ? isl_union_set_is_equal(a, b) : -1;
		isl_union_set_free(a);
		isl_union_set_free(b);
		return r;
	};
#define AS(T, P) ((T *)P)
	auto from_upma = [&](isl_union_pw_multi_aff *a) { return isl_union_map_from_union_pw_multi_aff(a); };
	if (n == "union_pw_multi_aff") return um(from_upma(isl_union_pw_multi_aff_copy(AS(isl_union_pw_multi_aff, p))), from_upma(isl_union_pw_multi_aff_copy(AS(isl_union_pw_multi_aff, q))));
	if (n == "union_pw_aff") return um(isl_union_map_from_union_pw_aff(isl_union_pw_aff_copy(AS(isl_union_pw_aff, p))), isl_union_map_from_union_pw_aff(isl_union_pw_aff_copy(AS(isl_union_pw_aff, q))));
	if (n == "pw_multi_aff") return um(isl_union_map_from_map(isl_map_from_pw_multi_aff(isl_pw_multi_aff_copy(AS(isl_pw_multi_aff, p)))), isl_union_map_from_map(isl_map_from_pw_multi_aff(isl_pw_multi_aff_copy(AS(isl_pw_multi_aff, q)))));
	if (n == "multi_aff") return um(isl_union_map_from_map(isl_map_from_multi_aff(isl_multi_aff_copy(AS(isl_multi_aff, p)))), isl_union_map_from_map(isl_map_from_multi_aff(isl_multi_aff_copy(AS(isl_multi_aff, q)))));
	if (n == "aff") return um(isl_union_map_from_map(isl_map_from_aff(isl_aff_copy(AS(isl_aff, p)))), isl_union_map_from_map(isl_map_from_aff(isl_aff_copy(AS(isl_aff, q)))));
	if (n == "pw_aff") return um(isl_union_map_from_map(isl_map_from_pw_aff(isl_pw_aff_copy(AS(isl_pw_aff, p)))), isl_union_map_from_map(isl_map_from_pw_aff(isl_pw_aff_copy(AS(isl_pw_aff, q)))));
	if (n == "multi_pw_aff") {
		int m = isl_multi_pw_aff_dim(AS(isl_multi_pw_aff, p), isl_dim_out), m2 = isl_multi_pw_aff_dim(AS(isl_multi_pw_aff, q), isl_dim_out);
		if (m < 0 || m != m2) return m < 0 ? -1 : 0;
		int r = us(isl_union_set_from_set(isl_multi_pw_aff_domain(isl_multi_pw_aff_copy(AS(isl_multi_pw_aff, p)))), isl_union_set_from_set(isl_multi_pw_aff_domain(isl_multi_pw_aff_copy(AS(isl_multi_pw_aff, q)))));
		for (int i = 0; i < m && r == 1; ++i)
			r = um(isl_union_map_from_map(isl_map_from_pw_aff(isl_multi_pw_aff_get_at(AS(isl_multi_pw_aff, p), i))), isl_union_map_from_map(isl_map_from_pw_aff(isl_multi_pw_aff_get_at(AS(isl_multi_pw_aff, q), i))));
		return r;
	}
	if (n == "multi_union_pw_aff") {
		int m = isl_multi_union_pw_aff_dim(AS(isl_multi_union_pw_aff, p), isl_dim_out), m2 = isl_multi_union_pw_aff_dim(AS(isl_multi_union_pw_aff, q), isl_dim_out);
		if (m < 0 || m != m2) return m < 0 ? -1 : 0;
		int r = us(isl_multi_union_pw_aff_domain(isl_multi_union_pw_aff_copy(AS(isl_multi_union_pw_aff, p))), isl_multi_union_pw_aff_domain(isl_multi_union_pw_aff_copy(AS(isl_multi_union_pw_aff, q))));
		for (int i = 0; i < m && r == 1; ++i)
			r = um(isl_union_map_from_union_pw_aff(isl_multi_union_pw_aff_get_at(AS(isl_multi_union_pw_aff, p), i)), isl_union_map_from_union_pw_aff(isl_multi_union_pw_aff_get_at(AS(isl_multi_union_pw_aff, q), i)));
		return r;
	}
	if (n == "pw_qpolynomial" || n == "union_pw_qpolynomial") {
		isl_union_pw_qpolynomial *a = n[0] == 'u' ? isl_union_pw_qpolynomial_copy(AS(isl_union_pw_qpolynomial, p)) : isl_union_pw_qpolynomial_from_pw_qpolynomial(isl_pw_qpolynomial_copy(AS(isl_pw_qpolynomial, p)));
		isl_union_pw_qpolynomial *b = n[0] == 'u' ? isl_union_pw_qpolynomial_copy(AS(isl_union_pw_qpolynomial, q)) : isl_union_pw_qpolynomial_from_pw_qpolynomial(isl_pw_qpolynomial_copy(AS(isl_pw_qpolynomial, q)));
		isl_union_pw_qpolynomial *z = isl_union_pw_qpolynomial_zero_ctx(ctx), *d = isl_union_pw_qpolynomial_sub(a, b);
		int r = isl_union_pw_qpolynomial_plain_is_equal(d, z);
		isl_union_pw_qpolynomial_free(d);
		isl_union_pw_qpolynomial_free(z);
		return r == 1 ? 1 : -1;
	}
	if (n == "schedule_constraints") {
		isl_schedule_constraints *a = AS(isl_schedule_constraints, p), *b = AS(isl_schedule_constraints, q);
		int r = us(isl_schedule_constraints_get_domain(a), isl_schedule_constraints_get_domain(b));
		if (r == 1) r = us(isl_union_set_from_set(isl_schedule_constraints_get_context(a)), isl_union_set_from_set(isl_schedule_constraints_get_context(b)));
		if (r == 1) r = um(isl_schedule_constraints_get_validity(a), isl_schedule_constraints_get_validity(b));
		if (r == 1) r = um(isl_schedule_constraints_get_proximity(a), isl_schedule_constraints_get_proximity(b));
		if (r == 1) r = um(isl_schedule_constraints_get_coincidence(a), isl_schedule_constraints_get_coincidence(b));
		if (r == 1) r = um(isl_schedule_constraints_get_conditional_validity(a), isl_schedule_constraints_get_conditional_validity(b));
		if (r == 1) r = um(isl_schedule_constraints_get_conditional_validity_condition(a), isl_schedule_constraints_get_conditional_validity_condition(b));
		return r;
	}
	if (n == "schedule") {
		isl_schedule *a = AS(isl_schedule, p), *b = AS(isl_schedule, q);
		int r = us(isl_schedule_get_domain(a), isl_schedule_get_domain(b));
		if (r == 1) r = um(isl_schedule_get_map(a), isl_schedule_get_map(b));
		return r;
	}
	if (n == "schedule_node") {
		isl_schedule *a = isl_schedule_node_get_schedule(AS(isl_schedule_node, p)), *b = isl_schedule_node_get_schedule(AS(isl_schedule_node, q));
		int r = a && b ? sem_equal(ctx, "schedule", a, b) : -1;
		if (r == 1 && isl_schedule_node_get_tree_depth(AS(isl_schedule_node, p)) != isl_schedule_node_get_tree_depth(AS(isl_schedule_node, q))) r = 0;
		isl_schedule_free(a);
		isl_schedule_free(b);
		return r;
	}
	if (n == "union_access_info" || n == "union_flow" || n == "term" || n == "stride_info" || n == "qpolynomial" || n == "qpolynomial_fold") return -1;
	return -2;
}

// Operations whose result depends on the representation of the arguments.
bool repr_op(const Op &op)
{
	return strstr(op.name, "gist") || strstr(op.name, "hull") || strstr(op.name, "_remove_") || strstr(op.name, "is_box") || strstr(op.name, "drop_constraints") || strstr(op.name, "plain_") || strstr(op.name, "_fast_") || strstr(op.name, "sample") || strstr(op.name, "_n_basic_") ||
		strstr(op.name, "_list") || strstr(op.name, "coefficients") || strstr(op.name, "involves_dims") || strstr(op.name, "_isa_") || strstr(op.name, "_n_div") || strstr(op.name, "_n_piece") || strstr(op.name, "_lift") || strstr(op.name, "_get_div") || strstr(op.name, "local") || strstr(op.name, "_n_constraint");
}

// Many functions do not check the kind of space they are given (a set object
// and a map object are the same type internally); objects of the wrong kind are not kept.
bool well_typed(isl_ctx *ctx, int type, void *p)
{
	std::string n = otypes[type].name;
	isl_space *sp = otypes[type].space ? otypes[type].space(p) : nullptr;
	if (!sp) return !otypes[type].space;
	bool ok = true, has = false;
	if (n == "space") { isl_space_free(sp); return true; }
	if (n == "map" || n == "basic_map" || n == "multi_aff" || n == "aff" || n == "pw_aff" || n == "pw_multi_aff" || n == "multi_pw_aff") {
		ok = isl_space_is_map(sp) == isl_bool_true;
		// a function without domain has a set space
		if (!ok && n != "map" && n != "basic_map") ok = isl_space_is_set(sp) == isl_bool_true;
	} else if (n == "set" || n == "basic_set") ok = isl_space_is_set(sp) == isl_bool_true || isl_space_is_params(sp) == isl_bool_true;
	else if (n == "pw_qpolynomial" || n == "qpolynomial" || n == "pw_qpolynomial_fold" || n == "qpolynomial_fold") ok = isl_space_is_set(sp) == isl_bool_true || isl_space_is_map(sp) == isl_bool_true;
	if (ok && (n == "aff" || n == "pw_aff" || n.find("qpolynomial") != std::string::npos) && n.compare(0, 5, "union")) ok = isl_space_dim(sp, isl_dim_out) == 1;
	if (n == "multi_val" || n == "multi_id" || n == "point" || n == "multi_union_pw_aff") ok = isl_space_is_set(sp) == isl_bool_true || isl_space_is_params(sp) == isl_bool_true;
	isl_space_free(sp);
	// functions of an invalid (NaN) value are not of interest
	if (ok && n.find("aff") != std::string::npos && ostr(type, p).find("NaN") != std::string::npos) ok = false;
	isl_ctx_reset_error(ctx);
	(void)has;
	return ok;
}

int oequal(isl_ctx *ctx, int type, void *p, void *q)
{
	if (!p || !q) return p == q;
	std::string a = ostr(type, p), b = ostr(type, q);
	if (a == b && a != "?") return 1;
	const OType &t = otypes[type];
	isl_ctx_reset_error(ctx);
	isl_ctx_reset_operations(ctx);
	int e = sem_equal(ctx, t.name, p, q);
	if (e != -2) return e;
	if (!t.eq) return -1;
	int r = t.eq(p, q);
	if (r == isl_bool_error) return -1;
	if (r) return 1;
	return t.eqkind == 2 ? -1 : 0;
}

int value_is(isl_ctx *ctx, int type, void *p, const std::string &str)
{
	const OType &t = otypes[type];
	isl_ctx_reset_error(ctx);
	isl_ctx_reset_operations(ctx);
	std::string name = t.name;
	if (name.size() > 5 && name.substr(name.size() - 5) == "_list") {
		int et = type_of(name.substr(0, name.size() - 5));
		if (et < 0 || !otypes[et].read) return -1;
		std::string now = ostr(type, p);
		auto split = [](const std::string &s) {
			std::vector<std::string> o(1);
			int depth = 0;
			for (size_t i = 1; i + 1 < s.size(); ++i) {
				if (strchr("([{", s[i])) depth++;
				if (strchr(")]}", s[i])) depth--;
				if (s[i] == ',' && depth == 0) o.push_back(""); else o.back() += s[i];
			}
			return o;
		};
		auto a = split(now), b = split(str);
		if (a.size() != b.size()) return 0;
		for (size_t i = 0; i < a.size(); ++i) {
			if (a[i] == b[i]) continue;
			void *x = otypes[et].read(ctx, a[i].c_str()), *y = otypes[et].read(ctx, b[i].c_str());
			int e = x && y ? oequal(ctx, et, x, y) : -1;
			if (x) otypes[et].free(x);
			if (y) otypes[et].free(y);
			if (e != 1) return e;
		}
		return 1;
	}
	if (!t.read || !strncmp(t.name, "schedule", 8)) {
		// texts with quoted values
		auto split = [](const std::string &x) {
			std::vector<std::string> o(1);
			for (char ch : x) if (ch == '"') o.push_back(""); else o.back() += ch;
			return o;
		};
		auto a = split(ostr(type, p)), b = split(str);
		if (a.size() != b.size()) return 0;
		for (size_t i = 0; i < a.size(); ++i) {
			if (a[i] == b[i]) continue;
			if (!(i & 1)) return 0;
			isl_union_map *x = isl_union_map_read_from_str(ctx, a[i].c_str()), *y = isl_union_map_read_from_str(ctx, b[i].c_str());
			int e = x && y ? isl_union_map_is_equal(x, y) : -1;
			isl_union_map_free(x);
			isl_union_map_free(y);
			if (e < 0) {
				isl_union_set *x = isl_union_set_read_from_str(ctx, a[i].c_str()), *y = isl_union_set_read_from_str(ctx, b[i].c_str());
				e = x && y ? isl_union_set_is_equal(x, y) : -1;
				isl_union_set_free(x);
				isl_union_set_free(y);
			}
			if (e != 1) return e;
		}
		return 1;
	}
	void *q = t.read(ctx, str.c_str());
	if (!q) return -1;
	int e = oequal(ctx, type, p, q);
	t.free(q);
	return e;
}

std::string show(const OProg &P, const Step &s)
{
	const Op &op = all_ops[s.op];
	std::string o;
	if (s.out >= 0) o = "$" + std::to_string(s.out) + " = ";
	o += op.name;
	o += "(";
	size_t oi = 0, ni = 0, si = 0;
	for (size_t k = 0; k < op.args.size(); ++k) {
		if (k) o += ", ";
		char d = op.args[k].kind;
		if (d == 't' || d == 'k') o += "$" + std::to_string(s.obj[oi++]);
		else if (d == 'c') o += "ctx";
		else if (d == 's') o += "\"" + s.s[si++] + "\"";
		else o += std::to_string(s.n[ni++]);
	}
	return o + ")";
}
std::string show(const OProg &P)
{
	std::string o;
	for (size_t i = 0; i < P.seeds.size(); ++i) o += "$" + std::to_string(i) + ": " + otypes[P.seeds[i].type].name + " " + P.seeds[i].s + "\n";
	for (auto &s : P.steps) o += show(P, s) + "\n";
	return o;
}

} // namespace vp
