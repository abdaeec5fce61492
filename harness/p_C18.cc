// C18: transitive closures and powers contain every reachable pair and are
// exact when reported so; oracle: path search in the finite graph of a bounded
// relation (per parameter value).
#include "gen.h"
#include <set>
#include <map>
using namespace vp;
#define R_(e) R(c, e, #e)

namespace {
struct St { std::string name; int n; };          // tuple
typedef std::pair<int, Pt> Node;                 // tuple index, coordinates
std::string str(const Node &x) { return std::to_string(x.first) + vp::str(x.second); }

struct Gen {
	Case &c; std::vector<St> st; bool par; int lo = 0, hi; bool bounded;
	std::string vars(int s, const char *suf) { std::string r; for (int i = 0; i < st[s].n; ++i) r += std::string(i ? ", " : "") + (char)('i' + i) + suf; return r; }
	std::string box(int s, const char *suf)
	{
		std::string r;
		for (int i = 0; i < st[s].n; ++i) {
			std::string v = std::string(1, (char)('i' + i)) + suf;
			r += " and 0 <= " + v;
			r += " and " + v + " <= " + std::to_string(hi);
			if (par && c.t.chance(1, 2)) r += " and " + v + (c.t.chance(1, 2) ? " < n" : " <= n + 1");
		}
		return r;
	}
	std::string lin(int s, const char *suf, int d)
	{
		std::string r = std::to_string(c.t.range(-3, 4));
		if (par && c.t.chance(1, 4)) r += c.t.chance(1, 2) ? " + n" : " - n";
		for (int i = 0; i < st[s].n; ++i) { int k = c.t.range(-d, d); if (k) r += " + " + std::to_string(k) + (char)('i' + i) + suf; }
		return r;
	}
	std::string disjunct(int a, int b)
	{
		std::string r = "1 = 1";
		int na = st[a].n, nb = st[b].n;
		switch (c.t.weighted({6, 4, 3, 1, 2, 1})) {
		case 0: for (int i = 0; i < std::min(na, nb); ++i) r += " and " + std::string(1, (char)('i' + i)) + "' = " + (char)('i' + i) + " + " + std::to_string(c.t.weighted({3, 5, 2, 1}) - (c.t.chance(1, 3) ? 2 : 0)); break;
		case 1: for (int i = 0; i < std::min(na, nb); ++i) { int l = c.t.range(-1, 2), h = l + c.t.below(3); std::string d = std::string(1, (char)('i' + i)) + "' - " + (char)('i' + i); r += " and " + std::to_string(l) + " <= " + d; if (c.t.chance(3, 4)) r += " and " + d + " <= " + std::to_string(h); } break;
		case 2: for (int i = 0; i < nb; ++i) r += " and " + std::string(1, (char)('i' + i)) + "' = " + lin(a, "", c.t.chance(1, 3) ? 2 : 1); break;
		case 3: for (int i = 0; i < nb; ++i) r += " and " + std::string(1, (char)('i' + i)) + "' = " + (na ? std::string(1, (char)('i' + (na - 1 - i % na))) : "0"); break;
		case 4: r += " and " + lin(a, "", 2) + " <= " + lin(b, "'", 1); if (c.t.chance(1, 2)) r += " and " + lin(b, "'", 1) + " <= " + lin(a, "", 2); break;
		default: for (int i = 0; i < std::min(na, nb); ++i) { int m = 2 + c.t.below(2); r += " and (" + std::string(1, (char)('i' + i)) + "' - " + (char)('i' + i) + ") mod " + std::to_string(m) + " = " + std::to_string(c.t.below(m)); if (c.t.chance(1, 2)) r += " and " + std::string(1, (char)('i' + i)) + "' >= " + (char)('i' + i); } break;
		}
		if (na && c.t.chance(1, 4)) r += " and i mod " + std::to_string(2 + c.t.below(2)) + " = " + std::to_string(c.t.below(2));
		if (na && c.t.chance(1, 4)) r += " and " + lin(a, "", 1) + " >= 0";
		if (bounded) r += box(a, "") + box(b, "'");
		return r;
	}
};
typedef std::set<std::pair<Node, Node>> Rel;
} // namespace

static void run(Case &c)
{
	Gen g{c};
	g.par = c.t.chance(2, 5);
	g.bounded = c.t.chance(5, 6);
	int shape = c.t.weighted({4, 3, 2});          // map 1-d, map 2-d, union
	if (shape == 2) { g.st = {{"S", 1}, {"T", 1 + (int)c.t.chance(1, 3)}}; if (c.t.chance(1, 6)) g.st[0].n = 0; }
	else g.st = {{c.t.chance(1, 2) ? "" : "A", 1 + shape}};
	g.hi = g.st.back().n == 1 ? 3 + c.t.below(5) : 2 + c.t.below(2);
	int nd = 1 + c.t.weighted({5, 4, 1}) + (shape == 2);
	std::string txt = g.par ? "[n] -> { " : "{ ";
	for (int k = 0; k < nd; ++k) {
		int a = c.t.below(g.st.size()), b = c.t.chance(1, 2) ? a : (int)c.t.below(g.st.size());
		txt += std::string(k ? "; " : "") + g.st[a].name + "[" + g.vars(a, "") + "] -> " + g.st[b].name + "[" + g.vars(b, "'") + "] : " + g.disjunct(a, b);
	}
	txt += " }";
	c.log << txt << "\n";
	UMap u = R_(isl_union_map_read_from_str(c.ctx, txt.c_str()));
	if (g.par) u = R_(isl_union_map_align_params(u.r(), R_(isl_space_set_from_params(R_(isl_space_params(R_(isl_set_get_space(R_(isl_set_read_from_str(c.ctx, "[n] -> { [] }")).g())).r())).r())).r()));
	bool single = shape != 2;
	Map m;
	if (single) {
		if (B(c, isl_union_map_is_empty(u.g()), "empty")) c.discard("empty");
		m = R_(isl_map_from_union_map(u.c()));
		if (c.t.chance(1, 4)) m = R_(isl_map_coalesce(m.r()));
		if (c.t.chance(1, 4)) m = R_(isl_map_make_disjoint(m.r()));
		u = R_(isl_union_map_from_map(m.c()));
	}
	int np = g.par, pad = 2;
	// the nodes of the window
	std::vector<Node> nodes;
	for (int s = 0; s < (int)g.st.size(); ++s) for (auto &p : box_points(g.st[s].n, g.lo - (g.bounded ? 1 : pad), g.hi + (g.bounded ? 1 : pad))) nodes.push_back({s, p});
	std::vector<int> pars = {0};
	if (g.par) pars = {-1, 0, 1, 2, 3, 4, 6, 9};
	// extraction of a union map as relations between nodes
	struct Ext { std::map<std::pair<int, int>, MMap> m; bool has(int np, int n, const Node &a, const Node &b) const { auto it = m.find({a.first, b.first}); if (it == m.end()) return false; Pt p; if (np) p.push_back(n); p.insert(p.end(), a.second.begin(), a.second.end()); p.insert(p.end(), b.second.begin(), b.second.end()); return it->second.has(p); } };
	auto extract_u = [&](UMap x) {
		Ext e;
		x = R_(isl_union_map_coalesce(x.r()));
		for (int a = 0; a < (int)g.st.size(); ++a) for (int b = 0; b < (int)g.st.size(); ++b) {
			Space sp = R_(isl_union_map_get_space(u.g()));
			auto tup = [&](int s) { Space t = R_(isl_space_add_dims(isl_space_set_from_params(sp.c()), isl_dim_set, g.st[s].n)); if (!g.st[s].name.empty()) t = R_(isl_space_set_tuple_name(t.r(), isl_dim_set, g.st[s].name.c_str())); return t; };
			Space ms = R_(isl_space_map_from_domain_and_range(tup(a).r(), tup(b).r()));
			Map y = R_(isl_union_map_extract_map(x.g(), ms.r()));
			e.m[{a, b}] = extract(c, y.g());
		}
		return e;
	};
	Ext base = extract_u(u);
	std::map<int, Rel> one;
	long edges = 0;
	for (int n : pars) for (auto &a : nodes) for (auto &b : nodes) if (base.has(np, n, a, b)) { one[n].insert({a, b}); ++edges; }
	if (!edges) c.discard("no edges");
	// exact powers, of a bounded relation; lower bounds otherwise
	auto compose = [&](const Rel &x, const Rel &y) { std::map<Node, std::vector<Node>> f; for (auto &e : y) f[e.first].push_back(e.second); Rel r; for (auto &e : x) { auto it = f.find(e.second); if (it != f.end()) for (auto &z : it->second) r.insert({e.first, z}); } return r; };
	const int K = 6;
	std::map<int, std::vector<Rel>> pw;
	std::map<int, Rel> clo;
	for (int n : pars) {
		pw[n].push_back(one[n]);
		for (int k = 2; k <= K; ++k) pw[n].push_back(compose(pw[n].back(), one[n]));
		Rel r = one[n];
		for (;;) { Rel q = compose(r, one[n]); size_t s = r.size(); r.insert(q.begin(), q.end()); if (r.size() == s) break; }
		clo[n] = r;
	}
	bool longp = false;
	for (int n : pars) if (clo[n].size() > one[n].size()) longp = true;
	auto check = [&](const char *op, const Ext &e, int n, const Rel &want, bool exact, const std::string &how) {
		for (auto &a : nodes) for (auto &b : nodes) {
			bool w = want.count({a, b}), h = e.has(np, n, a, b);
			if (w && !h) c.fail(std::string(op) + ":missing", "pair " + str(a) + " -> " + str(b) + (np ? " for n = " + std::to_string(n) : "") + " is reachable but not in the result\n" + txt + "\n" + how);
			if (h && !w && exact) c.fail(std::string(op) + ":extra", "pair " + str(a) + " -> " + str(b) + (np ? " for n = " + std::to_string(n) : "") + " is not reachable but in the exact result\n" + txt + "\n" + how);
		}
	};
	int op = c.t.weighted({5, 3, 2, 3});
	if (op == 2 && !single) op = 0;
	isl_bool exact = isl_bool_error;
	if (op == 0) {
		UMap t;
		bool noflag = c.t.chance(1, 10);
		isl_bool *ex = noflag ? nullptr : &exact;
		if (single) { Map x = R_(isl_map_transitive_closure(m.c(), ex)); t = R_(isl_union_map_from_map(x.r())); }
		else t = R_(isl_union_map_transitive_closure(u.c(), ex));
		std::string how = "closure " + S(t.g()) + " exact " + std::to_string(exact);
		Ext e = extract_u(t);
		for (int n : pars) check("closure", e, n, clo[n], exact == isl_bool_true && g.bounded, how);
		// a relation between bounded tuples never reaches outside: covered by the window margin
	} else if (op == 1) {
		// powers
		if (single) {
			Map x = R_(isl_map_power(m.c(), &exact));
			std::string how = "power " + S(x) + " exact " + std::to_string(exact);
			for (int k = -1; k <= K; ++k) {
				Map y = R_(isl_map_fix_si(x.c(), isl_dim_in, 0, k));
				Set ran = R_(isl_map_range(y.r()));
				Map z = R_(isl_set_unwrap(ran.r()));
				Ext e = extract_u(R_(isl_union_map_from_map(z.r())));
				for (int n : pars) check("power", e, n, k >= 1 ? pw[n][k - 1] : Rel(), exact == isl_bool_true && g.bounded || k < 1, how + " k = " + std::to_string(k));
			}
		} else {
			UMap x = R_(isl_union_map_power(u.c(), &exact));
			std::string how = "power " + S(x.g()) + " exact " + std::to_string(exact);
			for (int k = 0; k <= K; ++k) {
				USet d = R_(isl_union_set_read_from_str(c.ctx, ("{ [" + std::to_string(k) + "] }").c_str()));
				UMap z = R_(isl_union_set_unwrap(isl_union_set_apply(d.r(), x.c())));
				Ext e = extract_u(z);
				for (int n : pars) check("union_power", e, n, k >= 1 ? pw[n][k - 1] : Rel(), exact == isl_bool_true && g.bounded || k < 1, how + " k = " + std::to_string(k));
			}
		}
	} else if (op == 2) {
		Map x = R_(isl_map_reaching_path_lengths(m.c(), &exact));
		std::string how = "path lengths " + S(x) + " exact " + std::to_string(exact);
		MMap e = extract(c, x.g());
		for (int n : pars) for (int k = -1; k <= K; ++k) {
			std::set<Node> reach;
			if (k >= 1) for (auto &q : pw[n][k - 1]) reach.insert(q.second);
			for (auto &b : nodes) {
				Pt p; if (np) p.push_back(n);
				p.insert(p.end(), b.second.begin(), b.second.end()); p.push_back(k);
				bool w = reach.count(b), h = e.has(p);
				if (w && !h) c.fail("lengths:missing", "a path of length " + std::to_string(k) + " reaches " + str(b) + (np ? " for n = " + std::to_string(n) : "") + "\n" + txt + "\n" + how);
				if (h && !w && (exact == isl_bool_true && g.bounded || k < 1)) c.fail("lengths:extra", "no path of length " + std::to_string(k) + " reaches " + str(b) + (np ? " for n = " + std::to_string(n) : "") + "\n" + txt + "\n" + how);
			}
		}
	} else {
		int k = c.t.range(1, g.bounded ? 5 : 3);
		bool neg = c.t.chance(1, 3);
		UMap t;
		Val v = R_(isl_val_int_from_si(c.ctx, neg ? -k : k));
		if (single) t = R_(isl_union_map_from_map(R_(isl_map_fixed_power_val(m.c(), v.r())).r()));
		else t = R_(isl_union_map_fixed_power_val(u.c(), v.r()));
		std::string how = "fixed power " + std::to_string(neg ? -k : k) + ": " + S(t.g());
		Ext e = extract_u(t);
		for (int n : pars) {
			Rel w = pw[n][k - 1];
			if (neg) { Rel q; for (auto &x : w) q.insert({x.second, x.first}); w = q; }
			check("fixed_power", e, n, w, g.bounded, how);
		}
		exact = isl_bool_true;
	}
	static const char *const on[] = {"closure", "power", "lengths", "fixed"};
	c.label(std::string(on[op]) + (single ? "" : ":union") + (exact == isl_bool_true ? ":exact" : ":approx") + (g.bounded ? "" : ":unbounded"));
	c.nontrivial = longp;
}
Prop vp::the_prop = {"C18", "relations in one or two dimensions and unions over two tuples, with an optional parameter, built from translations, ranges of offsets, affine functions, strides and random constraints, mostly bounded by a box; closure, power, path lengths and fixed powers compared with path search on the finite graph for several parameter values; non-trivial: some pair is only reachable by several steps",
	run, 9000, 500000, 80000, false, 60, false, 4};
