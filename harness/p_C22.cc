// C22: computed schedules respect the constraints.
#include "prog.h"
#include <isl/flow.h>
#define R_(e) R(c, e, #e)
using namespace vp;

namespace {
typedef std::pair<Inst, Inst> IP;

struct Rel { UMap u; UMM m; };

// random pairs of domain elements in the order of the original schedule
UMap gen_pairs(Case &c, const Prog &p, UMap order, bool any_order)
{
	UMap u = R_(isl_union_map_empty(p.pspace(c)));
	int n = 1 + c.t.below(3);
	for (int k = 0; k < n; ++k) {
		int a = c.t.below(p.st.size()), b = c.t.below(p.st.size());
		int da = p.st[a].dim(), db = p.st[b].dim();
		Sp sa = p.sp(a);
		isl_space *ss = mk_space(c, sa);
		Space ms = R_(isl_space_map_from_domain_and_range(isl_space_copy(ss), mk_space(c, p.sp(b))));
		Map r;
		int how = c.t.weighted({5, 2, 1});
		if (how == 1 || !da || !db) { // all pairs, or sharing some coordinates
			r = R_(isl_map_universe(ms.c()));
			for (int j = 0; j < std::min(da, db); ++j) if (c.t.chance(1, 2)) r = R_(isl_map_equate(r.r(), isl_dim_in, c.t.below(da), isl_dim_out, j));
		} else if (how == 0) { // function
			MPA m = R_(isl_multi_pw_aff_zero(ms.c()));
			for (int j = 0; j < db; ++j) {
				QE e; int w = c.t.weighted({5, 2, 1});
				if (w == 0) { QE v; v.k = QE::VAR; v.var = p.np() + (a == b ? j : c.t.below(da)); QE k2; k2.c = c.t.range(-1, 2); e.k = QE::ADD; e.ch = {v, k2}; }
				else if (w == 1) e.c = c.t.range(0, 2);
				else e = gen_qe(c, p.np() + da, 1, false);
				m = R_(isl_multi_pw_aff_set_pw_aff(m.r(), j, e.build(c, isl_space_copy(ss))));
			}
			r = R_(isl_map_from_multi_pw_aff(m.r()));
			if (c.t.chance(1, 4)) r = R_(isl_map_union(r.r(), R_(isl_map_reverse(r.c())).r() && false ? nullptr : R_(isl_map_empty(ms.c())).r()));
		} else { // random affine constraint between source and sink
			Sp sp = sa; sp.is_map = true; sp.in = p.st[a]; sp.out = p.st[b];
			GenOpt o; o.max_basic = 1; o.allow_big = false; o.extra = 2;
			r = gen_map(c, sp, o);
		}
		isl_space_free(ss);
		u = R_(isl_union_map_add_map(u.r(), r.r()));
	}
	u = R_(isl_union_map_intersect_domain(u.r(), p.dom.c()));
	u = R_(isl_union_map_intersect_range(u.r(), p.dom.c()));
	if (!any_order) u = R_(isl_union_map_intersect(u.r(), order.c()));
	return u;
}
struct Band { std::set<Inst> dom; };

struct Ck {
	Case &c; const Prog &p; Pt par; std::vector<Inst> in; std::set<IP> val, coi; std::vector<IP> cv; std::map<IP, std::vector<IP>> adj; std::string how;
	long bands = 0, coinc = 0, perm = 0, viol = 0;
	std::map<Inst, Pt> pos(const TNode &t, const std::vector<Inst> &in) { std::map<Inst, Pt> r; for (auto &i : in) { Pt v; for (auto &f : t.band) { auto it = f.f.find(i.k); if (it == f.f.end()) c.fail("band", "band schedule is not defined on " + str(i) + "\n" + how); FV x = it->second.eval(cat(par, i.x))[0]; if (x.st != 1 || x.v.get_den() != 1) c.fail("band", "band schedule of " + str(i) + " at " + str(par) + " is " + str(x) + "\n" + how); v.push_back(x.v.get_num().get_si()); } r[i] = v; } return r; }
	// in: instances with equal outer position
	void walk(const TNode &t, const std::vector<Inst> &in)
	{
		if (in.empty()) return;
		switch (t.type) {
		case isl_schedule_node_domain: case isl_schedule_node_filter:
			for (auto &i : in) if (!t.filter.has(par, i)) c.fail("domain", str(i) + " at " + str(par) + " is not in its filter\n" + how);
			break;
		case isl_schedule_node_context:
			break;
		case isl_schedule_node_band: {
			++bands;
			auto ps = pos(t, in);
			std::set<Inst> si(in.begin(), in.end());
			for (size_t k = 0; k < t.band.size(); ++k) if (t.coincident[k]) {
				++coinc;
				for (auto &x : coi) if (si.count(x.first) && si.count(x.second) && ps[x.first][k] != ps[x.second][k])
					c.fail("coincident", "member " + std::to_string(k) + " is marked coincident but " + str(x.first) + " -> " + str(x.second) + " has distance " + std::to_string(ps[x.second][k] - ps[x.first][k]) + " at " + str(par) + "\n" + how);
			}
			if (t.permutable) {
				++perm;
				for (auto &x : val) if (si.count(x.first) && si.count(x.second)) for (size_t k = 0; k < t.band.size(); ++k) if (ps[x.second][k] < ps[x.first][k])
					c.fail("permutable", "member " + std::to_string(k) + " of a permutable band moves " + str(x.first) + " -> " + str(x.second) + " backward at " + str(par) + "\n" + how);
			}
			for (auto &x : cv) if (si.count(x.first) && si.count(x.second) && ps[x.second] < ps[x.first]) {
				++viol;
				for (auto &y : adj[x]) if (si.count(y.first) && si.count(y.second) && ps[y.first] != ps[y.second])
					c.fail("conditional", "conditional validity " + str(x.first) + " -> " + str(x.second) + " is violated in a band where the condition " + str(y.first) + " -> " + str(y.second) + " is not local, at " + str(par) + "\n" + how);
			}
			std::map<Pt, std::vector<Inst>> g; for (auto &x : ps) g[x.second].push_back(x.first);
			for (auto &x : g) walk(t.ch[0], x.second);
			return; }
		case isl_schedule_node_sequence: case isl_schedule_node_set: {
			std::map<Inst, int> w;
			std::vector<std::vector<Inst>> g(t.ch.size());
			for (auto &i : in) {
				int n = 0;
				for (size_t k = 0; k < t.ch.size(); ++k) if (t.ch[k].type == isl_schedule_node_filter && t.ch[k].filter.has(par, i)) { ++n; w[i] = k; g[k].push_back(i); }
				if (n != 1) c.fail("domain", str(i) + " at " + str(par) + " is in " + std::to_string(n) + " children of a sequence or set\n" + how);
			}
			std::set<Inst> si(in.begin(), in.end());
			for (auto &x : val) if (si.count(x.first) && si.count(x.second) && w[x.first] != w[x.second] && (t.type == isl_schedule_node_set || w[x.second] < w[x.first]))
				c.fail("validity", "dependence " + str(x.first) + " -> " + str(x.second) + " at " + str(par) + " is not respected by a " + (t.type == isl_schedule_node_set ? "set" : "sequence") + "\n" + how);
			for (size_t k = 0; k < t.ch.size(); ++k) walk(t.ch[k], g[k]);
			return; }
		default: break;
		}
		if (!t.ch.empty()) walk(t.ch[0], in);
	}
};

void constraints_object(Case &c, const Prog &p, isl_schedule_constraints *sc_, UMap v[5], const USM *, const std::vector<Pt> &pars)
{
	// accessors and apply
	H<isl_schedule_constraints> sc(sc_);
	int k = c.t.below(3);
	std::vector<USet> d = {R_(isl_schedule_constraints_get_domain(sc.g()))};
	// a bijective renaming of the domain elements: S -> T with swapped coordinates and an offset
	UMap U = R_(isl_union_map_empty(p.pspace(c)));
	std::vector<std::vector<int>> perm; std::vector<int> off;
	for (size_t i = 0; i < p.st.size(); ++i) {
		int n = p.st[i].dim(); std::vector<int> q(n); for (int j = 0; j < n; ++j) q[j] = j; if (n > 1 && c.t.chance(1, 2)) std::swap(q[0], q[1]);
		int o = c.t.range(-2, 2); perm.push_back(q); off.push_back(o);
		std::string t = "{ S" + std::to_string(i) + "["; for (int j = 0; j < n; ++j) t += (j ? ", x" : "x") + std::to_string(j);
		t += "] -> T" + std::to_string(i) + "["; for (int j = 0; j < n; ++j) t += (j ? ", x" : "x") + std::to_string(q[j]) + " + " + std::to_string(o); t += "] }";
		U = R_(isl_union_map_union(U.r(), isl_union_map_read_from_str(c.ctx, t.c_str())));
	}
	H<isl_schedule_constraints> ap(R_(isl_schedule_constraints_apply(sc.c(), U.c())));
	auto ren = [&](const Inst &i) { int s = i.k[1] - '0'; Inst r; r.k = "T" + i.k.substr(1); for (int q : perm[s]) r.x.push_back(i.x[q] + off[s]); return r; };
	UMap g[2][5];
	for (int a = 0; a < 2; ++a) {
		isl_schedule_constraints *s = a ? ap.g() : sc.g();
		g[a][0] = R_(isl_schedule_constraints_get_validity(s)); g[a][1] = R_(isl_schedule_constraints_get_coincidence(s)); g[a][2] = R_(isl_schedule_constraints_get_proximity(s));
		g[a][3] = R_(isl_schedule_constraints_get_conditional_validity(s)); g[a][4] = R_(isl_schedule_constraints_get_conditional_validity_condition(s));
	}
	USet d2 = R_(isl_schedule_constraints_get_domain(ap.g()));
	USM dm2 = extract_us(c, p, d2.g());
	static const char *nm[] = {"validity", "coincidence", "proximity", "conditional_validity", "condition"};
	for (int i = 0; i < 5; ++i) {
		if (!v[i]) { if (!B(c, isl_union_map_is_empty(g[0][i].g()), "is_empty")) c.fail("constraints:get", nm[i]); continue; }
		UMM w = extract_um(c, p, v[i].g()), x = extract_um(c, p, g[0][i].g()), y = extract_um(c, p, g[1][i].g());
		bool tagged = false; for (auto &q : w.m) tagged |= q.first.first.find('[') != std::string::npos;
		if (tagged) continue;
		for (auto &par : pars) {
			auto in = p.insts(par);
			for (auto &a : in) for (auto &b : in) {
				bool e = w.has(par, a, b);
				if (x.has(par, a, b) != e) c.fail("constraints:get", std::string(nm[i]) + " changed");
				if (y.has(par, ren(a), ren(b)) != e) c.fail("isl_schedule_constraints_apply", std::string(nm[i]) + " " + str(a) + " -> " + str(b) + ": " + S(v[i]) + " becomes " + S(g[1][i]) + " under " + S(U));
			}
		}
	}
	for (auto &par : pars) for (auto &a : p.insts(par)) if (!dm2.has(par, ren(a))) c.fail("isl_schedule_constraints_apply", "domain lost " + str(a));
	(void)k;
}

void run(Case &c)
{
	ProgOpt po; po.box = c.t.chance(1, 4) ? 3 : 2; po.max_par = 1; po.max_st = 3;
	Prog p = gen_prog(c, po);
	SchedOpt so; so.depth = 1 + c.t.below(3); so.affine = c.t.chance(1, 3);
	Sched orig = gen_sched(c, p, so);
	UMap om = R_(isl_union_map_intersect_domain(R_(isl_schedule_get_map(orig.g())).r(), p.dom.c()));
	// pairs executed in this order
	UMap lt = R_(isl_union_map_lex_lt_union_map(om.c(), om.c()));
	UMap v[5]; // validity, coincidence, proximity, cond validity, condition
	v[0] = gen_pairs(c, p, lt, false);
	bool bad_co = false; int cm = c.t.weighted({2, 3, 2}); if (cm == 1) v[1] = v[0]; else if (cm == 2) v[1] = gen_pairs(c, p, lt, bad_co = c.t.chance(1, 8));
	int pm = c.t.weighted({2, 3, 2}); if (pm == 1) v[2] = v[0]; else if (pm == 2) v[2] = gen_pairs(c, p, lt, c.t.chance(1, 2));
	bool cond = c.t.chance(1, 4);
	bool tags = false;
	if (cond) { v[4] = gen_pairs(c, p, lt, false); v[3] = gen_pairs(c, p, lt, false);
		if (c.t.chance(1, 2)) v[0] = R_(isl_union_map_union(v[0].r(), v[4].c()));   // usually conditions are flow dependences
		if (cm == 1) v[1] = v[0];
	}
	isl_ctx *x = c.ctx; std::string opts;
	auto opt = [&](const char *n, isl_stat (*f)(isl_ctx *, int), std::vector<int> vals) { if (c.t.chance(1, 3)) { int q = c.t.pick(vals); f(x, q); opts += std::string(" ") + n + "=" + std::to_string(q); } };
	if (c.t.chance(1, 4)) { isl_options_set_schedule_algorithm(x, ISL_SCHEDULE_ALGORITHM_FEAUTRIER); opts += " feautrier"; }
	opt("max_coefficient", isl_options_set_schedule_max_coefficient, {1, 2, 5}); opt("max_constant_term", isl_options_set_schedule_max_constant_term, {0, 1, 3, 10});
	opt("serialize_sccs", isl_options_set_schedule_serialize_sccs, {1}); opt("whole_component", isl_options_set_schedule_whole_component, {1});
	opt("maximize_band_depth", isl_options_set_schedule_maximize_band_depth, {1}); opt("maximize_coincidence", isl_options_set_schedule_maximize_coincidence, {0, 1});
	opt("outer_coincidence", isl_options_set_schedule_outer_coincidence, {1}); opt("split_scaled", isl_options_set_schedule_split_scaled, {0, 1});
	opt("treat_coalescing", isl_options_set_schedule_treat_coalescing, {0, 1}); opt("carry_self_first", isl_options_set_schedule_carry_self_first, {0, 1});
	isl_schedule_constraints *sc = isl_schedule_constraints_on_domain(p.dom.c());
	std::string how = p.text + "validity " + S(v[0]);
	MMap ctxm; bool has_ctx = false;
	std::vector<int> ord = {0, 1, 2, 3, 5}; for (int i = 4; i > 0; --i) std::swap(ord[i], ord[c.t.below(i + 1)]);
	for (int o : ord) {
		if (o == 0) sc = isl_schedule_constraints_set_validity(sc, v[0].c());
		if (o == 1 && v[1]) { sc = isl_schedule_constraints_set_coincidence(sc, v[1].c()); }
		if (o == 2 && v[2]) { sc = isl_schedule_constraints_set_proximity(sc, v[2].c()); }
		if (o == 3 && cond) sc = isl_schedule_constraints_set_conditional_validity(sc, v[4].c(), v[3].c());
		if (o == 5 && p.np() && c.t.chance(1, 3)) { QE e = gen_qe(c, p.np(), 1, false); Set s = R_(isl_set_params(R_(isl_pw_aff_nonneg_set(e.build(c, isl_space_set_from_params(p.pspace(c))))).r())); ctxm = extract(c, s.g()); has_ctx = true; how += "\ncontext " + S(s); sc = isl_schedule_constraints_set_context(sc, s.r()); }
	}
	if (v[1]) how += "\ncoincidence " + S(v[1]); if (v[2]) how += "\nproximity " + S(v[2]); if (cond) how += "\ncondition " + S(v[4]) + "\nconditional validity " + S(v[3]);
	how += "\noptions" + opts + "\noriginal order " + S(om);
	c.log << how << "\n";
	if (!sc) on_error(c, "isl_schedule_constraints");
	std::vector<Pt> pars; for (auto &q : p.pars(-1, 3)) if (!has_ctx || ctxm.has(q)) pars.push_back(q);
	if (c.t.chance(1, 6)) { constraints_object(c, p, isl_schedule_constraints_copy(sc), v, nullptr, pars); }
	isl_schedule *s_;
	if (!v[1] && !cond && !has_ctx && c.t.chance(1, 6)) { isl_schedule_constraints_free(sc); s_ = isl_union_set_compute_schedule(p.dom.c(), v[0].c(), v[2] ? v[2].c() : isl_union_map_empty(p.pspace(c))); if (s_) c.label("old-interface"); }
	else s_ = isl_schedule_constraints_compute_schedule(sc);
	if (!s_) {
		if (isl_ctx_last_error(x) == isl_error_quota) on_error(c, "isl_schedule_constraints_compute_schedule");
		std::string m = isl_ctx_last_error_msg(x) ? isl_ctx_last_error_msg(x) : "";
		// the original order may not be affine: no affine schedule may exist
		if (m.find("unable to carry") != std::string::npos || m.find("no") == 0) {
			// an affine original order is itself a solution
			if (so.affine && !bad_co && !cond && (cm != 2 || opts.find("outer_coincidence") == std::string::npos)) c.fail("no-schedule", m + "\n" + how);
			c.label("no-schedule: " + m); c.discard("no-schedule"); }
		on_error(c, "isl_schedule_constraints_compute_schedule");
	}
	Sched s(s_);
	how += "\nschedule " + S(s);
	USet sd = R_(isl_schedule_get_domain(s.g()));
	USM sdm = extract_us(c, p, sd.g());
	TNode tr = read_schedule(c, p, s.g());
	UMM m[5]; for (int i = 0; i < 5; ++i) if (v[i]) m[i] = extract_um(c, p, v[i].g());
	long npairs = 0, dims = 0, viol = 0, coinc = 0;
	for (auto &par : pars) {
		Ck k{c, p, par, p.insts(par)}; k.how = how;
		for (auto &t : p.st) for (auto &q : box_points(t.dim(), p.lo, p.hi)) { Inst i{tkey(t), q}; if (sdm.has(par, i) != p.dm.has(par, i)) c.fail("domain", "domain of the schedule differs at " + str(i) + " " + str(par) + "\n" + how); }
		std::map<Inst, Tm> T; for (auto &i : k.in) { T[i] = time_of(tr, par, i); if (!T[i].in) c.fail("domain", str(i) + " at " + str(par) + " is not scheduled\n" + how); }
		std::vector<IP> cnd;
		for (auto &a : k.in) for (auto &b : k.in) {
			if (a == b) continue;
			if (m[0].has(par, a, b)) k.val.insert({a, b});
			if (m[1].has(par, a, b)) k.coi.insert({a, b});
			if (cond && m[3].has(par, a, b)) k.cv.push_back({a, b});
			if (cond && m[4].has(par, a, b)) cnd.push_back({a, b});
			// injectivity: instances of one statement are executed at different times
			if (a < b && a.k == b.k && cmp(T[a], T[b]) == 0) c.fail("injective", str(a) + " and " + str(b) + " are scheduled together at " + str(par) + "\n" + how);
		}
		for (auto &x : k.cv) for (auto &y : cnd) if (y.second == x.first || x.second == y.first) k.adj[x].push_back(y);
		for (auto &x : k.val) { int q = cmp(T[x.first], T[x.second]); if (q != -1) c.fail("validity", "dependence " + str(x.first) + " -> " + str(x.second) + " at " + str(par) + (q == 0 ? " is not carried" : q == 2 ? " is unordered" : " is reversed") + "\n" + how); }
		npairs += k.val.size();
		k.walk(tr, k.in); viol += k.viol; coinc += k.coinc; dims += k.bands;
	}
	c.nontrivial = npairs >= 3 && dims;
	if (viol) c.label("condval-violated"); if (coinc) c.label("coincident"); if (cond) c.label("conditional");
}
} // namespace
Prop vp::the_prop = {"C22", "random programs with validity constraints drawn from a random original execution order, random coincidence, proximity and conditional validity constraints and scheduler options; non-trivial: at least three validity pairs and a band", run, 30000, 600000, 400000, false, 20, false, 4};
