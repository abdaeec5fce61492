// C23: schedule tree transformations keep the domain and change the order as
// documented; oracle: execution positions computed from the trees themselves.
#include "prog.h"
#include <algorithm>
#include <cstring>
// documented restrictions: bands cannot be changed inside anchored subtrees and
// domain information cannot be computed below extension nodes
template <typename T> static T *RR(vp::Case &c, T *p, const char *op)
{
	if (!p && isl_ctx_last_error(c.ctx) == isl_error_invalid) { const char *m = isl_ctx_last_error_msg(c.ctx); if (m && (strstr(m, "anchored subtree") || strstr(m, "cannot handle extension nodes"))) c.discard("documented restriction"); }
	return p;
}
#define R_(e) R(c, RR(c, e, #e), #e)
using namespace vp;
namespace {
typedef std::vector<std::pair<char, mpq_class>> Vec_;
struct Occ { Inst i; Vec_ v; };
bool operator<(const Occ &a, const Occ &b) { return a.i < b.i ? true : b.i < a.i ? false : a.v < b.v; }
std::string str(const Vec_ &v) { std::string s = "("; for (auto &e : v) s += std::string(s.size() > 1 ? "," : "") + (e.first == 'b' ? "" : std::string(1, e.first)) + e.second.get_str(); return s + ")"; }
std::string str(const Occ &o) { return vp::str(o.i) + " at " + str(o.v); }
int cmpv(const Vec_ &a, const Vec_ &b) { Tm x, y; x.v = a; y.v = b; return cmp(x, y); }

// all executions of the subtree for the given active instances; "at": the
// instances (with positions) reaching the node with the given path
struct Run {
	Case &c; const Pt &par; int lo, hi; std::vector<Occ> out;
	const std::vector<int> *path = nullptr; std::vector<Occ> at;
	FV val(const UFM &f, const Inst &i) { auto it = f.f.find(i.k); if (it != f.f.end()) return it->second.eval(cat(par, i.x))[0]; it = f.f.find("params"); if (it != f.f.end()) return it->second.eval(par)[0]; return FV(); }
	void go(const TNode &t, std::vector<Occ> act, int depth, bool on)
	{
		if (on && path && depth == (int)path->size()) at = act;
		auto sub = [&](int k) { return on && path && depth < (int)path->size() && (*path)[depth] == k; };
		switch (t.type) {
		case isl_schedule_node_domain: case isl_schedule_node_filter: {
			std::vector<Occ> r; auto it = t.filter.m.find("params"); bool all = it != t.filter.m.end() && it->second.has(par);
			for (auto &a : act) if (all || t.filter.has(par, a.i)) r.push_back(a);
			act = r; break; }
		case isl_schedule_node_band:
			for (auto &a : act) for (auto &f : t.band) { FV v = val(f, a.i); if (v.st != 1) c.fail("band", "band schedule undefined on " + vp::str(a.i)); a.v.push_back({'b', v.v}); }
			break;
		case isl_schedule_node_sequence: case isl_schedule_node_set:
			for (size_t k = 0; k < t.ch.size(); ++k) { auto r = act; for (auto &a : r) a.v.push_back({t.type == isl_schedule_node_set ? 't' : 's', mpq_class((long)k)}); go(t.ch[k], r, depth + 1, sub(k)); }
			return;
		case isl_schedule_node_extension: {
			std::set<Vec_> seen; auto r = act;
			for (auto &a : act) {
				if (!seen.insert(a.v).second) continue;
				Pt pre; for (auto &q : a.v) if (q.first == 'b') pre.push_back(q.second.get_num().get_si());
				for (auto &m : t.ext.m) { if (m.second.ni != (int)pre.size()) continue; for (auto &x : box_points(m.second.no, lo, hi)) if (m.second.has(cat(cat(par, pre), x))) r.push_back({Inst{m.first.second, x}, a.v}); }
			}
			act = r; break; }
		case isl_schedule_node_expansion: {
			std::vector<Occ> r;
			for (auto &a : act) for (auto &m : t.ext.m) if (m.first.first == a.i.k) for (auto &x : box_points(m.second.no, lo, hi)) if (m.second.has(cat(cat(par, a.i.x), x))) r.push_back({Inst{m.first.second, x}, a.v});
			act = r; break; }
		default: break;
		}
		if (!t.ch.empty()) { go(t.ch[0], act, depth + 1, sub(0)); return; }
		for (auto &a : act) out.push_back(a);
	}
};
const TNode &node_at(const TNode &t, const std::vector<int> &path) { const TNode *n = &t; for (int k : path) n = &n->ch[k]; return *n; }
const char *tname(int t) { switch (t) { case isl_schedule_node_band: return "band"; case isl_schedule_node_context: return "context"; case isl_schedule_node_domain: return "domain"; case isl_schedule_node_expansion: return "expansion"; case isl_schedule_node_extension: return "extension"; case isl_schedule_node_filter: return "filter"; case isl_schedule_node_leaf: return "leaf"; case isl_schedule_node_guard: return "guard"; case isl_schedule_node_mark: return "mark"; case isl_schedule_node_sequence: return "sequence"; case isl_schedule_node_set: return "set"; } return "?"; }
mpz_class fl(const mpq_class &q) { return fdiv(q.get_num(), q.get_den()); }

struct Sim {
	Case &c; Prog &p; std::vector<Pt> pars; std::string how;
	Sched s; TNode t;
	void set(Sched x) { s = x; t = read_schedule(c, p, s.g()); }
	std::vector<Inst> all(const Pt &par) { return p.insts(par); }
	std::vector<Occ> start(const Pt &par, const TNode &tr) { std::vector<Occ> r; for (auto &i : universe(par)) r.push_back({i, {}}); return r; }
	std::vector<Inst> uni; // candidates
	std::vector<Inst> universe(const Pt &) { return uni; }
	// pairwise order of expected and actual executions
	void compare(const char *op, const Pt &par, std::vector<Occ> want, const TNode &nt, bool exact, const std::string &msg)
	{
		Run r{c, par, p.lo - 2, p.hi + 2}; r.go(nt, start(par, nt), 0, false);
		auto got = r.out;
		std::stable_sort(got.begin(), got.end(), [](const Occ &a, const Occ &b) { return a.i < b.i; });
		std::stable_sort(want.begin(), want.end(), [](const Occ &a, const Occ &b) { return a.i < b.i; });
		// several executions of one (extension) instance: in order of execution
		auto by = [](const Occ &a, const Occ &b) { if (!(a.i == b.i)) return a.i < b.i; return cmpv(a.v, b.v) == -1; };
		std::stable_sort(got.begin(), got.end(), by); std::stable_sort(want.begin(), want.end(), by);
		auto lst = [&](const std::vector<Occ> &v) { std::string s; for (size_t k = 0; k < v.size() && k < 30; ++k) s += "  " + str(v[k]) + "\n"; return s; };
		bool same = got.size() == want.size(); for (size_t k = 0; same && k < got.size(); ++k) same = got[k].i == want[k].i;
		if (!same) c.fail(std::string("domain:") + op, "for parameters " + vp::str(par) + " the executed elements change\n" + msg + "\nexpected\n" + lst(want) + "got\n" + lst(got));
		if (exact) for (size_t k = 0; k < got.size(); ++k) if (got[k].v != want[k].v) c.fail(std::string("position:") + op, "for parameters " + vp::str(par) + " position of " + str(got[k]) + " should be " + str(want[k].v) + "\n" + msg);
		size_t n = got.size(), step = n > 60 ? n / 60 + 1 : 1;
		for (size_t a = 0; a < n; a += step) for (size_t b = 0; b < a; ++b) if (cmpv(got[a].v, got[b].v) != cmpv(want[a].v, want[b].v)) c.fail(std::string("order:") + op, "for parameters " + vp::str(par) + " the order of " + vp::str(got[a].i) + " and " + vp::str(got[b].i) + " is " + std::to_string(cmpv(got[a].v, got[b].v)) + " instead of " + std::to_string(cmpv(want[a].v, want[b].v)) + ": " + str(got[a].v) + " " + str(got[b].v) + ", expected " + str(want[a].v) + " " + str(want[b].v) + "\n" + msg);
	}
	typedef std::function<Vec_(const Occ &at, const Vec_ &old)> Fn;
	// apply a change of the position of everything that passes the node "path"
	void apply(const char *op, Sched ns, const std::vector<int> &path, bool exact, const std::string &args, std::function<bool(const Pt &, const Inst &, const Vec_ &, Vec_)> dummy, std::function<bool(const Pt &par, const Inst &i, size_t L, Vec_ &v)> f, std::function<void(const Pt &par, const std::vector<Occ> &at, std::vector<Occ> &want)> extra = nullptr)
	{
		TNode nt = read_schedule(c, p, ns.g());
		std::string ps; for (int k : path) ps += std::to_string(k) + " ";
		std::string msg = how + "-- " + op + " at [ " + ps + "] " + args + "\nbefore " + S(s.g()) + "\nafter " + S(ns.g());
		for (auto &par : pars) {
			Run r{c, par, p.lo - 2, p.hi + 2}; r.path = &path; r.go(t, start(par, t), 0, true);
			std::multiset<Occ> reach; size_t L = 0; std::set<Inst> here; std::map<Inst, std::set<Vec_>> pre;
			for (auto &a : r.at) { here.insert(a.i); pre[a.i].insert(a.v); L = a.v.size(); }
			std::vector<Occ> want;
			// elements introduced inside the subtree belong to it as well
			std::set<std::string> intro; std::function<void(const TNode &)> col = [&](const TNode &x) { if (x.type == isl_schedule_node_extension) for (auto &e : x.ext.m) intro.insert(e.first.second); for (auto &h : x.ch) col(h); };
			col(node_at(t, path)); std::set<Vec_> allpre; for (auto &a : r.at) allpre.insert(a.v);
			for (auto o : r.out) {
				bool in = false; if (o.v.size() >= L) { auto it = pre.find(o.i); if (it != pre.end() && it->second.count(Vec_(o.v.begin(), o.v.begin() + L))) in = true; if (!in && intro.count(o.i.k) && allpre.count(Vec_(o.v.begin(), o.v.begin() + L))) in = true; }
				if (in && !f(par, o.i, L, o.v)) continue;
				want.push_back(o);
			}
			if (extra) extra(par, r.at, want);
			compare(op, par, want, nt, exact, msg);
		}
		how += std::string("-- ") + op + " " + args + "\n";
		c.label(op);
		s = ns; t = nt;
	}
};
}
namespace vp { std::string S(isl_union_pw_multi_aff *); std::string S(isl_multi_union_pw_aff *); std::string S(isl_schedule *); std::string S(isl_schedule_node *); }

static void run(Case &c)
{
	ProgOpt po; po.max_st = 3; po.max_d = 2; po.max_par = 1; po.box = 3;
	Prog p = gen_prog(c, po);
	SchedOpt so; so.depth = 3; so.sets = c.t.chance(1, 3); so.marks = c.t.chance(1, 3);
	Sim m{c, p};
	m.how = p.text;
	m.set(gen_sched(c, p, so));
	{ auto v = p.pars(-1, 4); int k = v.size() > 3 ? 3 : v.size(); for (int i = 0; i < k; ++i) m.pars.push_back(c.t.pick(v)); if (m.pars.empty()) m.pars.push_back(Pt()); }
	for (size_t i = 0; i < p.st.size(); ++i) for (auto &x : box_points(p.st[i].dim(), p.lo - 2, p.hi + 2)) m.uni.push_back(Inst{tkey(p.st[i]), x});
	{ // the generated tree contains every domain element once
		for (auto &par : m.pars) {
			std::vector<Occ> want; Run r{c, par, p.lo - 2, p.hi + 2}; r.go(m.t, m.start(par, m.t), 0, false);
			std::set<Inst> a; for (auto &o : r.out) if (!a.insert(o.i).second) c.fail("twice", vp::str(o.i) + "\n" + m.how + S(m.s.g()));
			for (auto &i : p.insts(par)) if (!a.count(i)) c.discard("partial");
			if (a.size() > 1) c.nontrivial = true;
		}
	}
	isl_options_set_tile_scale_tile_loops(c.ctx, c.t.chance(1, 2)); isl_options_set_tile_shift_point_loops(c.ctx, c.t.chance(1, 2));
	bool scale = isl_options_get_tile_scale_tile_loops(c.ctx), shiftp = isl_options_get_tile_shift_point_loops(c.ctx);
	int nops = 1 + c.t.below(4); bool ext = false, dep_done = false; int grafts = 0;
	for (int k = 0; k < nops; ++k) {
		// pick a node
		std::vector<std::vector<int>> paths;
		std::function<void(const TNode &, std::vector<int>)> rec = [&](const TNode &t, std::vector<int> q) { paths.push_back(q); for (size_t i = 0; i < t.ch.size(); ++i) { auto r = q; r.push_back(i); rec(t.ch[i], r); } };
		rec(m.t, {});
		// leaves do not appear in the model as children of nodes without children
		std::vector<int> path = c.t.pick(paths);
		{ std::vector<std::vector<int>> bands; for (auto &q : paths) if (node_at(m.t, q).type == isl_schedule_node_band) bands.push_back(q); if (!bands.empty() && c.t.chance(1, 2)) path = c.t.pick(bands); }
		Node n = R_(isl_schedule_get_root(m.s.g()));
		for (int q : path) n = R_(isl_schedule_node_child(n.r(), q));
		if (node_at(m.t, path).type == isl_schedule_node_band && c.t.chance(1, 2)) {   // set attributes and read them back
			TNode w = node_at(m.t, path); int k = w.band.size();
			if (c.t.chance(1, 2)) { w.permutable = c.t.chance(1, 2); n = R_(isl_schedule_node_band_set_permutable(n.r(), w.permutable)); }
			for (int i = 0; i < k; ++i) if (c.t.chance(2, 3)) { w.coincident[i] = c.t.chance(1, 2); n = R_(isl_schedule_node_band_member_set_coincident(n.r(), i, w.coincident[i])); }
			if (c.t.chance(1, 3)) for (int i = 0; i < k; ++i) if (c.t.chance(2, 3)) { w.loop[i] = c.t.below(4); n = R_(isl_schedule_node_band_member_set_ast_loop_type(n.r(), i, (enum isl_ast_loop_type)w.loop[i])); }
			m.s = R_(isl_schedule_node_get_schedule(n.g())); m.t = read_schedule(c, p, m.s.g());
			n = R_(isl_schedule_get_root(m.s.g()));
			for (int q : path) n = R_(isl_schedule_node_child(n.r(), q));
			const TNode &x = node_at(m.t, path);
			if (x.permutable != w.permutable || x.coincident != w.coincident || x.loop != w.loop) c.fail("attributes", "attributes of a band are not what was set\n" + m.how + S(m.s.g()));
		}
		const TNode tn = node_at(m.t, path); int ty = tn.type;
		auto done = [&](Node r) { return R_(isl_schedule_node_get_schedule(r.g())); };
		auto keep = [](const Pt &, const Inst &, size_t, Vec_ &) { return true; };
		int nb = tn.band.size();
		auto mv = [&](int lo, int hi) { isl_space *sp = isl_multi_union_pw_aff_get_space(MUPA(isl_schedule_node_band_get_partial_schedule(n.g())).g()); isl_val_list *l = isl_val_list_alloc(c.ctx, nb); std::vector<long> v; for (int i = 0; i < nb; ++i) { v.push_back(c.t.range(lo, hi)); l = isl_val_list_add(l, isl_val_int_from_si(c.ctx, v.back())); } return std::make_pair(H<isl_multi_val>(isl_multi_val_from_val_list(sp, l)), v); };
		auto some_filter = [&]() { // union set over the statements
			USet u = R_(isl_union_set_empty(p.pspace(c)));
			for (size_t i = 0; i < p.st.size(); ++i) {
				int w = c.t.weighted({2, 2, 3}); if (w == 0) continue;
				Set a; if (w == 1) a = R_(isl_set_universe(mk_space(c, p.sp(i)))); else { QE e = gen_qe(c, p.np() + p.st[i].dim(), 1, false); a = R_(isl_pw_aff_nonneg_set(e.build(c, mk_space(c, p.sp(i))))); }
				u = R_(isl_union_set_add_set(u.r(), a.r()));
			}
			return u;
		};
		int sel;
		if (ty == isl_schedule_node_band && !ext && c.t.chance(2, 3)) {
			sel = c.t.below(9);
			if (sel < 3) { auto v = mv(1, 4); const char *on[] = {"band_scale", "band_scale_down", "band_mod"};
				if (sel == 0 && c.t.chance(1, 3)) v = mv(-2, 3);
				Node r = R(c, (sel == 0 ? isl_schedule_node_band_scale : sel == 1 ? isl_schedule_node_band_scale_down : isl_schedule_node_band_mod)(n.c(), v.first.c()), on[sel]);
				m.apply(on[sel], done(r), path, true, S(v.first.g()), nullptr, [&](const Pt &, const Inst &, size_t L, Vec_ &o) { for (int j = 0; j < nb; ++j) { mpq_class &b = o[L + j].second; mpz_class z(v.second[j]); if (sel == 0) b = b * z; else if (sel == 1) b = fl(b / z); else b = b - z * fl(b / z); } return true; });
			} else if (sel == 3) { MUPA f = R_(gen_mupa(c, p, nb, nullptr, -1)); { Space sp(isl_multi_union_pw_aff_get_space(MUPA(isl_schedule_node_band_get_partial_schedule(n.g())).g())); if (isl_space_has_tuple_id(sp.g(), isl_dim_set)) f = R_(isl_multi_union_pw_aff_set_tuple_id(f.r(), isl_dim_set, isl_space_get_tuple_id(sp.g(), isl_dim_set))); }
				std::vector<UFM> fm; for (int j = 0; j < nb; ++j) { UPA u = R_(isl_multi_union_pw_aff_get_union_pw_aff(f.g(), j)); fm.push_back(extract_upa(c, p, u.g())); }
				Node r = R_(isl_schedule_node_band_shift(n.c(), f.c()));
				m.apply("band_shift", done(r), path, true, S(f.g()), nullptr, [&](const Pt &par, const Inst &i, size_t L, Vec_ &o) { for (int j = 0; j < nb; ++j) { auto it = fm[j].f.find(i.k); if (it == fm[j].f.end()) c.fail("harness:shift", "no value"); o[L + j].second += fl(it->second.eval(cat(par, i.x))[0].v); } return true; });
			} else if (sel == 4 || sel == 5) { auto v = mv(1, 4);
				Node r = R_(isl_schedule_node_band_tile(n.c(), v.first.c()));
				m.apply("band_tile", done(r), path, true, S(v.first.g()) + (scale ? " scale" : "") + (shiftp ? " shift" : ""), nullptr, [&](const Pt &, const Inst &, size_t L, Vec_ &o) { Vec_ q(o.begin(), o.begin() + L); for (int j = 0; j < nb; ++j) { mpz_class z(v.second[j]), w = fl(o[L + j].second / z); q.push_back({'b', scale ? mpq_class(w * z) : mpq_class(w)}); } for (int j = 0; j < nb; ++j) { mpz_class z(v.second[j]); q.push_back({'b', shiftp ? mpq_class(o[L + j].second - z * fl(o[L + j].second / z)) : o[L + j].second}); } q.insert(q.end(), o.begin() + L + nb, o.end()); o = q; return true; });
				const TNode &x = node_at(m.t, path); if (x.permutable != tn.permutable || x.coincident != tn.coincident || x.ch.empty() || x.ch[0].permutable != tn.permutable || x.ch[0].coincident != tn.coincident) c.fail("tile:attributes", "permutable or coincident attributes are not kept\n" + m.how + S(m.s.g()));
			} else if (sel == 6) { if (nb < 2) continue; int pos = 1 + c.t.below(nb - 1);
				Node r = R_(isl_schedule_node_band_split(n.c(), pos));
				m.apply("band_split", done(r), path, true, std::to_string(pos), nullptr, keep);
				const TNode &x = node_at(m.t, path); if ((int)x.band.size() != pos || x.ch.empty() || x.ch[0].type != isl_schedule_node_band || (int)x.ch[0].band.size() != nb - pos) c.fail("split", "wrong number of members\n" + m.how + S(m.s.g()));
				if (x.permutable != tn.permutable || x.ch[0].permutable != tn.permutable || !std::equal(x.coincident.begin(), x.coincident.end(), tn.coincident.begin()) || !std::equal(x.ch[0].coincident.begin(), x.ch[0].coincident.end(), tn.coincident.begin() + pos) || !std::equal(x.loop.begin(), x.loop.end(), tn.loop.begin()) || !std::equal(x.ch[0].loop.begin(), x.ch[0].loop.end(), tn.loop.begin() + pos)) c.fail("split:attributes", m.how + S(m.s.g()));
			} else if (sel == 7) { Node r = R_(isl_schedule_node_band_sink(n.c()));
				m.apply("band_sink", done(r), path, true, "", nullptr, [&](const Pt &, const Inst &, size_t L, Vec_ &o) { std::rotate(o.begin() + L, o.begin() + L + nb, o.end()); return true; });
			} else { Node r = R_(isl_schedule_node_delete(n.c()));
				m.apply("delete:band", done(r), path, true, "", nullptr, [&](const Pt &, const Inst &, size_t L, Vec_ &o) { o.erase(o.begin() + L, o.begin() + L + nb); return true; }); }
			continue;
		}
		// schedule level
		if (!ext && c.t.chance(1, 5)) {
			switch (c.t.below(7)) {
			case 0: { USet f = some_filter(); USM fm = extract_us(c, p, f.g()); Sched r = R_(isl_schedule_intersect_domain(m.s.c(), f.c())); m.apply("intersect_domain", r, {}, false, S(f), nullptr, [&](const Pt &par, const Inst &i, size_t, Vec_ &) { return fm.has(par, i); }); break; }
			case 1: { MUPA f = R_(gen_mupa(c, p, 1 + c.t.below(2))); std::vector<UFM> fm; for (int j = 0; j < (int)isl_multi_union_pw_aff_size(f.g()); ++j) { UPA u = R_(isl_multi_union_pw_aff_get_union_pw_aff(f.g(), j)); fm.push_back(extract_upa(c, p, u.g())); } Sched r = R_(isl_schedule_insert_partial_schedule(m.s.c(), f.c())); m.apply("schedule_insert_partial_schedule", r, {}, true, S(f.g()), nullptr, [&](const Pt &par, const Inst &i, size_t, Vec_ &o) { Vec_ q; for (auto &u : fm) { auto it = u.f.find(i.k); q.push_back({'b', mpq_class(fl(it->second.eval(cat(par, i.x))[0].v))}); } o.insert(o.begin(), q.begin(), q.end()); return true; }); break; }
			case 2: { Sched r = R_(isl_schedule_insert_context(m.s.c(), isl_set_universe(p.pspace(c)))); m.apply("schedule_insert_context", r, {}, true, "", nullptr, keep); break; }
			case 3: { Sched r = R_(isl_schedule_reset_user(m.s.c())); m.apply("reset_user", r, {}, true, "", nullptr, keep); break; }
			case 4: { if (p.np() == 0) break; Set ctx = R_(isl_set_params(isl_union_set_params(p.dom.c()))); Sched r = R_(isl_schedule_gist_domain_params(m.s.c(), ctx.c())); MMap cm = extract(c, ctx.g()); auto old = m.pars; std::vector<Pt> q; for (auto &x : m.pars) if (cm.has(x)) q.push_back(x); if (q.empty()) break; m.pars = q; m.apply("gist_domain_params", r, {}, true, S(ctx), nullptr, keep); break; }
			case 5: { // pullback by shifts of the statements
				UPMA f = R_(isl_union_pw_multi_aff_empty(p.pspace(c))); std::map<std::string, std::pair<Pt, int>> sh;
				for (size_t i = 0; i < p.st.size(); ++i) { Space sp(mk_space(c, p.sp(i))); MAff a = R_(isl_multi_aff_identity(isl_space_map_from_set(sp.c()))); Pt d; for (int j = 0; j < p.st[i].dim(); ++j) { int v = c.t.range(-1, 1); d.push_back(v); Aff x = R_(isl_multi_aff_get_aff(a.g(), j)); x = R_(isl_aff_add_constant_si(x.r(), v)); a = R_(isl_multi_aff_set_aff(a.r(), j, x.r())); } sh[tkey(p.st[i])] = {d, 0}; f = R_(isl_union_pw_multi_aff_add_pw_multi_aff(f.r(), R_(isl_pw_multi_aff_from_multi_aff(a.r())).r())); }
				Sched r = R_(isl_schedule_pullback_union_pw_multi_aff(m.s.c(), f.c()));
				m.apply("pullback", r, {}, false, S(f.g()), nullptr, [](const Pt &, const Inst &, size_t, Vec_ &) { return false; }, [&](const Pt &par, const std::vector<Occ> &, std::vector<Occ> &want) { Run o{c, par, p.lo - 2, p.hi + 2}; Sched old = m.s; o.go(m.t, m.start(par, m.t), 0, false); for (auto &x : o.out) { Occ y = x; auto &d = sh[x.i.k].first; for (size_t j = 0; j < y.i.x.size(); ++j) y.i.x[j] -= d[j]; want.push_back(y); } });
				k = nops; break; }
			default: { Sched r = R_(isl_schedule_align_params(m.s.c(), p.pspace(c))); m.apply("align_params", r, {}, true, "", nullptr, keep); break; }
			}
			continue;
		}
		if (path.empty()) { if (isl_schedule_node_n_children(n.g()) <= 0) continue; path.push_back(0); n = R_(isl_schedule_node_child(n.r(), 0)); ty = isl_schedule_node_get_type(n.g()); if (ty == isl_schedule_node_leaf && node_at(m.t, {}).ch.empty()) continue; }
		bool is_child = ty == isl_schedule_node_filter && (ty = isl_schedule_node_get_parent_type(n.g()), ty == isl_schedule_node_sequence || ty == isl_schedule_node_set);
		if (is_child) { // filter of a sequence: use its child
			path.push_back(0); n = R_(isl_schedule_node_child(n.r(), 0));
		}
		{ std::vector<int> q(path.begin(), path.end() - 1); if (node_at(m.t, q).ch.empty()) continue; }
		ty = isl_schedule_node_get_type(n.g());
		USet here; if (!ext) here = R_(isl_schedule_node_get_domain(n.g()));
		switch (c.t.below(ext ? 4 : 12)) {
		case 0: { Node r = R_(isl_schedule_node_insert_mark(n.c(), isl_id_alloc(c.ctx, "m", nullptr))); if (isl_schedule_node_get_type(r.g()) != isl_schedule_node_mark) c.fail("insert_mark", "not at the mark"); m.apply("insert_mark", done(r), path, true, "", nullptr, keep); break; }
		case 1: case 2: { // graft
			if (grafts >= 2 || dep_done) break;
			bool before = c.t.chance(1, 2); int d = N(c, isl_schedule_node_get_schedule_depth(n.g()), "depth"); std::string nm = grafts ? "H" : "G"; ++grafts; bool dep = d > 0 && c.t.chance(1, 2);
			std::string tx = p.np() ? "[" + std::string() : ""; if (p.np()) { for (int i = 0; i < p.np(); ++i) tx += (i ? ", " : "") + p.params[i]; tx += "] -> "; }
			std::string dims; for (int i = 0; i < d; ++i) dims += (i ? ", a" : "a") + std::to_string(i);
			bool dom = c.t.chance(1, 4);
			Node g;
			if (dom) { g = R_(isl_schedule_node_from_domain(isl_union_set_read_from_str(c.ctx, (tx + "{ " + nm + "[0] }").c_str()))); dep = false; }
			else g = R_(isl_schedule_node_from_extension(isl_union_map_read_from_str(c.ctx, (tx + "{ [" + dims + "] -> " + nm + "[x] : 0 <= x < 2" + (dep ? " and a0 >= x }" : " }")).c_str())));
			bool ord = !dom && c.t.chance(1, 2);
			if (ord) { g = R_(isl_schedule_node_child(g.r(), 0)); g = R_(isl_schedule_node_insert_partial_schedule(g.r(), isl_multi_union_pw_aff_read_from_str(c.ctx, (tx + "[{ " + nm + "[x] -> [(-x)] }]").c_str()))); g = R_(isl_schedule_node_parent(g.r())); }
			Node r = R_(before ? isl_schedule_node_graft_before(n.c(), g.c()) : isl_schedule_node_graft_after(n.c(), g.c()));
			std::string key = tkey(mk_tup(nm, 1));
			m.apply(before ? "graft_before" : "graft_after", done(r), path, false, S(g.g()), nullptr, [&](const Pt &, const Inst &, size_t L, Vec_ &o) { o.insert(o.begin() + L, {'s', mpq_class(before ? 1 : 0)}); return true; }, [&](const Pt &par, const std::vector<Occ> &at, std::vector<Occ> &want) { std::set<Vec_> seen; for (auto &a : at) { if (!seen.insert(a.v).second) continue; mpq_class a0; for (auto &e : a.v) if (e.first == 'b') { a0 = e.second; break; } for (int x = 0; x < (dom ? 1 : 2); ++x) { if (dep && !(a0 >= x)) continue; Occ o; o.i = Inst{key, {x}}; o.v = a.v; o.v.push_back({'s', mpq_class(before ? 0 : 1)}); if (ord) o.v.push_back({'b', mpq_class(-x)}); want.push_back(o); } } });
			ext = true; dep_done = dep; break; }
		case 3: { if (ty == isl_schedule_node_leaf) break; if (ext) break; Node r = R_(isl_schedule_node_cut(n.c())); m.apply("cut", done(r), path, true, "", nullptr, [&](const Pt &, const Inst &, size_t L, Vec_ &o) { o.resize(L); return true; }); break; }
		case 4: { MUPA f = R_(gen_mupa(c, p, 1 + c.t.below(2))); std::vector<UFM> fm; for (int j = 0; j < (int)isl_multi_union_pw_aff_size(f.g()); ++j) { UPA u = R_(isl_multi_union_pw_aff_get_union_pw_aff(f.g(), j)); fm.push_back(extract_upa(c, p, u.g())); }
			Node r = R_(isl_schedule_node_insert_partial_schedule(n.c(), f.c()));
			m.apply("insert_partial_schedule", done(r), path, true, S(f.g()), nullptr, [&](const Pt &par, const Inst &i, size_t L, Vec_ &o) { Vec_ q; for (auto &u : fm) { auto it = u.f.find(i.k); q.push_back({'b', mpq_class(fl(it->second.eval(cat(par, i.x))[0].v))}); } o.insert(o.begin() + L, q.begin(), q.end()); return true; }); break; }
		case 5: case 6: { bool set = c.t.chance(1, 3); int parts = 2 + c.t.chance(1, 3); std::vector<USM> fm; isl_union_set_list *l = isl_union_set_list_alloc(c.ctx, parts); USet rest = here; std::string tx;
			for (int j = 0; j < parts; ++j) { USet f = j == parts - 1 ? rest : R_(isl_union_set_intersect(rest.c(), some_filter().r())); rest = R_(isl_union_set_subtract(rest.r(), f.c())); fm.push_back(extract_us(c, p, f.g())); l = isl_union_set_list_add(l, f.c()); tx += S(f) + "; "; }
			Node r = R_(set ? isl_schedule_node_insert_set(n.c(), l) : isl_schedule_node_insert_sequence(n.c(), l));
			m.apply(set ? "insert_set" : "insert_sequence", done(r), path, false, tx, nullptr, [&](const Pt &par, const Inst &i, size_t L, Vec_ &o) { for (int j = 0; j < parts; ++j) if (fm[j].has(par, i)) { o.insert(o.begin() + L, {set ? 't' : 's', mpq_class(j)}); return true; } return false; }); break; }
		case 7: { USet f = some_filter(); USM fm = extract_us(c, p, f.g()); Node r = R_(isl_schedule_node_insert_filter(n.c(), f.c())); m.apply("insert_filter", done(r), path, true, S(f), nullptr, [&](const Pt &par, const Inst &i, size_t, Vec_ &) { return fm.has(par, i); }); k = nops; break; }
		case 8: case 9: { bool before = c.t.chance(1, 2); USet f = some_filter(); USM fm = extract_us(c, p, f.g()); Node r = R_(before ? isl_schedule_node_order_before(n.c(), f.c()) : isl_schedule_node_order_after(n.c(), f.c()));
			// the result points at the elements that do not satisfy the filter
			USet rd = R_(isl_schedule_node_get_domain(r.g())), wantd = R_(isl_union_set_subtract(here.c(), f.c())); if (!B(c, isl_union_set_is_empty(wantd.g()), "empty") && !B(c, isl_union_set_is_equal(rd.g(), wantd.g()), "eq")) c.fail("order:pointer", "result points at " + S(rd) + " instead of " + S(wantd) + "\n" + m.how + S(m.s.g()) + "\nfilter " + S(f));
			m.apply(before ? "order_before" : "order_after", done(r), path, false, S(f), nullptr, [&](const Pt &par, const Inst &i, size_t L, Vec_ &o) { bool in = fm.has(par, i); o.insert(o.begin() + L, {'s', mpq_class(in == before ? 0 : 1)}); return true; }); break; }
		case 10: { if (!(ty == isl_schedule_node_mark || ty == isl_schedule_node_context || ty == isl_schedule_node_guard)) { // group
				if (c.t.chance(1, 2)) { Node r = R_(isl_schedule_node_group(n.c(), isl_id_alloc(c.ctx, "grp", nullptr))); Sched gs = done(r);
					// flattened order of the grouped tree
					UMap a = R_(isl_schedule_get_map(m.s.g())), b = R_(isl_schedule_get_map(gs.g()));
					UMap ab = R_(isl_union_map_lex_lt_union_map(a.c(), a.c())), bb = R_(isl_union_map_lex_lt_union_map(b.c(), b.c()));
					UMM am = extract_um(c, p, ab.g()), bm = extract_um(c, p, bb.g());
					for (auto &par : m.pars) { auto in = p.insts(par); if (in.size() > 40) in.resize(40); std::set<Inst> live; Run q{c, par, p.lo - 2, p.hi + 2}; q.go(m.t, m.start(par, m.t), 0, false); for (auto &o : q.out) live.insert(o.i); for (auto &x : in) for (auto &y : in) if (live.count(x) && live.count(y) && am.has(par, x, y) != bm.has(par, x, y)) c.fail("order:group", "order of " + vp::str(x) + " and " + vp::str(y) + " changes\n" + m.how + S(m.s.g()) + "\ngrouped " + S(gs.g())); }
					c.label("group"); k = nops; }
				break; }
			Node r = R_(isl_schedule_node_delete(n.c())); m.apply("delete", done(r), path, true, "", nullptr, keep); break; }
		default: { // flatten nested sequences
			std::vector<std::vector<int>> sq; for (auto &q : paths) { const TNode &x = node_at(m.t, q); if (x.type == isl_schedule_node_sequence) for (auto &ch : x.ch) if (!ch.ch.empty() && ch.ch[0].type == isl_schedule_node_sequence) { sq.push_back(q); break; } }
			if (sq.empty()) break; auto q = c.t.pick(sq); Node y = R_(isl_schedule_get_root(m.s.g())); for (int z : q) y = R_(isl_schedule_node_child(y.r(), z));
			Node r; if (c.t.chance(1, 2)) r = R_(isl_schedule_node_sequence_splice_children(y.c())); else { const TNode &x = node_at(m.t, q); int at = 0; for (size_t z = 0; z < x.ch.size(); ++z) if (!x.ch[z].ch.empty() && x.ch[z].ch[0].type == isl_schedule_node_sequence) at = z; r = R_(isl_schedule_node_sequence_splice_child(y.c(), at)); }
			m.apply("splice", done(r), q, false, "", nullptr, keep); break; }
		}
	}
	// queries on a random node of the final tree
	if (!ext) {
		Node n = R_(isl_schedule_get_root(m.s.g())); std::vector<int> path; const TNode *t = &m.t;
		while (!t->ch.empty() && c.t.chance(4, 5)) { int k = c.t.below(t->ch.size()); path.push_back(k); t = &t->ch[k]; n = R_(isl_schedule_node_child(n.r(), k)); }
		if (t->type != isl_schedule_node_expansion) {
			std::string msg = m.how + S(n.g());
			USet dom = R_(isl_schedule_node_get_domain(n.g())), ud = R_(isl_schedule_node_get_universe_domain(n.g()));
			MUPA pre = R_(isl_schedule_node_get_prefix_schedule_multi_union_pw_aff(n.g())); UMap prel = R_(isl_schedule_node_get_prefix_schedule_relation(n.g())), pum = R_(isl_schedule_node_get_prefix_schedule_union_map(n.g()));
			int d = N(c, isl_schedule_node_get_schedule_depth(n.g()), "depth");
			USM dm = extract_us(c, p, dom.g()), um = extract_us(c, p, ud.g()); std::vector<UFM> fm; for (int j = 0; j < d; ++j) { UPA u = R_(isl_multi_union_pw_aff_get_union_pw_aff(pre.g(), j)); fm.push_back(extract_upa(c, p, u.g())); }
			UMM rm = extract_um(c, p, prel.g()), pm = extract_um(c, p, pum.g());
			if (!t->ch.empty() && t->type == isl_schedule_node_domain) {}
			for (auto &par : m.pars) {
				Run r{c, par, p.lo - 2, p.hi + 2}; r.path = &path; r.go(m.t, m.start(par, m.t), 0, true);
				std::set<Inst> in; for (auto &a : r.at) in.insert(a.i);
				for (auto &i : m.uni) if (path.size() && dm.has(par, i) != !!in.count(i)) c.fail("get_domain", vp::str(i) + " for " + vp::str(par) + " wrong in " + S(dom) + "\n" + msg);
				for (auto &a : r.at) if (path.size()) {
					if (!um.has(par, a.i)) c.fail("get_universe_domain", vp::str(a.i) + " not in " + S(ud) + "\n" + msg);
					Pt v; for (auto &e : a.v) if (e.first == 'b') v.push_back(e.second.get_num().get_si());
					if ((int)v.size() != d) c.fail("get_schedule_depth", std::to_string(d) + " instead of " + std::to_string(v.size()) + "\n" + msg);
					for (int j = 0; j < d; ++j) { auto it = fm[j].f.find(a.i.k); FV x; if (it != fm[j].f.end()) x = it->second.eval(cat(par, a.i.x))[0]; else if ((it = fm[j].f.find("params")) != fm[j].f.end()) x = it->second.eval(par)[0]; if (x.st != 1 || x.v != v[j]) c.fail("get_prefix_schedule", "prefix of " + vp::str(a.i) + " is not " + vp::str(v) + "\n" + S(pre.g()) + "\n" + msg); }
					for (int w = 0; w < 2; ++w) { auto &mm = w ? rm : pm; bool hit = false; for (auto &e : mm.m) if (e.first.first == a.i.k && e.second.no == d) { if (e.second.has(cat(cat(par, a.i.x), v))) hit = true; if (d) { Pt u = v; u[c.t.below(d)] += 1; if (e.second.has(cat(cat(par, a.i.x), u))) c.fail("get_prefix_schedule_relation", "several positions for " + vp::str(a.i) + "\n" + msg); } } if (!hit) c.fail(w ? "get_prefix_schedule_relation" : "get_prefix_schedule_union_map", "no position " + vp::str(v) + " for " + vp::str(a.i) + "\n" + S(w ? prel : pum) + "\n" + msg); }
				}
			}
			c.label(std::string("query:") + tname(t->type));
		}
		// the flattened schedule
		UMap f = R_(isl_schedule_get_map(m.s.g())); UMap lt = R_(isl_union_map_lex_lt_union_map(f.c(), f.c())); UMM lm = extract_um(c, p, lt.g());
		for (auto &par : m.pars) {
			Run r{c, par, p.lo - 2, p.hi + 2}; r.go(m.t, m.start(par, m.t), 0, false); auto o = r.out; if (o.size() > 40) o.resize(40);
			for (auto &a : o) for (auto &b : o) { Vec_ x = a.v, y = b.v; for (auto &e : x) if (e.first == 't') e.first = 's'; for (auto &e : y) if (e.first == 't') e.first = 's'; bool w = cmpv(x, y) == -1; if (lm.has(par, a.i, b.i) != w) c.fail("get_map", vp::str(a.i) + (w ? " should" : " should not") + " be scheduled before " + vp::str(b.i) + " in " + S(f) + "\n" + m.how + S(m.s.g())); }
		}
		c.label("get_map");
	}
	// reading back
	std::string tx = S(m.s.g()); c.log << tx; Sched q = R_(isl_schedule_read_from_str(c.ctx, tx.c_str()));
	if (!B(c, isl_schedule_plain_is_equal(m.s.g(), q.g()), "plain")) { // different representations are compared by what they execute
		TNode nt = read_schedule(c, p, q.g()); for (auto &par : m.pars) { Run r{c, par, p.lo - 2, p.hi + 2}; r.go(m.t, m.start(par, m.t), 0, false); m.compare("reread", par, r.out, nt, false, tx); } c.label("reread:differs");
	} else c.label("reread:equal");
}
Prop vp::the_prop = {"C23", "random programs with a random schedule tree (bands, sequences, sets, marks) to which one to four random tree or schedule transformations are applied at random nodes; the executed elements and their pairwise order (and exact band values where documented) are compared with the documented effect on the positions before; prefix schedules, domains, depth, flattened schedule and reading back are checked on the final tree; non-trivial: at least two elements",
	run, 15000, 1000000, 400000};
