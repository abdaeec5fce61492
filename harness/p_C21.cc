// C21: dependence analysis against brute-force enumeration of the execution.
#include "prog.h"
#include <isl/flow.h>
#include <isl/ilp.h>
#define R_(e) R(c, e, #e)
using namespace vp;

namespace {
struct Acc1 { int st; int arr; std::vector<QE> idx; int w = 0; QE guard; bool guarded = false; };   // subscripts idx[0..], last one widened by w
struct Accs {
	std::vector<Acc1> a; std::string text;
	// accessed elements per instance
	std::vector<Inst> elems(const Prog &p, const Pt &par, const Inst &i) const
	{
		std::set<Inst> r;
		for (auto &x : a) {
			if (tkey(p.st[x.st]) != i.k) continue;
			Pt v = cat(par, i.x);
			if (x.guarded && x.guard.eval(v) < 0) continue;
			Pt e; for (auto &q : x.idx) { mpq_class z = q.eval(v); e.push_back(z.get_num().get_si()); }
			std::string k = std::string(1, 'A' + x.arr) + "/" + std::to_string(e.size());
			for (int d = 0; d <= x.w; ++d) { Pt f = e; if (d) f.back() += d; r.insert({k, f}); }
		}
		return {r.begin(), r.end()};
	}
};
int arr_dim(int a) { return a == 2 ? 0 : a + 1; }   // A 1-d, B 2-d, C scalar

UMap build_acc(Case &c, const Prog &p, Accs &A, int n, bool multi, int maxarr)
{
	UMap u = R_(isl_union_map_empty(p.pspace(c)));
	for (int k = 0; k < n; ++k) {
		Acc1 x; x.st = c.t.below(p.st.size()); x.arr = c.t.below(maxarr);
		int d = p.st[x.st].dim(), nv = p.np() + d;
		Sp sp = p.sp(x.st); auto names = var_names(sp);
		for (int j = 0; j < arr_dim(x.arr); ++j) {
			QE e; int m = c.t.weighted({4, 3, 2});
			if (m == 0 && d) { e.k = QE::VAR; e.var = p.np() + c.t.below(d); }
			else if (m == 1 || !nv) { e.k = QE::CST; e.c = c.t.range(-1, 3); }
			else e = gen_qe(c, nv, 1, false);
			x.idx.push_back(e);
		}
		if (multi && !x.idx.empty() && c.t.chance(1, 5)) x.w = 1 + c.t.below(2);
		if (c.t.chance(1, 6)) { x.guarded = true; x.guard = gen_qe(c, nv, 1, false); }
		// build
		isl_space *ss = mk_space(c, sp);
		Space os(isl_space_add_dims(isl_space_set_from_params(p.pspace(c)), isl_dim_set, x.idx.size()));
		os = R_(isl_space_set_tuple_name(os.r(), isl_dim_set, std::string(1, 'A' + x.arr).c_str()));
		Space ms = R_(isl_space_map_from_domain_and_range(isl_space_copy(ss), os.c()));
		MPA m = R_(isl_multi_pw_aff_zero(ms.c()));
		for (size_t j = 0; j < x.idx.size(); ++j) m = R_(isl_multi_pw_aff_set_pw_aff(m.r(), j, x.idx[j].build(c, isl_space_copy(ss))));
		Map r = R_(isl_map_from_multi_pw_aff(m.r()));
		std::string t = names.empty() ? "" : "";
		if (x.w) {
			std::string txt = x.arr == 0 ? "{ A[i] -> A[j] : i <= j <= i + " : "{ B[k, i] -> B[k, j] : i <= j <= i + ";
			r = R_(isl_map_apply_range(r.r(), R_(isl_map_read_from_str(c.ctx, (txt + std::to_string(x.w) + " }").c_str())).r()));
		}
		if (x.guarded) r = R_(isl_map_intersect_domain(r.r(), R_(isl_pw_aff_nonneg_set(x.guard.build(c, isl_space_copy(ss)))).r()));
		isl_space_free(ss);
		u = R_(isl_union_map_add_map(u.r(), r.r()));
		A.a.push_back(x);
	}
	// usually restrict to the domain, sometimes leave the relation larger
	if (c.t.chance(1, 2)) u = R_(isl_union_map_intersect_domain(u.r(), p.dom.c()));
	A.text = S(u);
	return u;
}

struct Src { Inst i; bool must, may, kill; Tm t; };
typedef std::pair<Inst, Inst> IP;                 // source, sink
struct Want { std::set<IP> may, must; std::set<std::pair<IP, Inst>> fmay, fmust; std::set<IP> may_amb; std::set<std::pair<IP, Inst>> must_amb; std::set<IP> no_must, no_may; std::set<IP> no_may_amb; std::set<IP> no_must_amb; };

bool is_before(const Tm &a, const Tm &b) { return cmp(a, b) == -1; }

struct Elem { std::vector<Src> s; };

void model(Case &c, const Prog &p, const TNode &tr, const Pt &par, const Accs &sink, const Accs &must, const Accs &may, const Accs &kill, Want &w, bool &interesting)
{
	auto in = p.insts(par);
	std::map<Inst, Tm> T; std::vector<Inst> act;
	for (auto &i : in) { Tm t = time_of(tr, par, i); if (t.in) { T[i] = t; act.push_back(i); } }
	std::map<Inst, std::map<Inst, Src>> E;        // element -> instance -> access
	auto add = [&](const Accs &a, int kind) {
		for (auto &i : act) for (auto &e : a.elems(p, par, i)) {
			auto &m = E[e]; auto it = m.find(i);
			if (it == m.end()) it = m.insert({i, Src{i, false, false, false, T[i]}}).first;
			if (kind == 0) it->second.must = true; if (kind == 1) it->second.may = true; if (kind == 2) it->second.kill = true;
		}
	};
	add(must, 0); add(may, 1); add(kill, 2);
	for (auto &r : act) for (auto &e : sink.elems(p, par, r)) {
		bool any = false, def = false, amb = false, taint = false, has_must = false, has_kill = false;
		auto it = E.find(e);
		if (it != E.end()) {
			const Tm &tr_ = T[r];
			std::vector<const Src *> bef;
			for (auto &x : it->second) if (is_before(x.second.t, tr_)) bef.push_back(&x.second);
			for (auto *s : bef) {
				if (s->must || s->kill) {
					(s->must ? has_must : has_kill) = true;
					for (auto *k : bef) if (k != s && (k->must || k->kill) && k->i.k == s->i.k && cmp(k->t, s->t) == 0) taint = true;
				}
				if (!s->must && !s->may) continue;
				bool killed = false, later_may = false, co = false, cokill = false;
				for (auto *k : bef) {
					if (is_before(s->t, k->t)) { if (k->must || k->kill) killed = true; if (k->may) later_may = true; }
					else if (k != s && !is_before(k->t, s->t)) { if (k->must || k->may) co = true; else cokill = true; }
				}
				if (killed) { interesting = true; continue; }
				any = true;
				IP ip(s->i, r);
				w.may.insert(ip); w.fmay.insert({ip, e});
				if (s->must && !later_may && !co) {
					if (cokill || s->may) { w.must_amb.insert({ip, e}); amb = true; }
					else { w.must.insert(ip); w.fmust.insert({ip, e}); def = true; }
				}
			}
		}
		if (taint) c.label("self-coscheduled");
		if (!any) (has_kill ? w.no_must_amb : w.no_must).insert({r, e});
		if (amb || ((has_must || has_kill) && !def)) w.no_may_amb.insert({r, e}); else if (!def) w.no_may.insert({r, e});
	}
}

// all pairs of instances in a union map
void cmp_pairs(Case &c, const char *what, const UMM &got, const Pt &par, const std::vector<Inst> &src, const std::vector<Inst> &dst, const std::function<int(const IP &)> &want, const std::string &how)
{
	for (auto &a : src) for (auto &b : dst) {
		int w = want({a, b}); if (w == 2) continue;
		bool g = got.has(par, a, b);
		if (g != (w == 1))
			c.fail(what, std::string(what) + (g ? " contains " : " lacks ") + str(a) + " -> " + str(b) + " at parameters " + str(par) + "\n" + how);
	}
}
// no tuple outside the known keys
void keys(Case &c, const char *what, const UMM &m, const std::set<std::string> &in, const std::set<std::string> &out, const std::string &how)
{
	for (auto &x : m.m) {
		if (in.count(x.first.first) && out.count(x.first.second)) continue;
		for (auto &b : x.second.d) if (sat(b)) c.fail(what, std::string(what) + ": unexpected space " + x.first.first + " -> " + x.first.second + "\n" + how);
	}
}

void high_level(Case &c)
{
	ProgOpt po; po.box = c.t.chance(1, 4) ? 3 : 2; po.max_par = 1;
	Prog p = gen_prog(c, po);
	SchedOpt so; so.depth = 1 + c.t.below(3);
	Sched sc = gen_sched(c, p, so);
	TNode tr = read_schedule(c, p, sc.g());
	Accs A[4]; UMap m[4]; // sink, must, may, kill
	int maxarr = 1 + c.t.below(3);
	m[0] = build_acc(c, p, A[0], 1 + c.t.below(2), true, maxarr);
	int n1 = c.t.weighted({1, 3, 3, 1}), n2 = c.t.weighted({3, 2, 2}), n3 = c.t.weighted({4, 2, 1});
	if (!n1 && !n2) n1 = 1;
	m[1] = build_acc(c, p, A[1], n1, true, maxarr);
	m[2] = build_acc(c, p, A[2], n2, true, maxarr);
	m[3] = build_acc(c, p, A[3], n3, true, maxarr);
	if (c.t.chance(1, 6)) { // value based: kills are all the may sources
		A[3] = A[2]; m[3] = m[2];
	}
	// instances outside the schedule's domain: restrict the schedule
	if (c.t.chance(1, 5)) {
		Sp sp = p.sp(0);
		QE e = gen_qe(c, p.np() + p.st[0].dim(), 1, false);
		Set s = R_(isl_pw_aff_nonneg_set(e.build(c, mk_space(c, sp))));
		USet keep = R_(isl_union_set_universe(p.dom.c()));
		keep = R_(isl_union_set_subtract(keep.r(), isl_union_set_from_set(R_(isl_set_complement(s.r())).r())));
		sc = R_(isl_schedule_intersect_domain(sc.r(), keep.r()));
		tr = read_schedule(c, p, sc.g());
		c.label("restricted-domain");
	}
	std::string how = p.text + "schedule " + S(sc) + "\nsink " + A[0].text + "\nmust " + A[1].text + "\nmay " + A[2].text + "\nkill " + A[3].text;
	int mode = c.t.weighted({3, 3, 1});
	if (mode == 2 && !A[3].a.empty()) mode = 1;
	how += mode == 0 ? "\nschedule tree" : mode == 1 ? "\nschedule map" : "\nlegacy";
	std::ostringstream hs; hs << how;
	c.log << how << "\n";
	UMap res[6]; // must, may, full must, full may, must no source, may no source
	USet sdom = R_(isl_schedule_get_domain(sc.g()));
	if (mode == 2) {
		UMap smap = R_(isl_union_map_intersect_domain(R_(isl_schedule_get_map(sc.g())).r(), sdom.c()));
		isl_union_map *o[4] = {};
		UMap mm[3]; for (int i = 0; i < 3; ++i) mm[i] = R_(isl_union_map_intersect_domain(m[i].c(), sdom.c()));
		int rr = isl_union_map_compute_flow(mm[0].r(), mm[1].r(), mm[2].r(), smap.r(), &o[0], &o[1], &o[2], &o[3]);
		if (rr < 0) { for (auto *x : o) if (x) isl_union_map_free(x); on_error(c, "isl_union_map_compute_flow"); }
		res[0] = UMap(o[0]); res[1] = UMap(o[1]); res[4] = UMap(o[2]); res[5] = UMap(o[3]);
		c.label("legacy");
	} else {
		isl_union_access_info *ai = isl_union_access_info_from_sink(m[0].c());
		// order of the calls is irrelevant
		std::vector<int> ord = {1, 2, 3, 4}; for (int i = 3; i > 0; --i) std::swap(ord[i], ord[c.t.below(i + 1)]);
		for (int o : ord) {
			if (o == 1 && (n1 || c.t.chance(1, 2))) ai = isl_union_access_info_set_must_source(ai, m[1].c());
			if (o == 2 && (n2 || c.t.chance(1, 2))) ai = isl_union_access_info_set_may_source(ai, m[2].c());
			if (o == 3 && (!A[3].a.empty() || c.t.chance(1, 2))) ai = isl_union_access_info_set_kill(ai, m[3].c());
			if (o == 4) {
				if (mode == 0) ai = isl_union_access_info_set_schedule(ai, sc.c());
				else ai = isl_union_access_info_set_schedule_map(ai, R_(isl_union_map_intersect_domain(R_(isl_schedule_get_map(sc.g())).r(), sdom.c())).r());
			}
		}
		isl_union_flow *f = isl_union_access_info_compute_flow(ai);
		if (!f) on_error(c, "isl_union_access_info_compute_flow");
		if (c.t.chance(1, 8)) { isl_union_flow *g = isl_union_flow_copy(f); isl_union_flow_free(f); f = g; }
		H<isl_union_flow> fh(f);
		res[0] = R_(isl_union_flow_get_must_dependence(f)); res[1] = R_(isl_union_flow_get_may_dependence(f));
		res[2] = R_(isl_union_flow_get_full_must_dependence(f)); res[3] = R_(isl_union_flow_get_full_may_dependence(f));
		res[4] = R_(isl_union_flow_get_must_no_source(f)); res[5] = R_(isl_union_flow_get_may_no_source(f));
		c.label(mode == 0 ? "tree" : "map");
	}
	UMM x[6]; for (int i = 0; i < 6; ++i) if (res[i]) x[i] = extract_um(c, p, res[i].g());
	auto out = [&](int i) { return how + "\nresult " + (res[i] ? S(res[i]) : ""); };
	std::set<std::string> sk, ek, fk; for (auto &t : p.st) sk.insert(tkey(t));
	for (int a = 0; a < 3; ++a) { std::string k = std::string(1, 'A' + a) + "/" + std::to_string(arr_dim(a)); ek.insert(k); for (auto &s : sk) fk.insert("[" + s + "->" + k + "]"); }
	keys(c, "must_dependence", x[0], sk, sk, out(0)); keys(c, "may_dependence", x[1], sk, sk, out(1));
	keys(c, "full_must_dependence", x[2], sk, fk, out(2)); keys(c, "full_may_dependence", x[3], sk, fk, out(3));
	keys(c, "must_no_source", x[4], sk, ek, out(4)); keys(c, "may_no_source", x[5], sk, ek, out(5));
	bool inter = false; long nd = 0, nm = 0, nn = 0;
	for (auto &par : p.pars(-1, 3)) {
		Want w; model(c, p, tr, par, A[0], A[1], A[2], A[3], w, inter);
		// all instances of the box, also outside of the domain
		std::vector<Inst> all = p.insts(par);
		std::vector<Inst> outer; for (auto &t : p.st) for (auto &q : box_points(t.dim(), p.lo, p.hi)) { Inst i{tkey(t), q}; if (!p.dm.has(par, i)) outer.push_back(i); }
		for (size_t k = 0; k < outer.size() && k < 6; ++k) all.push_back(outer[(k * 7) % outer.size()]);
		nd += w.may.size(); nm += w.must.size(); nn += w.no_must.size();
		std::set<IP> amb; for (auto &q : w.must_amb) amb.insert(q.first);
		auto may = [&](const IP &q) { return (int)w.may.count(q); };
		auto must = [&](const IP &q) { return w.must.count(q) ? 1 : amb.count(q) ? 2 : 0; };
		// legacy interface: "may" excludes the must dependences
		if (mode == 2)
			cmp_pairs(c, "may_dependence", x[1], par, all, all, [&](const IP &q) { return may(q) && !w.must.count(q) ? amb.count(q) ? 2 : 1 : w.must.count(q) || amb.count(q) ? 2 : 0; }, out(1));
		else cmp_pairs(c, "may_dependence", x[1], par, all, all, may, out(1));
		cmp_pairs(c, "must_dependence", x[0], par, all, all, must, out(0));
		if (!w.must_amb.empty()) c.label("ambiguous-must");
		// elements
		std::vector<Inst> el;
		for (auto &e : ek) {
			int d = e.back() - '0';
			for (auto &q : box_points(d, d == 2 ? -1 : -4, d == 2 ? 3 : 7)) el.push_back({e, q});
		}
		std::set<Inst> hot; for (auto &i : p.insts(par)) for (auto &e : A[0].elems(p, par, i)) hot.insert(e);
		for (auto &e : hot) el.push_back(e);
		auto nosrc = [&](const IP &q) { return w.no_must_amb.count(q) ? 2 : (int)w.no_must.count(q); };
		auto nomust = [&](const IP &q) { return w.no_may_amb.count(q) ? 2 : (int)w.no_may.count(q); };
		cmp_pairs(c, "must_no_source", x[4], par, all, el, nosrc, out(4));
		if (mode != 2) cmp_pairs(c, "may_no_source", x[5], par, all, el, nomust, out(5));
		else cmp_pairs(c, "may_no_source", x[5], par, all, el, [&](const IP &q) { int v = nomust(q); return v == 2 ? 2 : v && !w.no_must.count(q) ? 1 : w.no_must_amb.count(q) ? 2 : 0; }, out(5));
		if (mode != 2) {
			std::set<std::pair<IP, Inst>> seen;
			std::vector<Inst> pairs; std::map<std::string, std::pair<Inst, Inst>> back;
			for (auto &i : p.insts(par)) for (auto &e : A[0].elems(p, par, i)) { pairs.push_back({"[" + i.k + "->" + e.k + "]", cat(i.x, e.x)}); back[str(pairs.back())] = {i, e}; }
			auto full = [&](const std::set<std::pair<IP, Inst>> &ws, const std::set<std::pair<IP, Inst>> *am) { return [&ws, am, &back](const IP &q) { auto b = back[str(q.second)]; std::pair<IP, Inst> k({q.first, b.first}, b.second); return am && am->count(k) ? 2 : (int)ws.count(k); }; };
			cmp_pairs(c, "full_may_dependence", x[3], par, p.insts(par), pairs, full(w.fmay, nullptr), out(3));
			cmp_pairs(c, "full_must_dependence", x[2], par, p.insts(par), pairs, full(w.fmust, &w.must_amb), out(2));
		}
	}
	c.nontrivial = nd >= 2 && (inter || nn);
	if (nm) c.label("must-deps");
	if (nd > nm) c.label("may-deps");
	if (inter) c.label("killed");
}

// low-level interface: textual order and shared loops supplied by a callback
struct Stm { int depth; int pos[4]; };            // pos[l]: position at level l, then loop iterator l
struct LL { std::vector<Stm> s; };
struct Tok { const Stm *s; bool sink; };
int lvl_before(void *f, void *g)
{
	const Stm *a = ((Tok *)f)->s, *b = ((Tok *)g)->s; int n = 0;
	for (int l = 0;; ++l) {
		if (a->pos[l] != b->pos[l]) return 2 * n + (a->pos[l] < b->pos[l] ? 1 : 0);
		if (l >= a->depth || l >= b->depth) return 2 * n;
		++n;
	}
}
struct Dep { Map m; int must; Tok *t; };
void low_level(Case &c)
{
	ProgOpt po; po.box = c.t.chance(1, 3) ? 3 : 2; po.max_st = 3;
	Prog p = gen_prog(c, po);
	int ns = p.st.size();
	std::vector<Stm> L(ns);
	// a random nest: distinct positions among statements that are not separated by a loop
	for (;;) {
		bool ok = true;
		for (int i = 0; i < ns; ++i) { L[i].depth = p.st[i].dim(); for (int l = 0; l < 4; ++l) L[i].pos[l] = c.t.below(3); }
		// statement position after the loops is at pos[depth]; statements at a position are either leafs or loops
		for (int i = 0; i < ns; ++i) for (int j = 0; j < i; ++j) {
			int l = 0; while (l < L[i].depth && l < L[j].depth && L[i].pos[l] == L[j].pos[l]) ++l;
			if (L[i].pos[l] == L[j].pos[l]) ok = false;
		}
		if (ok) break;
		// deterministic fallback
		for (int i = 0; i < ns; ++i) for (int l = 0; l < 4; ++l) L[i].pos[l] = i;
		break;
	}
	auto tm = [&](const Inst &i) { int k = i.k[1] - '0'; Tm t; for (int l = 0; l <= L[k].depth; ++l) { t.v.push_back({'s', mpq_class(L[k].pos[l])}); if (l < L[k].depth) t.v.push_back({'b', mpq_class((long)i.x[l])}); } return t; };
	Accs A[3]; int maxarr = 1, nn = 0;
	// one array; sink single-valued or not; sources
	UMap um = build_acc(c, p, A[0], 1, true, maxarr);
	auto one = [&](Accs &a, UMap u) -> Map {
		Map r;
		u = R_(isl_union_map_intersect_domain(u.r(), p.dom.c()));
		isl_space *ss = mk_space(c, p.sp(a.a[0].st));
		isl_space *es = isl_space_set_tuple_name(isl_space_add_dims(isl_space_set_from_params(p.pspace(c)), isl_dim_set, 1), isl_dim_set, "A");
		return R_(isl_union_map_extract_map(u.g(), isl_space_map_from_domain_and_range(ss, es)));
	};
	Map sink = one(A[0], um);
	Tok stok{&L[A[0].a[0].st], true};
	int n = 1 + c.t.below(3);
	std::vector<Accs> SA(n); std::vector<Map> sm(n); std::vector<int> must(n); std::vector<Tok> tok(n); std::string how = p.text + "sink " + S(sink);
	// at most one source per statement, so that no two sources are coscheduled
	std::set<int> used; int cnt = 0;
	isl_access_info *ai = nullptr;
	std::vector<int> keep;
	for (int i = 0; i < n; ++i) {
		UMap u = build_acc(c, p, SA[i], 1, true, maxarr);
		if (!used.insert(SA[i].a[0].st).second) continue;
		sm[i] = one(SA[i], u); must[i] = c.t.chance(2, 3); tok[i] = Tok{&L[SA[i].a[0].st], false};
		keep.push_back(i);
		how += "\nsource " + std::string(must[i] ? "(must) " : "(may) ") + S(sm[i]);
	}
	for (auto &l : L) { how += "\npos"; for (int k = 0; k <= l.depth; ++k) how += " " + std::to_string(l.pos[k]); }
	c.log << how << "\n";
	ai = isl_access_info_alloc(sink.c(), &stok, lvl_before, n + c.t.below(2));
	for (int i : keep) ai = isl_access_info_add_source(ai, sm[i].c(), must[i], &tok[i]);
	isl_flow *f = isl_access_info_compute_flow(ai);
	if (!f) on_error(c, "isl_access_info_compute_flow");
	std::vector<Dep> deps; Map nos[2];
	isl_stat st = isl_flow_foreach(f, [](isl_map *d, int mu, void *du, void *u) -> isl_stat { ((std::vector<Dep> *)u)->push_back(Dep{Map(d), mu, (Tok *)du}); return isl_stat_ok; }, &deps);
	nos[1] = Map(isl_flow_get_no_source(f, 1)); nos[0] = Map(isl_flow_get_no_source(f, 0));
	isl_flow_free(f);
	if (st < 0) on_error(c, "isl_flow_foreach");
	if (!nos[0] || !nos[1]) on_error(c, "isl_flow_get_no_source");
	for (auto &d : deps) { how += "\ndep " + std::string(d.must ? "must " : "may ") + S(d.m); if (B(c, isl_map_is_empty(d.m.g()), "isl_map_is_empty")) c.fail("isl_flow_foreach", "called on an empty dependence\n" + how); }
	how += "\nno source (must) " + S(nos[1]) + "\nno source (may) " + S(nos[0]);
	MMap mn[2] = {extract(c, nos[0].g()), extract(c, nos[1].g())};
	std::vector<MMap> dm; for (auto &d : deps) dm.push_back(extract(c, d.m.g()));
	long nd = 0; bool inter = false;
	// is any sink iteration accessing several elements (dependences then have [sink -> element] or sink?)
	for (auto &par : p.pars(-1, 3)) {
		auto all = p.insts(par);
		for (auto &r : all) {
			if (r.k != tkey(p.st[A[0].a[0].st])) continue;
			struct Ag { bool w = false, wm = false, wy = false; };
			std::map<std::pair<int, Inst>, Ag> ag;
			for (auto &e : A[0].elems(p, par, r)) {
				struct X { int i; Inst s; };
				std::vector<X> bef;
				for (int i : keep) for (auto &s : all) { if (s.k != tkey(p.st[SA[i].a[0].st])) continue; bool acc = false; for (auto &q : SA[i].elems(p, par, s)) acc |= q == e; if (acc && cmp(tm(s), tm(r)) == -1) bef.push_back({i, s}); }
				bool any = false, def = false;
				for (auto &x : bef) {
					if (must[x.i]) def = true;
					bool killed = false, lm = false;
					for (auto &y : bef) if (cmp(tm(x.s), tm(y.s)) == -1) { if (must[y.i]) killed = true; else lm = true; }
					bool w = !killed, wm = w && must[x.i] && !lm;
					inter |= killed; any |= w; nd += w;
					Ag &g = ag[{x.i, x.s}]; g.w |= w; g.wm |= wm; g.wy |= w && !wm;
				}
				bool n1 = mn[1].has(cat(cat(par, r.x), e.x)), n0 = mn[0].has(cat(cat(par, r.x), e.x));
				if (n1 != !any) c.fail("isl_flow_get_no_source", "must, " + str(r) + " -> " + str(e) + " at " + str(par) + ": library " + (n1 ? "in" : "not in") + "\n" + how);
				if (n0 != (any && !def)) c.fail("isl_flow_get_no_source", "may, " + str(r) + " -> " + str(e) + " at " + str(par) + ": library " + (n0 ? "in" : "not in") + "\n" + how);
			}
			// dependences relate source and sink iterations, whatever the element
			for (int i : keep) for (auto &q : all) {
				if (q.k != tkey(p.st[SA[i].a[0].st])) continue;
				Ag w; auto it = ag.find({i, q}); if (it != ag.end()) w = it->second;
				bool g[2] = {false, false};
				for (size_t k = 0; k < deps.size(); ++k) if (deps[k].t == &tok[i] && dm[k].has(cat(cat(par, q.x), r.x))) g[!!deps[k].must] = true;
				if (g[1] != w.wm || g[0] != w.wy)
					c.fail("isl_flow_foreach", "dependence " + str(q) + " -> " + str(r) + " at " + str(par) + ": library " + (g[1] ? "must " : "") + (g[0] ? "may" : "") + ", execution " + (w.wm ? "must " : "") + (w.wy ? "may" : "") + "\n" + how);
			}
		}
	}
	c.label("low-level"); c.nontrivial = nd >= 2 && inter;
}
void run(Case &c)
{
	if (c.t.chance(1, 5)) low_level(c); else high_level(c);
}
} // namespace
Prop vp::the_prop = {"C21", "random programs (up to 3 statements with quasi-affine domains, random schedule trees), random sink, must, may and kill accesses; non-trivial: at least two dependences, and a kill between a source and a sink or a sink access without a source", run, 30000, 400000};
