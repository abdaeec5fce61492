// C29: identifiers, lists and associative arrays are values; oracle: a model
// of every container and of the set of live identifiers, over random histories.
#include "islx.h"
#include <algorithm>
#include <set>
#include <map>
#include <isl/id_to_id.h>
#include <isl/id_to_pw_aff.h>
#include <isl/id_to_ast_expr.h>
#include <isl/map_to_basic_set.h>
#include <isl/ast.h>
using namespace vp;
#define R_(e) R(c, e, #e)
namespace {
struct Slot { int freed = 0; };
void on_free(void *u) { ((Slot *)u)->freed++; }
void on_free2(void *u) { ((Slot *)u)->freed += 1000; }

struct Hist {
	Case &c; std::string log;
	int nn, ns, nid;
	std::vector<Slot> slots;
	std::vector<std::string> names;
	std::vector<int> how;                 // which callback is set on the id, 0: none (while alive)
	std::vector<isl_id *> addr;           // where the id lives (while alive)
	std::vector<int> expect;              // expected number of callbacks per slot
	// holders of identifiers
	std::vector<std::pair<Id, int>> held;
	struct L { H<isl_id_list> l; std::vector<int> v; };
	std::vector<L> ls;
	struct V { H<isl_val_list> l; std::vector<long> v; };
	std::vector<V> vs;
	struct M { isl_id_to_id *m; std::map<int, int> v; };
	struct P { isl_id_to_pw_aff *m; std::map<int, long> v; };
	struct E { isl_id_to_ast_expr *m; std::map<int, long> v; };
	std::vector<M> ms; std::vector<P> ps; std::vector<E> es;
	struct K { isl_map_to_basic_set *m; std::map<int, long> v; };
	std::vector<K> ks; std::vector<Map> keys;
	struct Sx { Space s; std::vector<int> v; };
	std::vector<Sx> sx;

	Hist(Case &c) : c(c) {}
	~Hist() { for (auto &m : ms) isl_id_to_id_free(m.m); for (auto &m : ps) isl_id_to_pw_aff_free(m.m); for (auto &m : es) isl_id_to_ast_expr_free(m.m); for (auto &m : ks) isl_map_to_basic_set_free(m.m); }
	[[noreturn]] void bad(const std::string &k, const std::string &m) { c.fail(k, m + "\n" + log); }
	void say(const std::string &s) { log += s + "\n"; c.step(); }
	std::string nm(int i) { return "id" + std::to_string(i); }
	bool alive(int i)
	{
		for (auto &h : held) if (h.second == i) return true;
		for (auto &l : ls) if (std::count(l.v.begin(), l.v.end(), i)) return true;
		for (auto &m : ms) for (auto &p : m.v) if (p.first == i || p.second == i) return true;
		for (auto &m : ps) if (m.v.count(i)) return true;
		for (auto &m : es) if (m.v.count(i)) return true;
		for (auto &s : sx) if (std::count(s.v.begin(), s.v.end(), i)) return true;
		return false;
	}
	// id i: name i / ns, user pointer i % ns (the last one of each is none)
	int name_of(int i) { return i / ns; }
	int slot_of(int i) { return i % ns; }
	const char *cname(int i) { return name_of(i) == nn ? nullptr : names[name_of(i)].c_str(); }
	void *user(int i) { return slot_of(i) == ns - 1 ? nullptr : &slots[slot_of(i)]; }
	// a fresh reference to id i
	isl_id *mk(int i)
	{
		isl_id *p = isl_id_alloc(c.ctx, cname(i), user(i));
		if (!p) on_error(c, "isl_id_alloc");
		bool al = alive(i);
		if (al && addr[i] && addr[i] != p) { isl_id_free(p); bad("identity", "allocating " + nm(i) + " does not return the existing identifier"); }
		if (!al) how[i] = 0;
		addr[i] = p;
		for (int j = 0; j < nid; ++j) if (j != i && alive(j) && addr[j] == p) { isl_id_free(p); bad("identity", nm(i) + " and " + nm(j) + " are the same object"); }
		const char *s = isl_id_get_name(p), *w = cname(i);
		if ((!s != !w) || (s && std::string(s) != w)) { isl_id_free(p); bad("name", nm(i) + " has name " + (s ? s : "(none)")); }
		if (isl_id_get_user(p) != user(i)) { isl_id_free(p); bad("user pointer", nm(i)); }
		return p;
	}
	// model index of an id (consumed)
	int idx(isl_id *p)
	{
		if (!p) on_error(c, "identifier");
		int r = -1;
		for (int i = 0; i < nid; ++i) if (addr[i] == p && alive(i)) r = i;
		const char *s = isl_id_get_name(p); void *u = isl_id_get_user(p);
		if (r < 0 || (!s != !cname(r)) || (s && std::string(s) != cname(r)) || u != user(r)) { std::string t = s ? s : "(none)"; isl_id_free(p); bad("identity", "unexpected identifier " + t + (r < 0 ? "" : " instead of " + nm(r))); }
		isl_id_free(p);
		return r;
	}
	void check_live(const std::vector<char> &before)
	{
		for (int i = 0; i < nid; ++i) if (before[i] && !alive(i)) {
			if (how[i] && user(i)) { expect[slot_of(i)] += how[i] == 1 ? 1 : 1000; c.label("callback"); }
			how[i] = 0; addr[i] = nullptr;
		}
		for (int s = 0; s < ns - 1; ++s) if (slots[s].freed != expect[s]) bad("free callback", "user pointer " + std::to_string(s) + " was freed " + std::to_string(slots[s].freed) + " times instead of " + std::to_string(expect[s]) + " (a call of the second callback counts as 1000)");
	}
	std::string str(const std::vector<int> &v) { std::string r = "("; for (int i : v) r += (r.size() > 1 ? "," : "") + std::to_string(i); return r + ")"; }
	std::string str(const std::vector<long> &v) { std::string r = "("; for (long i : v) r += (r.size() > 1 ? "," : "") + std::to_string(i); return r + ")"; }
	void cmp(L &l, const std::string &op)
	{
		int n = N(c, isl_id_list_size(l.l.g()), "isl_id_list_size");
		if (n != (int)l.v.size() || n != isl_id_list_n_id(l.l.g())) bad("list", op + ": size " + std::to_string(n) + " instead of " + std::to_string(l.v.size()));
		std::vector<int> g; for (int i = 0; i < n; ++i) g.push_back(idx(c.t.chance(1, 2) ? isl_id_list_get_at(l.l.g(), i) : isl_id_list_get_id(l.l.g(), i)));
		if (g != l.v) bad("list", op + ": " + str(g) + " instead of " + str(l.v));
	}
	long cst(isl_val *v) { return take_int(c, v).get_si(); }
	void cmp(V &l, const std::string &op)
	{
		int n = N(c, isl_val_list_size(l.l.g()), "isl_val_list_size");
		std::vector<long> g; for (int i = 0; i < n; ++i) g.push_back(cst(isl_val_list_get_val(l.l.g(), i)));
		if (g != l.v) bad("list", op + ": " + str(g) + " instead of " + str(l.v));
	}
	isl_pw_aff *pa(long k) { isl_space *s = isl_space_params_alloc(c.ctx, 0); return isl_pw_aff_from_aff(isl_aff_val_on_domain(isl_local_space_from_space(s), isl_val_int_from_si(c.ctx, k))); }
	long pav(isl_pw_aff *p) { if (!p) on_error(c, "isl_pw_aff"); isl_aff *a = isl_pw_aff_as_aff(p); if (!a) on_error(c, "isl_pw_aff_as_aff"); isl_val *v = isl_aff_get_constant_val(a); isl_aff_free(a); return cst(v); }
	isl_ast_expr *ex(long k) { return isl_ast_expr_from_val(isl_val_int_from_si(c.ctx, k)); }
	long exv(isl_ast_expr *p) { if (!p) on_error(c, "isl_ast_expr"); isl_val *v = isl_ast_expr_get_val(p); isl_ast_expr_free(p); return cst(v); }
	isl_basic_set *bs(long k) { return isl_basic_set_read_from_str(c.ctx, ("{ [" + std::to_string(k) + "] }").c_str()); }
	long bsv(isl_basic_set *b) { if (!b) on_error(c, "isl_basic_set"); isl_val *v = isl_basic_set_plain_get_val_if_fixed(b, isl_dim_set, 0); isl_basic_set_free(b); return cst(v); }
	isl_val *isl_basic_set_plain_get_val_if_fixed(isl_basic_set *b, isl_dim_type t, int p) { isl_set *s = isl_set_from_basic_set(isl_basic_set_copy(b)); isl_val *v = isl_set_plain_get_val_if_fixed(s, t, p); isl_set_free(s); return v; }
};

// one operation on an associative array; the value type is hidden in the
// functions that make and inspect keys and values
template <class M, class Key, class Val, class Ent, class VT>
struct Ops {
	M *(*alloc)(isl_ctx *, int); M *(*copy)(M *); M *(*free)(M *);
	isl_bool (*has)(M *, Key *); Val *(*get)(M *, Key *);
	M *(*set)(M *, Key *, Val *); M *(*drop)(M *, Key *);
	isl_stat (*foreach)(M *, isl_stat (*)(Key *, Val *, void *), void *);
	std::function<Val *(VT)> mkv; std::function<VT(Val *)> vv;
	std::function<Key *(int)> mkk; std::function<int(Key *)> kk;
	std::function<void(Key *)> fk; std::function<VT()> rnd; int nkeys; const char *name;
	struct FE { Ops *o; std::vector<std::pair<int, VT>> got; std::vector<std::pair<Key *, Val *>> raw; };
	static isl_stat cb(Key *k, Val *v, void *u) { ((FE *)u)->raw.push_back({k, v}); return isl_stat_ok; }
	void verify(Hist &h, Ent &e, const std::string &op)
	{
		FE fe{this, {}, {}};
		isl_stat r = foreach(e.m, &cb, &fe);
		for (auto &p : fe.raw) { int k = kk(p.first); VT v = vv(p.second); fe.got.push_back({k, v}); }
		if (r < 0) on_error(h.c, "foreach");
		std::sort(fe.got.begin(), fe.got.end());
		std::vector<std::pair<int, VT>> want(e.v.begin(), e.v.end());
		if (fe.got != want) {
			std::string a, b; for (auto &p : fe.got) a += " " + std::to_string(p.first) + ":" + std::to_string(p.second); for (auto &p : want) b += " " + std::to_string(p.first) + ":" + std::to_string(p.second);
			h.bad(name, op + ": contains" + a + "\ninstead of" + b);
		}
	}
	void step(Hist &h, std::vector<Ent> &all)
	{
		Case &c = h.c;
		if (all.empty() || (all.size() < 4 && c.t.chance(1, 15))) { Ent e; e.m = alloc(c.ctx, c.t.below(5)); if (!e.m) on_error(c, "alloc"); all.push_back(std::move(e)); h.say(std::string(name) + " alloc"); return; }
		int w = c.t.below(all.size()); Ent &e = all[w];
		std::string n = std::string(name) + std::to_string(w);
		int k = c.t.below(nkeys);
		switch (c.t.weighted({10, 6, 3, 3, 2, 1, 2})) {
		case 0: { VT v = rnd(); h.say(n + " set " + std::to_string(k) + " -> " + std::to_string(v)); Key *kp = mkk(k); Val *vp = mkv(v); e.m = set(e.m, kp, vp); if (!e.m) on_error(c, "set"); e.v[k] = v; break; }
		case 1: if (!e.v.empty() && c.t.chance(3, 4)) { auto it = e.v.begin(); std::advance(it, c.t.below(e.v.size())); k = it->first; }
			h.say(n + " drop " + std::to_string(k)); { e.m = drop(e.m, mkk(k)); if (!e.m) on_error(c, "drop"); e.v.erase(k); } break;
		case 2: { Key *p = mkk(k); isl_bool b = has(e.m, p); fk(p); if (b < 0) on_error(c, "has"); if (b != (e.v.count(k) ? isl_bool_true : isl_bool_false)) h.bad(name, n + " has " + std::to_string(k) + " is " + std::to_string(b)); break; }
		case 3: { Val *v = get(e.m, mkk(k)); if (!v != !e.v.count(k)) { if (v) vv(v); h.bad(name, n + " get " + std::to_string(k) + (v ? " returns a value" : " returns nothing")); } if (v) { VT x = vv(v); if (x != e.v[k]) h.bad(name, n + " get " + std::to_string(k) + " returns " + std::to_string(x) + " instead of " + std::to_string(e.v[k])); } break; }
		case 4: if (all.size() < 5) { h.say(n + " copy"); Ent x; x.v = e.v; x.m = copy(e.m); if (!x.m) on_error(c, "copy"); all.push_back(std::move(x)); if (all.size() > 1) c.nontrivial = true; } break;
		case 5: h.say(n + " free"); free(e.m); all.erase(all.begin() + w); return;
		case 6: verify(h, e, n); break;
		}
	}
};

struct CmpU { Hist *h; int kind; };
int gi(Hist *h, isl_id *a) { for (int i = 0; i < h->nid; ++i) if (h->addr[i] == a && h->alive(i)) return i; return -1; }
int cmp_id(isl_id *a, isl_id *b, void *u) { Hist *h = ((CmpU *)u)->h; int x = gi(h, a), y = gi(h, b); return ((CmpU *)u)->kind == 0 ? x - y : ((CmpU *)u)->kind == 1 ? y - x : x % 3 - y % 3; }
int cmp_val(isl_val *a, isl_val *b, void *u) { return isl_val_lt(a, b) ? -1 : isl_val_eq(a, b) ? 0 : 1; }
struct G { Hist *h; std::vector<std::vector<char>> e; std::vector<std::vector<int>> got; int stop = -1; };
isl_bool follows(isl_id *a, isl_id *b, void *u) { G *g = (G *)u; return g->e[gi(g->h, b)][gi(g->h, a)] ? isl_bool_true : isl_bool_false; }
isl_stat on_scc(isl_id_list *l, void *u)
{
	G *g = (G *)u; std::vector<int> v; int n = isl_id_list_size(l);
	for (int i = 0; i < n; ++i) { isl_id *p = isl_id_list_get_at(l, i); v.push_back(gi(g->h, p)); isl_id_free(p); }
	isl_id_list_free(l); g->got.push_back(v);
	return g->stop >= 0 && (int)g->got.size() > g->stop ? isl_stat_error : isl_stat_ok;
}
isl_stat each(isl_id *p, void *u) { ((std::vector<isl_id *> *)u)->push_back(p); return isl_stat_ok; }
struct Ev { Hist *h; int lim; int seen; };
isl_bool every(isl_id *p, void *u) { Ev *e = (Ev *)u; e->seen++; return gi(e->h, p) < e->lim ? isl_bool_true : isl_bool_false; }
struct MapU { Hist *h; isl_id *to; int odd; };
isl_id *map_id(isl_id *p, void *u) { MapU *m = (MapU *)u; if (gi(m->h, p) % 2 != m->odd) return p; isl_id_free(p); return isl_id_copy(m->to); }
isl_val *map_val(isl_val *p, void *u) { return isl_val_add(p, isl_val_int_from_si(isl_val_get_ctx(p), *(long *)u)); }

void list_step(Hist &h)
{
	Case &c = h.c;
	if (h.ls.empty() || (h.ls.size() < 4 && c.t.chance(1, 10))) { Hist::L l; if (c.t.chance(1, 3)) { int i = c.t.below(h.nid); isl_id *p = h.mk(i); l.l = c.t.chance(1, 2) ? R_(isl_id_list_from_id(p)) : R_(isl_id_to_list(p)); l.v = {i}; } else l.l = R_(isl_id_list_alloc(c.ctx, c.t.below(4))); h.ls.push_back(l); h.say("list alloc"); return; }
	int w = c.t.below(h.ls.size()); Hist::L &l = h.ls[w]; int n = l.v.size(); std::string nm = "list" + std::to_string(w) + " ";
	auto at = [&](int x) { return c.t.below(x); };
	switch (c.t.weighted({6, 5, 4, 1, 3, 2, 3, 3, 2, 1, 2, 2, 3, 2, 2, 2})) {
	case 0: { int i = at(h.nid); h.say(nm + "add " + std::to_string(i)); isl_id *p = h.mk(i); l.l = R_(isl_id_list_add(l.l.r(), p)); l.v.push_back(i); break; }
	case 1: { int i = at(h.nid), p = at(n + 1); h.say(nm + "insert " + std::to_string(i) + " at " + std::to_string(p)); isl_id *q = h.mk(i); l.l = R_(isl_id_list_insert(l.l.r(), p, q)); l.v.insert(l.v.begin() + p, i); break; }
	case 2: { int f = at(n + 1), k = at(n - f + 1); h.say(nm + "drop " + std::to_string(f) + " " + std::to_string(k)); l.l = R_(isl_id_list_drop(l.l.r(), f, k)); l.v.erase(l.v.begin() + f, l.v.begin() + f + k); break; }
	case 3: h.say(nm + "clear"); l.l = R_(isl_id_list_clear(l.l.r())); l.v.clear(); break;
	case 4: if (n) { int a = at(n), b = at(n); h.say(nm + "swap " + std::to_string(a) + " " + std::to_string(b)); l.l = R_(isl_id_list_swap(l.l.r(), a, b)); std::swap(l.v[a], l.v[b]); } break;
	case 5: h.say(nm + "reverse"); l.l = R_(isl_id_list_reverse(l.l.r())); std::reverse(l.v.begin(), l.v.end()); break;
	case 6: { int o = at(h.ls.size()); h.say(nm + "concat list" + std::to_string(o)); if (n + h.ls[o].v.size() > 60) break; std::vector<int> v = h.ls[o].v; isl_id_list *other = h.ls[o].l.c(); l.l = R_(isl_id_list_concat(l.l.r(), other)); l.v.insert(l.v.end(), v.begin(), v.end()); break; }
	case 7: if (n) { int p = at(n), i = at(h.nid); h.say(nm + "set " + std::to_string(p) + " to " + std::to_string(i)); isl_id *q = h.mk(i); l.l = R_(isl_id_list_set_id(l.l.r(), p, q)); l.v[p] = i; } break;
	case 8: if (h.ls.size() < 6) { h.say(nm + "copy"); Hist::L x = l; h.ls.push_back(x); c.nontrivial = true; } break;
	case 9: h.say(nm + "free"); h.ls.erase(h.ls.begin() + w); return;
	case 10: { // sort
		CmpU u{&h, (int)at(3)}; h.say(nm + "sort " + std::to_string(u.kind));
		std::vector<int> b = l.v; l.l = R_(isl_id_list_sort(l.l.r(), &cmp_id, &u));
		std::vector<int> g; int m = N(c, isl_id_list_size(l.l.g()), "isl_id_list_size"); for (int i = 0; i < m; ++i) g.push_back(h.idx(isl_id_list_get_at(l.l.g(), i)));
		std::vector<int> x = g, y = b; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); if (x != y) h.bad("sort", "not a permutation: " + h.str(b) + " to " + h.str(g));
		for (int i = 0; i + 1 < m; ++i) { int d = u.kind == 0 ? g[i] - g[i + 1] : u.kind == 1 ? g[i + 1] - g[i] : g[i] % 3 - g[i + 1] % 3; if (d > 0) h.bad("sort", "not sorted: " + h.str(g)); }
		l.v = g; c.label("sort"); break; }
	case 11: { MapU u{&h, nullptr, (int)at(2)}; int i = at(h.nid); h.say(nm + "map elements of parity " + std::to_string(u.odd) + " to " + std::to_string(i)); Id keep(h.mk(i)); h.held.push_back({keep, i}); u.to = keep.g(); l.l = R_(isl_id_list_map(l.l.r(), &map_id, &u)); for (int &x : l.v) if (x % 2 == u.odd) x = i; h.cmp(l, "map"); h.held.pop_back(); break; }
	case 12: { // strongly connected components; elements are made distinct
		size_t nheld; std::vector<int> d; H<isl_id_list> q; { std::set<int> seen; q = R_(isl_id_list_alloc(c.ctx, 0)); std::vector<int> src = l.v; size_t keep = h.held.size();
		if (at(3)) { int k = 2 + at(8); for (int i = 0; i < k; ++i) { int x = at(h.nid); src.push_back(x); Id p(h.mk(x)); h.held.push_back({p, x}); } }
		nheld = keep;
		for (int x : src) if (seen.insert(x).second) { d.push_back(x); q = R_(isl_id_list_add(q.r(), h.mk(x))); } }
		G g; g.h = &h; g.e.assign(h.nid, std::vector<char>(h.nid, 0)); int dens = 1 + at(3);
		for (int a : d) for (int b : d) if (a != b || at(2)) g.e[a][b] = c.t.chance(dens, d.size() + 2);
		std::string t; for (int a : d) for (int b : d) if (g.e[a][b]) t += " " + std::to_string(a) + "->" + std::to_string(b);
		h.say("components of " + h.str(d) + " with edges" + t);
		isl_stat r = isl_id_list_foreach_scc(q.g(), &follows, &g, &on_scc, &g); if (r < 0) on_error(c, "isl_id_list_foreach_scc");
		auto reach = g.e; for (int k : d) for (int a : d) for (int b : d) if (reach[a][k] && reach[k][b]) reach[a][b] = 1;
		std::vector<int> pos(h.nid, -1); size_t tot = 0; std::string o; for (size_t i = 0; i < g.got.size(); ++i) { o += " " + h.str(g.got[i]); for (int x : g.got[i]) { if (x < 0 || pos[x] >= 0) h.bad("components", "element twice:" + o); pos[x] = i; ++tot; } }
		if (tot != d.size()) h.bad("components", "elements missing:" + o);
		for (int a : d) for (int b : d) if (a != b) { bool same = reach[a][b] && reach[b][a]; if (same != (pos[a] == pos[b])) h.bad("components", "components" + o); if (g.e[a][b] && pos[a] > pos[b]) h.bad("components order", "edge from " + std::to_string(a) + " to " + std::to_string(b) + ":" + o); }
		if (g.got.size() > 1 && g.got.size() < d.size()) { c.label("components"); c.nontrivial = true; }
		while (h.held.size() > nheld) h.held.pop_back();
		break; }
	case 13: { std::vector<isl_id *> g; isl_stat r = isl_id_list_foreach(l.l.g(), &each, &g); std::vector<int> v; for (auto p : g) v.push_back(h.idx(p)); if (r < 0) on_error(c, "isl_id_list_foreach"); if (v != l.v) h.bad("foreach", h.str(v)); break; }
	case 14: { Ev e{&h, (int)at(h.nid + 1), 0}; isl_bool b = isl_id_list_every(l.l.g(), &every, &e); if (b < 0) on_error(c, "isl_id_list_every"); bool want = true; for (int x : l.v) if (x >= e.lim) want = false; if (b != (want ? isl_bool_true : isl_bool_false)) h.bad("every", nm); break; }
	case 15: { // positions outside of the list are errors
		h.say(nm + "invalid position"); H<isl_id_list> q = l.l; bool ok;
		switch (at(4)) {
		case 0: ok = !Id(isl_id_list_get_at(q.g(), at(2) ? n + at(3) : -1 - at(2))).g(); break;
		case 1: { isl_id *p = h.mk(at(h.nid)); q = H<isl_id_list>(isl_id_list_insert(q.r(), n + 1 + at(3), p)); ok = !q.g(); break; }
		case 2: q = H<isl_id_list>(isl_id_list_drop(q.r(), at(n + 1), n + 1)); ok = !q.g(); break;
		default: { isl_id *p = h.mk(at(h.nid)); q = H<isl_id_list>(isl_id_list_set_id(q.r(), n + at(3), p)); ok = !q.g(); break; }
		}
		clear_error(c); if (!ok) h.bad("invalid position", nm); break; }
	}
	h.cmp(h.ls[w], "after the operation");
	if (c.t.chance(1, 4)) for (auto &x : h.ls) h.cmp(x, "other list");
}
void val_step(Hist &h)
{
	Case &c = h.c;
	if (h.vs.empty()) { Hist::V v; v.l = R_(isl_val_list_alloc(c.ctx, 0)); h.vs.push_back(v); }
	int w = c.t.below(h.vs.size()); Hist::V &l = h.vs[w]; int n = l.v.size(); std::string nm = "values" + std::to_string(w) + " ";
	long k = c.t.range(-9, 9);
	switch (c.t.below(8)) {
	case 0: case 1: h.say(nm + "add " + std::to_string(k)); l.l = R_(isl_val_list_add(l.l.r(), isl_val_int_from_si(c.ctx, k))); l.v.push_back(k); break;
	case 2: { int p = c.t.below(n + 1); h.say(nm + "insert"); l.l = R_(isl_val_list_insert(l.l.r(), p, isl_val_int_from_si(c.ctx, k))); l.v.insert(l.v.begin() + p, k); break; }
	case 3: h.say(nm + "map +" + std::to_string(k)); l.l = R_(isl_val_list_map(l.l.r(), &map_val, &k)); for (long &x : l.v) x += k; break;
	case 4: h.say(nm + "sort"); l.l = R_(isl_val_list_sort(l.l.r(), &cmp_val, nullptr)); std::sort(l.v.begin(), l.v.end()); break;
	case 5: if (n) { int p = c.t.below(n); h.say(nm + "drop"); l.l = R_(isl_val_list_drop(l.l.r(), p, 1)); l.v.erase(l.v.begin() + p); } break;
	case 6: if (h.vs.size() < 4) { h.say(nm + "copy"); Hist::V x = l; h.vs.push_back(x); } break;
	case 7: { h.say(nm + "print and read"); std::string s = take_str(isl_val_list_to_str(l.l.g())); l.l = R_(isl_val_list_read_from_str(c.ctx, s.c_str())); h.vs[w].l = l.l; break; }
	}
	h.cmp(h.vs[w], "after the operation");
	if (c.t.chance(1, 4)) for (auto &x : h.vs) h.cmp(x, "other list");
}
void run(Case &c)
{
	Hist h(c);
	bool many = c.t.chance(1, 6);     // fill the hash tables
	h.nn = many ? 12 + c.t.below(25) : 1 + c.t.below(c.t.chance(1, 3) ? 12 : 4); h.ns = many ? 2 : 2 + c.t.below(3);
	for (int i = 0; i < h.nn; ++i) h.names.push_back(c.t.chance(1, 8) ? std::string(1 + c.t.below(3), 'a') + std::to_string(i) : "n" + std::to_string(i));
	h.nid = (h.nn + 1) * h.ns - 1;      // the last one has neither a name nor a user pointer
	h.slots.resize(h.ns); h.expect.assign(h.ns, 0); h.how.assign(h.nid, 0); h.addr.assign(h.nid, nullptr);
	for (int i = 0; i < 8; ++i) h.keys.push_back(R_(isl_map_read_from_str(c.ctx, ("{ A[x, y] -> B[x + " + std::to_string(i % 4) + "y] : x >= " + std::to_string(i / 4) + " }").c_str())));
	auto mkk = [&](int i) { return h.mk(i); };
	auto kk = [&](isl_id *p) { return h.idx(p); };
	auto fk = [&](isl_id *p) { isl_id_free(p); };
	auto ri = [&]() { return (int)c.t.below(h.nid); };
	auto rl = [&]() { return (long)c.t.range(0, 5); };
	Ops<isl_id_to_id, isl_id, isl_id, Hist::M, int> o1{isl_id_to_id_alloc, isl_id_to_id_copy, isl_id_to_id_free, isl_id_to_id_has, isl_id_to_id_get, isl_id_to_id_set, isl_id_to_id_drop, isl_id_to_id_foreach, mkk, kk, mkk, kk, fk, ri, h.nid, "id_to_id"};
	Ops<isl_id_to_pw_aff, isl_id, isl_pw_aff, Hist::P, long> o2{isl_id_to_pw_aff_alloc, isl_id_to_pw_aff_copy, isl_id_to_pw_aff_free, isl_id_to_pw_aff_has, isl_id_to_pw_aff_get, isl_id_to_pw_aff_set, isl_id_to_pw_aff_drop, isl_id_to_pw_aff_foreach, [&](long k) { return h.pa(k); }, [&](isl_pw_aff *p) { return h.pav(p); }, mkk, kk, fk, rl, h.nid, "id_to_pw_aff"};
	Ops<isl_id_to_ast_expr, isl_id, isl_ast_expr, Hist::E, long> o3{isl_id_to_ast_expr_alloc, isl_id_to_ast_expr_copy, isl_id_to_ast_expr_free, isl_id_to_ast_expr_has, isl_id_to_ast_expr_get, isl_id_to_ast_expr_set, isl_id_to_ast_expr_drop, isl_id_to_ast_expr_foreach, [&](long k) { return h.ex(k); }, [&](isl_ast_expr *p) { return h.exv(p); }, mkk, kk, fk, rl, h.nid, "id_to_ast_expr"};
	Ops<isl_map_to_basic_set, isl_map, isl_basic_set, Hist::K, long> o4{isl_map_to_basic_set_alloc, isl_map_to_basic_set_copy, isl_map_to_basic_set_free, isl_map_to_basic_set_has, isl_map_to_basic_set_get, isl_map_to_basic_set_set, isl_map_to_basic_set_drop, isl_map_to_basic_set_foreach, [&](long k) { return h.bs(k); }, [&](isl_basic_set *p) { return h.bsv(p); },
		[&](int i) { return h.keys[i].c(); }, [&](isl_map *m) { int r = -1; for (int i = 0; i < 8; ++i) if (isl_map_plain_is_equal(m, h.keys[i].g()) == isl_bool_true) r = i; isl_map_free(m); return r; }, [&](isl_map *m) { isl_map_free(m); }, rl, 8, "map_to_basic_set"};
	int focus = c.t.below(6), steps = many ? 100 + c.t.below(200) : 10 + c.t.below(c.t.chance(1, 4) ? 120 : 40);
	if (many) { int base = c.t.below(1000); for (auto &x : h.names) x = std::string(1, 'a' + c.t.below(26)) + std::to_string(base++); focus = 1 + c.t.below(5); }
	std::vector<char> before(h.nid);
	for (int s = 0; s < steps; ++s) {
		for (int i = 0; i < h.nid; ++i) before[i] = h.alive(i);
		int what = c.t.chance(1, 2) ? focus : c.t.below(7);
		switch (what) {
		case 0: list_step(h); break;
		case 1: o1.step(h, h.ms); break;
		case 2: o2.step(h, h.ps); break;
		case 3: o3.step(h, h.es); break;
		case 4: o4.step(h, h.ks); break;
		case 5: { // references to identifiers
			int i = c.t.below(h.nid);
			switch (c.t.weighted({4, 4, 2, 2, 1, 2, 2})) {
			case 0: h.say("hold " + std::to_string(i)); { Id x(h.mk(i)); h.held.push_back({x, i}); } break;
			case 1: if (!h.held.empty()) { int k = c.t.below(h.held.size()); h.say("release " + std::to_string(h.held[k].second)); h.held.erase(h.held.begin() + k); } break;
			case 2: case 3: { // set a callback
				int k = 1 + c.t.below(2); if (!h.user(i)) break;
				h.say("callback " + std::to_string(k) + " on " + std::to_string(i));
				Id x(h.mk(i)); x = R_(isl_id_set_free_user(x.r(), k == 1 ? &on_free : &on_free2)); h.how[i] = k;
				if (isl_id_get_free_user(x.g()) != (k == 1 ? &on_free : &on_free2)) h.bad("isl_id_get_free_user", std::to_string(i));
				h.held.push_back({x, i}); break; }
			case 4: if (!h.held.empty()) { int k = c.t.below(h.held.size()); auto x = h.held[k]; h.held.push_back(x); } break;
			case 5: { if (!h.cname(i)) break; h.say("space with " + std::to_string(i)); Hist::Sx x; isl_id *p = h.mk(i); x.s = R_(isl_space_set_tuple_id(isl_space_set_alloc(c.ctx, 0, 1), isl_dim_set, p)); x.v = {i}; h.sx.push_back(x);
				int j = c.t.below(h.nid); if (h.cname(j) && c.t.chance(1, 2)) { isl_id *q = h.mk(j); h.sx.back().s = R_(isl_space_set_dim_id(h.sx.back().s.r(), isl_dim_set, 0, q)); h.sx.back().v.push_back(j); } break; }
			case 6: if (!h.sx.empty()) { int k = c.t.below(h.sx.size()); h.say("release space"); Hist::Sx &x = h.sx[k]; if (h.idx(isl_space_get_tuple_id(x.s.g(), isl_dim_set)) != x.v[0]) h.bad("tuple id", ""); if (x.v.size() > 1 && h.idx(isl_space_get_dim_id(x.s.g(), isl_dim_set, 0)) != x.v[1]) h.bad("dim id", ""); h.sx.erase(h.sx.begin() + k); } break;
			}
			break; }
		case 6: val_step(h); break;
		}
		h.check_live(before);
		std::vector<char> now(h.nid); for (int i = 0; i < h.nid; ++i) now[i] = h.alive(i);
		for (int i = 0; i < h.nid; ++i) for (int j = i + 1; now[i] && j < h.nid; ++j) if (now[j] && h.addr[i] == h.addr[j]) h.bad("identity", h.nm(i) + " and " + h.nm(j) + " are the same object");
	}
	for (auto &l : h.ls) h.cmp(l, "at the end");
	for (auto &l : h.vs) h.cmp(l, "at the end");
	for (auto &m : h.ms) o1.verify(h, m, "at the end");
	for (auto &m : h.ps) o2.verify(h, m, "at the end");
	for (auto &m : h.es) o3.verify(h, m, "at the end");
	for (auto &m : h.ks) o4.verify(h, m, "at the end");
	for (int i = 0; i < h.nid; ++i) before[i] = h.alive(i);
	for (auto &m : h.ms) isl_id_to_id_free(m.m); for (auto &m : h.ps) isl_id_to_pw_aff_free(m.m); for (auto &m : h.es) isl_id_to_ast_expr_free(m.m);
	h.ms.clear(); h.ps.clear(); h.es.clear(); h.held.clear(); h.ls.clear(); h.sx.clear();
	h.say("release everything");
	h.check_live(before);
	c.log << h.log;
}
} // namespace
namespace vp { Prop the_prop = {"C29",
	"histories of up to 300 operations on identifiers, lists, associative arrays and spaces holding identifiers; non-trivial: copies of a container diverge or a graph with a proper component was ordered",
	run, 16000, 300000, 400000, false, 60, true}; }
