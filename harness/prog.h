// Programs (statement instances), schedules and schedule trees: generation,
// reading isl schedules into a model, execution order of instances.
#pragma once
#include "fn.h"
#include <isl/schedule.h>
#include <isl/schedule_node.h>
#include <isl/flow.h>
#include <map>
#include <set>

namespace vp {
VP_TRAIT(isl_schedule)
VP_TRAIT(isl_schedule_constraints)
VP_TRAIT(isl_schedule_node)
VP_TRAIT(isl_union_access_info)
VP_TRAIT(isl_union_flow)
VP_TRAIT(isl_union_set_list)
typedef H<isl_schedule> Sched;
typedef H<isl_schedule_node> Node;
typedef H<isl_union_pw_aff> UPA;
typedef H<isl_union_pw_multi_aff> UPMA;
typedef H<isl_multi_union_pw_aff> MUPA;

// an element of a named space; key = tuple structure
struct Inst { std::string k; Pt x; };
inline bool operator<(const Inst &a, const Inst &b) { return a.k != b.k ? a.k < b.k : a.x < b.x; }
inline bool operator==(const Inst &a, const Inst &b) { return a.k == b.k && a.x == b.x; }
std::string str(const Inst &i);
std::string tkey(const Tup &t);

// unions; points are (params, in, out) with the parameters of the program
struct USM { std::map<std::string, MMap> m; bool all = false; bool has(const Pt &par, const Inst &i) const { if (all) return true; auto it = m.find(i.k); return it != m.end() && it->second.has(cat(par, i.x)); } };
struct UMM {
	std::map<std::pair<std::string, std::string>, MMap> m;
	bool has(const Pt &par, const Inst &a, const Inst &b) const { auto it = m.find({a.k, b.k}); return it != m.end() && it->second.has(cat(cat(par, a.x), b.x)); }
};
struct UFM { std::map<std::string, FFun> f; };

struct Prog {
	std::vector<std::string> params;
	std::vector<Tup> st;                     // statements
	USet dom; USM dm;
	int lo = -1, hi = 5;                     // all domain elements are in this box for considered parameters
	std::string text;
	int np() const { return (int)params.size(); }
	Sp sp(int i) const { Sp s; s.params = params; s.out = st[i]; return s; }
	isl_space *pspace(Case &c) const;
	std::vector<Inst> insts(const Pt &par) const;       // domain elements for the parameter values
	std::vector<Pt> pars(int lo, int hi) const { return box_points(np(), lo, hi); }
};
struct ProgOpt { int max_st = 3, max_d = 2, max_par = 1, box = 4; bool allow_zero_d = true; };
Prog gen_prog(Case &c, const ProgOpt &o);
std::string key_of(Case &c, isl_space *set_space);    // kept
USM extract_us(Case &c, const Prog &p, isl_union_set *u);   // kept
UMM extract_um(Case &c, const Prog &p, isl_union_map *u);
UFM extract_upa(Case &c, const Prog &p, isl_union_pw_aff *u);
isl_union_pw_aff *gen_upa(Case &c, const Prog &p, int depth = 1);   // affine function on every statement
isl_multi_union_pw_aff *gen_mupa(Case &c, const Prog &p, int n, const char *name = nullptr, int depth = 1);

// model of a schedule tree
struct TNode {
	enum isl_schedule_node_type type;
	std::vector<TNode> ch;
	USM filter;                               // domain, filter
	MMap par;                                 // context, guard (over params and outer schedule dims)
	std::vector<UFM> band; bool permutable = false; std::vector<bool> coincident; std::vector<int> loop;
	UMM ext;                                  // extension (schedule -> instance), expansion
};
TNode read_tree(Case &c, const Prog &p, isl_schedule_node *n);   // kept
TNode read_schedule(Case &c, const Prog &p, isl_schedule *s);

// execution position: band values ('b'), sequence positions ('s'), set positions ('t')
struct Tm { std::vector<std::pair<char, mpq_class>> v; bool in = true; };
Tm time_of(const TNode &t, const Pt &par, const Inst &i);
// -1: a before b, 1: after, 0: same position, 2: unordered (children of a set node)
int cmp(const Tm &a, const Tm &b);

struct SchedOpt { int depth = 3; bool sets = false; bool marks = false; bool div = true; bool affine = false; };
Sched gen_sched(Case &c, const Prog &p, const SchedOpt &o);
} // namespace vp
