// Generators of sets, relations and spaces.
#pragma once
#include "islx.h"

namespace vp {

struct Tup {                       // tuple structure
	std::string name;
	int n = 0;                     // dimensions if not nested
	std::vector<Tup> sub;          // empty or {domain, range}
	int dim() const { return sub.empty() ? n : sub[0].dim() + sub[1].dim(); }
};
struct Sp {                        // a set or map space
	std::vector<std::string> params;
	bool is_map = false;
	Tup in, out;
	int np() const { return (int)params.size(); }
	int ni() const { return is_map ? in.dim() : 0; }
	int no() const { return out.dim(); }
};
struct GenOpt {
	int max_basic = 3;
	bool bounded = false;          // every disjunct bounded in all set dims (params bounded below/above too if bound_params)
	bool allow_exist = true, allow_div = true;
	bool allow_big = true;
	bool allow_empty = true;
	int coef = 3;
	int box = 6;
	int extra = 3;                 // max number of extra constraints
	bool only_box = false;
};

Tup mk_tup(const std::string &name, int n);
std::string tup_name(Case &c);     // random (possibly empty) tuple name
Sp gen_set_space(Case &c, int maxp, int maxd, bool nested = false);
Sp gen_map_space(Case &c, int maxp, int maxi, int maxo, bool nested = false);
Tup gen_tup(Case &c, int maxd, bool nested);

MMap gen_mmap(Case &c, const Sp &sp, const GenOpt &o);
std::string sp_params(const Sp &sp);
std::string to_text(const MMap &m, const Sp &sp);
std::string row_text(const ZRow &r, const std::vector<std::string> &names);
std::vector<std::string> var_names(const Sp &sp);
isl_space *mk_space(Case &c, const Sp &sp);

// build the isl object for a generated model (checks that it denotes the model)
Set build_set(Case &c, const MMap &m, const Sp &sp);
Map build_map(Case &c, const MMap &m, const Sp &sp);
// random set/map in the given space with a random internal representation
Set gen_set(Case &c, const Sp &sp, const GenOpt &o, bool scramble = true);
Map gen_map(Case &c, const Sp &sp, const GenOpt &o, bool scramble = true);
BSet gen_bset(Case &c, const Sp &sp, const GenOpt &o);
BMap gen_bmap(Case &c, const Sp &sp, const GenOpt &o);
Set scramble_set(Case &c, Set s, const Sp &sp, const GenOpt &o);
Map scramble_map(Case &c, Map s, const Sp &sp, const GenOpt &o);

// intersection with lo <= x <= hi in every parameter and dimension
Set clip(Case &c, const Set &s, int lo, int hi);
Map clip(Case &c, const Map &s, int lo, int hi);
std::vector<Pt> box_points(int n, int lo, int hi);

inline int n_basic(const Set &s) { return isl_set_n_basic_set(s.g()); }
inline int n_basic(const Map &s) { return isl_map_n_basic_map(s.g()); }

// random affine row over nv variables, not all zero coefficient unless nv = 0
ZRow gen_row(Case &c, int nv, int coef, int cst);

} // namespace vp
