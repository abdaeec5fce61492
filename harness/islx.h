// isl object handles (RAII), extraction of isl objects into the reference model.
#pragma once
#include "core.h"
#include "model.h"
#include <isl/ctx.h>
#include <isl/options.h>
#include <isl/space.h>
#include <isl/local_space.h>
#include <isl/set.h>
#include <isl/map.h>
#include <isl/union_set.h>
#include <isl/union_map.h>
#include <isl/constraint.h>
#include <isl/aff.h>
#include <isl/val.h>
#include <isl/val_gmp.h>
#include <isl/mat.h>
#include <isl/vec.h>
#include <isl/point.h>
#include <isl/id.h>
#include <isl/polynomial.h>
#include <isl/printer.h>
#include <isl/schedule.h>
#include <isl/schedule_node.h>

namespace vp {

template <class T> struct Tr;
#define VP_TRAIT(T) template <> struct Tr<T> { \
	static T *copy(T *p) { return T##_copy(p); } \
	static void free(T *p) { T##_free(p); } };
VP_TRAIT(isl_space)
VP_TRAIT(isl_local_space)
VP_TRAIT(isl_basic_set)
VP_TRAIT(isl_basic_map)
VP_TRAIT(isl_set)
VP_TRAIT(isl_map)
VP_TRAIT(isl_union_set)
VP_TRAIT(isl_union_map)
VP_TRAIT(isl_constraint)
VP_TRAIT(isl_aff)
VP_TRAIT(isl_pw_aff)
VP_TRAIT(isl_multi_aff)
VP_TRAIT(isl_pw_multi_aff)
VP_TRAIT(isl_multi_pw_aff)
VP_TRAIT(isl_union_pw_aff)
VP_TRAIT(isl_union_pw_multi_aff)
VP_TRAIT(isl_multi_union_pw_aff)
VP_TRAIT(isl_val)
VP_TRAIT(isl_multi_val)
VP_TRAIT(isl_multi_id)
VP_TRAIT(isl_mat)
VP_TRAIT(isl_vec)
VP_TRAIT(isl_point)
VP_TRAIT(isl_id)
VP_TRAIT(isl_qpolynomial)
VP_TRAIT(isl_pw_qpolynomial)
VP_TRAIT(isl_qpolynomial_fold)
VP_TRAIT(isl_pw_qpolynomial_fold)
VP_TRAIT(isl_union_pw_qpolynomial)
VP_TRAIT(isl_union_pw_qpolynomial_fold)
VP_TRAIT(isl_basic_set_list)
VP_TRAIT(isl_basic_map_list)
VP_TRAIT(isl_set_list)
VP_TRAIT(isl_map_list)
VP_TRAIT(isl_constraint_list)
VP_TRAIT(isl_val_list)
VP_TRAIT(isl_aff_list)
VP_TRAIT(isl_pw_aff_list)
VP_TRAIT(isl_id_list)

// owning handle
template <class T> class H {
	T *p_ = nullptr;
public:
	H() {}
	H(T *p) : p_(p) {}
	H(const H &o) : p_(o.p_ ? Tr<T>::copy(o.p_) : nullptr) {}
	H(H &&o) noexcept : p_(o.p_) { o.p_ = nullptr; }
	H &operator=(H o) { std::swap(p_, o.p_); return *this; }
	~H() { if (p_) Tr<T>::free(p_); }
	T *g() const { return p_; }                       // keep
	T *c() const { return p_ ? Tr<T>::copy(p_) : nullptr; } // take a copy
	T *r() { T *p = p_; p_ = nullptr; return p; }     // release
	explicit operator bool() const { return p_ != nullptr; }
};
typedef H<isl_space> Space;
typedef H<isl_set> Set;
typedef H<isl_map> Map;
typedef H<isl_basic_set> BSet;
typedef H<isl_basic_map> BMap;
typedef H<isl_union_set> USet;
typedef H<isl_union_map> UMap;
typedef H<isl_aff> Aff;
typedef H<isl_pw_aff> PwAff;
typedef H<isl_multi_aff> MAff;
typedef H<isl_pw_multi_aff> PMA;
typedef H<isl_multi_pw_aff> MPA;
typedef H<isl_val> Val;
typedef H<isl_point> Point;
typedef H<isl_id> Id;
typedef H<isl_mat> Mat;
typedef H<isl_vec> Vec;

// Result checks: a NULL / error result because of the operation limit discards
// the case, any other error is a failure of the property.
void on_error(Case &c, const char *op);
template <class T> H<T> R(Case &c, T *p, const char *op)
{
	if (!p) on_error(c, op);
	c.step();
	return H<T>(p);
}
inline bool B(Case &c, isl_bool b, const char *op) { if (b == isl_bool_error) on_error(c, op); c.step(); return b == isl_bool_true; }
inline int N(Case &c, isl_size n, const char *op) { if (n < 0) on_error(c, op); return n; }
void clear_error(Case &c);

mpz_class val_num(isl_val *v);
mpz_class val_den(isl_val *v);
mpz_class take_int(Case &c, isl_val *v);    // consumes, requires integer

MBasic extract_bset(Case &c, isl_basic_set *bset);
MBasic extract_bmap(Case &c, isl_basic_map *bmap);
MMap extract(Case &c, isl_set *set);
MMap extract(Case &c, isl_map *map);
MMap extract(Case &c, isl_basic_set *bset);
MMap extract(Case &c, isl_basic_map *bmap);

std::string S(isl_set *p);
std::string S(isl_map *p);
std::string S(isl_basic_set *p);
std::string S(isl_basic_map *p);
std::string S(isl_union_set *p);
std::string S(isl_union_map *p);
std::string S(isl_space *p);
std::string S(isl_aff *p);
std::string S(isl_pw_aff *p);
std::string S(isl_multi_aff *p);
std::string S(isl_pw_multi_aff *p);
std::string S(isl_multi_pw_aff *p);
std::string S(isl_val *p);
std::string S(isl_union_pw_aff *p);
std::string S(isl_union_pw_multi_aff *p);
std::string S(isl_multi_union_pw_aff *p);
std::string S(isl_pw_qpolynomial *p);
std::string S(isl_pw_qpolynomial_fold *p);
std::string S(isl_union_pw_qpolynomial *p);
std::string S(isl_union_pw_qpolynomial_fold *p);
std::string S(isl_multi_val *p);
std::string S(isl_id *p);
std::string S(isl_multi_id *p);
std::string S(isl_point *p);
std::string S(isl_schedule *p);
std::string S(isl_schedule_node *p);
std::string take_str(char *s);
template <class T> std::string S(const H<T> &h) { return S(h.g()); }

Pt point_of(Case &c, isl_point *p, int np, int ns);

isl_val *mkval(isl_ctx *ctx, const mpz_class &z);
isl_val *mkrat(isl_ctx *ctx, const mpq_class &q);
mpq_class take_rat(Case &c, isl_val *v);    // consumes, requires rational

// Compare two membership predicates over a window; reports the first mismatch
template <class F, class G>
void same_on(Case &c, const Window &w, const std::string &kind, F got, G want,
	const std::function<std::string()> &ctxt)
{
	for (auto &p : w.pts) {
		bool a = got(p), b = want(p);
		if (a != b)
			c.fail(kind, "at " + str(p) + " (params, in, out): library says " + (a ? "in" : "not in") +
				", definition says " + (b ? "in" : "not in") + "\n" + ctxt());
	}
}

} // namespace vp
