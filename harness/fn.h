// Reference functions: extraction of isl's (piecewise quasi-)affine functions,
// random quasi-affine expressions with independent evaluation, space-aware
// point-wise comparison helpers.
#pragma once
#include "gen.h"

namespace vp {

struct FV { int st = 0; mpq_class v; };   // 0: undefined, 1: value, 2: NaN
inline bool operator==(const FV &a, const FV &b) { return a.st == b.st && (a.st != 1 || a.v == b.v); }
inline bool operator!=(const FV &a, const FV &b) { return !(a == b); }
inline FV fval(const mpq_class &q) { FV r; r.st = 1; r.v = q; return r; }
inline FV fnan() { FV r; r.st = 2; return r; }
std::string str(const FV &v);
std::string str(const std::vector<FV> &v);

struct FAff {
	int nvar = 0;
	bool nan = false;
	std::vector<MDiv> divs;
	ZRow num;                 // [cst, vars, divs]
	mpz_class den = 1;
	FV eval(const Pt &p) const;
};
struct FPiece { MMap dom; std::vector<FAff> a; };
struct FPA {                      // pieces
	std::vector<FPiece> p;
	// piece containing the point; n: how many pieces contain it
	const FPiece *at(const Pt &pt, int *n = nullptr) const;
};
struct FFun {
	int np = 0, nin = 0, nout = 0;
	bool per_comp = false;
	std::vector<FPA> comp;    // one (all outputs) or one per output
	bool has_expl = false;
	MMap expl;
	bool def(const Pt &p) const;
	std::vector<FV> eval(const Pt &p) const;   // per output; st 0 where undefined
	bool ambiguous(const Pt &p) const;
};
FAff fn_aff(Case &c, isl_aff *a);
FFun fn(Case &c, isl_aff *a);
FFun fn(Case &c, isl_pw_aff *a);
FFun fn(Case &c, isl_multi_aff *a);
FFun fn(Case &c, isl_pw_multi_aff *a);
FFun fn(Case &c, isl_multi_pw_aff *a);

// random expressions
struct QE {
	enum K { CST, VAR, ADD, SUB, MULC, FLOORD, CEILD, MOD, NEG, MIN, MAX, COND, DIVC } k = CST;
	mpz_class c = 0;          // constant / factor / divisor
	int var = 0;
	std::vector<QE> ch;       // COND: ch[0] >= 0 ? ch[1] : ch[2]
	std::string text(const std::vector<std::string> &names) const;
	mpq_class eval(const Pt &p) const;
	isl_pw_aff *build(Case &c, isl_space *space) const;   // space: kept; set or map domain space
	isl_aff *build_aff(Case &c, isl_space *space) const;  // no MIN/MAX/COND
	bool affine() const;
};
// pw: allow min/max/conditionals; rat: allow division without rounding at the top
QE gen_qe(Case &c, int nv, int depth, bool pw = false);

// comparison of results with a space and a predicate
typedef std::function<bool(const Pt &)> Pred;
void want_space(Case &c, const char *op, isl_space *got_taken, const Sp &sp, const std::string &how);
void check(Case &c, const char *op, const Set &res, const Sp &sp, const Pred &want, const std::string &how, int budget = 1200);
void check(Case &c, const char *op, const Map &res, const Sp &sp, const Pred &want, const std::string &how, int budget = 1200);
typedef std::function<std::vector<FV>(const Pt &)> VFun;   // empty vector or st 0: undefined
// every output is compared at every point; domain undefined iff want says so
void check_fn(Case &c, const char *op, const FFun &got, int np, int nin, int nout, const VFun &want, const std::string &how, int budget = 500);

Sp set_sp(const Sp &model, const Tup &t);
Sp map_sp(const Sp &model, const Tup &a, const Tup &b);
Tup wrap_tup(const Tup &a, const Tup &b);
Tup flat_tup(int n);
inline Pt cat(const Pt &a, const Pt &b) { Pt r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
inline Pt sub(const Pt &a, int f, int n) { return Pt(a.begin() + f, a.begin() + f + n); }
std::string ints(std::initializer_list<long> l);

// identity-like index vector helpers for embed()
std::vector<int> seq(int from, int n);
template <class... A> std::vector<int> cati(A... a) { std::vector<int> r; (r.insert(r.end(), a.begin(), a.end()), ...); return r; }

// random functions in a given map space; the model is returned through "f"
MAff gen_maff(Case &c, const Sp &sp, int depth = 2);
PMA gen_pma(Case &c, const Sp &sp, bool total = false);
MPA gen_mpa(Case &c, const Sp &sp, bool total = false);
PwAff gen_pwaff(Case &c, const Sp &dom, bool total = false, bool rat = false);   // dom: set space

} // namespace vp
