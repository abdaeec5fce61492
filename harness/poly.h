// Reference quasi-polynomials: random polynomial expressions with independent
// evaluation, extraction of isl's (piecewise) quasi-polynomials term by term.
#pragma once
#include "fn.h"

namespace vp {
typedef H<isl_qpolynomial> QP;
typedef H<isl_pw_qpolynomial> PWQ;
typedef H<isl_union_pw_qpolynomial> UPWQ;
typedef H<isl_qpolynomial_fold> QF;
typedef H<isl_pw_qpolynomial_fold> PWF;
typedef H<isl_union_pw_qpolynomial_fold> UPWF;

struct PV { int k = 0; mpq_class v; };         // k: 0 value, 1 +inf, -1 -inf, 2 NaN
inline PV pval(const mpq_class &q) { PV r; r.v = q; return r; }
inline PV pspec(int k) { PV r; r.k = k; return r; }
inline bool operator==(const PV &a, const PV &b) { return a.k == b.k && (a.k != 0 || a.v == b.v); }
inline bool operator!=(const PV &a, const PV &b) { return !(a == b); }
PV operator+(const PV &a, const PV &b);
PV operator*(const PV &a, const PV &b);
PV neg(const PV &a);
bool pless(const PV &a, const PV &b);          // no NaN
std::string str(const PV &v);
PV take_pv(Case &c, isl_val *v);

struct PTerm { mpq_class coef; std::vector<int> e; };   // exponents of variables, then divs
struct FPoly {
	int k = 0;                                  // 0, or a special constant as in PV
	int nvar = 0;
	std::vector<FAff> divs;
	std::vector<PTerm> t;
	PV eval(const Pt &p) const;
};
FPoly fn_poly(Case &c, isl_qpolynomial *q);
struct FPW {
	struct Piece { MMap dom; FPoly q; };
	std::vector<Piece> p;
	PV eval(const Pt &p, int *n = nullptr) const;  // 0 outside
};
FPW fn_pw(Case &c, isl_pw_qpolynomial *p);

// polynomial expressions in quasi-affine expressions
struct PE {
	enum K { LEAF, ADD, SUB, MUL, POW, SCALE, CST } k = LEAF;
	QE q;
	mpq_class f = 0;
	int n = 0;
	std::vector<PE> ch;
	mpq_class eval(const Pt &p) const;
	std::string text(const std::vector<std::string> &names) const;
	QP build(Case &c, isl_space *dom) const;    // dom: set space (kept)
};
PE gen_pe(Case &c, int nv, int depth, bool div = true);
struct PMod { MMap dom; PE e; };
// random piecewise quasi-polynomial on a set space with its model
PWQ gen_pwq(Case &c, const Sp &dom, std::vector<PMod> &model, const GenOpt &o, int max_piece = 3, bool div = true, int depth = 2);
PV eval(const std::vector<PMod> &m, const Pt &p);
std::string text(const std::vector<PMod> &m, const Sp &dom);
Point mk_point(Case &c, isl_space *sp_taken, int np, const Pt &p);
} // namespace vp
