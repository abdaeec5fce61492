// Reference model: Presburger sets/relations as lists of basic pieces,
// evaluated at concrete integer points independently of the library.
#pragma once
#include <cstdint>
#include <functional>
#include <optional>
#include <string>
#include <vector>
#include <gmpxx.h>

namespace vp {

typedef std::vector<int64_t> Pt;
typedef std::vector<mpz_class> ZRow;

// layout of a row: [constant, variables (params,in,out), divs]
struct MDiv { bool known = false; ZRow num; mpz_class den = 1; };
struct MBasic {
	int nvar = 0;
	std::vector<MDiv> divs;
	std::vector<ZRow> eq, ineq;
	int width() const { return 1 + nvar + (int)divs.size(); }
	bool has(const Pt &p) const;
	// compiled small form
	mutable int compiled = 0;      // 0 no, 1 small, 2 big
	mutable std::vector<std::vector<int64_t>> seq, sineq, sdiv;
	mutable std::vector<int64_t> sden;
	mutable bool all_known = true;
	void compile() const;
};
struct MMap {
	int np = 0, ni = 0, no = 0;
	std::vector<MBasic> d;
	int nvar() const { return np + ni + no; }
	bool has(const Pt &p) const { for (auto &b : d) if (b.has(p)) return true; return false; }
	MMap() {}
	MMap(int p, int i, int o) : np(p), ni(i), no(o) {}
};

// Exact integer satisfiability of a system over n unknowns (rows: [const, x1..xn]);
// complete Omega test.
bool omega_sat(int n, std::vector<ZRow> eq, std::vector<ZRow> ineq);
// Range of a rational (LP) objective etc. is in lp.h

// b with the variables in "ex" (indices into the variable block) turned into
// unknown existential divs; remaining variables keep their order.
MBasic project(const MBasic &b, const std::vector<int> &ex);
MMap project_vars(const MMap &m, const std::vector<int> &ex, int np, int ni, int no);
// Embeds b's variables into a space with nv variables: var k -> pos[k]
MBasic embed(const MBasic &b, int nv, const std::vector<int> &pos);
MBasic conj(const MBasic &a, const MBasic &b);   // same nvar
MMap embed(const MMap &m, int np, int ni, int no, const std::vector<int> &pos);
MMap conj(const MMap &a, const MMap &b);
bool sat(const MBasic &b);                       // any integer point (all variables free)
MBasic fix(const MBasic &b, const std::vector<std::pair<int, int64_t>> &vals); // adds equalities

// Windows of points
struct Window {
	int n;
	std::vector<Pt> pts;
};
// Points of a box around "center" sized to roughly "budget" points.
Window make_window(int n, int budget, const Pt *center = nullptr);

std::string str(const Pt &p);
std::string str(const MMap &m);

mpz_class fdiv(const mpz_class &a, const mpz_class &b);
mpz_class cdiv(const mpz_class &a, const mpz_class &b);
inline mpz_class Z(int64_t v) { return mpz_class((long)v); }

} // namespace vp
