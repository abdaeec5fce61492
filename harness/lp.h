// Exact rational linear programming (dense simplex, Bland's rule).
#pragma once
#include "model.h"
namespace vp {
typedef std::vector<mpq_class> QRow;
enum LPStat { LP_EMPTY, LP_UNB, LP_OPT };
// minimise obj over { x in Q^n : eq . (1,x) = 0, ineq . (1,x) >= 0 }; rows are [const, x1..xn]
LPStat lp_min(int n, const std::vector<QRow> &eq, const std::vector<QRow> &ineq, const QRow &obj, mpq_class &val, QRow *arg = nullptr);
bool lp_sat(int n, const std::vector<QRow> &eq, const std::vector<QRow> &ineq);
inline QRow q(const ZRow &r) { return QRow(r.begin(), r.end()); }
inline std::vector<QRow> q(const std::vector<ZRow> &r) { std::vector<QRow> o; for (auto &x : r) o.push_back(q(x)); return o; }
// rank of a rational matrix
int rank(std::vector<QRow> m);
// is p in the closed convex hull of the union of the polyhedra (rows over the
// same n variables)?
struct Poly { std::vector<QRow> eq, ineq; };
bool in_hull(int n, const std::vector<Poly> &ps, const QRow &p);
}
