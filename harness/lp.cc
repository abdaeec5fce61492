#include "lp.h"
namespace vp {
// standard form: columns x+ x- (free variables split), slacks, artificials
LPStat lp_min(int n, const std::vector<QRow> &eq, const std::vector<QRow> &ineq, const QRow &obj, mpq_class &val, QRow *arg)
{
	int m = eq.size() + ineq.size(), ns = ineq.size();
	int nc = 2 * n + ns + m;
	std::vector<QRow> T(m, QRow(nc + 1));
	std::vector<int> basis(m);
	for (int i = 0; i < m; ++i) {
		const QRow &r = i < (int)eq.size() ? eq[i] : ineq[i - eq.size()];
		for (int j = 0; j < n; ++j) { T[i][j] = r[1 + j]; T[i][n + j] = -r[1 + j]; }
		if (i >= (int)eq.size()) T[i][2 * n + i - eq.size()] = -1;
		T[i][nc] = -r[0];
		if (T[i][nc] < 0) for (auto &x : T[i]) x = -x;
		T[i][2 * n + ns + i] = 1;
		basis[i] = 2 * n + ns + i;
	}
	auto solve = [&](QRow cost, int ncols, mpq_class &z) -> bool {
		// reduced costs
		for (int i = 0; i < m; ++i) {
			mpq_class f = cost[basis[i]];
			if (f == 0) continue;
			for (int j = 0; j <= nc; ++j) cost[j] -= f * T[i][j];
		}
		for (;;) {
			int e = -1;
			for (int j = 0; j < ncols; ++j) if (cost[j] < 0) { e = j; break; }
			if (e < 0) { z = -cost[nc]; return true; }
			int l = -1;
			mpq_class best;
			for (int i = 0; i < m; ++i) if (T[i][e] > 0) {
				mpq_class r = T[i][nc] / T[i][e];
				if (l < 0 || r < best || (r == best && basis[i] < basis[l])) { l = i; best = r; }
			}
			if (l < 0) return false;
			mpq_class p = T[l][e];
			for (auto &x : T[l]) x /= p;
			for (int i = 0; i < m; ++i) if (i != l && T[i][e] != 0) {
				mpq_class f = T[i][e];
				for (int j = 0; j <= nc; ++j) if (T[l][j] != 0) T[i][j] -= f * T[l][j];
			}
			mpq_class f = cost[e];
			for (int j = 0; j <= nc; ++j) if (T[l][j] != 0) cost[j] -= f * T[l][j];
			basis[l] = e;
		}
	};
	QRow c1(nc + 1);
	for (int i = 0; i < m; ++i) c1[2 * n + ns + i] = 1;
	mpq_class z;
	solve(c1, nc, z);
	if (z > 0) return LP_EMPTY;
	// drive artificials out
	for (int i = 0; i < m; ++i) if (basis[i] >= 2 * n + ns) {
		int e = -1;
		for (int j = 0; j < 2 * n + ns; ++j) if (T[i][j] != 0) { e = j; break; }
		if (e < 0) continue;
		mpq_class p = T[i][e];
		for (auto &x : T[i]) x /= p;
		for (int k = 0; k < m; ++k) if (k != i && T[k][e] != 0) { mpq_class f = T[k][e]; for (int j = 0; j <= nc; ++j) T[k][j] -= f * T[i][j]; }
		basis[i] = e;
	}
	QRow c2(nc + 1);
	for (int j = 0; j < n; ++j) { c2[j] = obj[1 + j]; c2[n + j] = -obj[1 + j]; }
	if (!solve(c2, 2 * n + ns, z)) return LP_UNB;
	val = z + obj[0];
	if (arg) {
		arg->assign(n, 0);
		for (int i = 0; i < m; ++i) if (basis[i] < 2 * n) { if (basis[i] < n) (*arg)[basis[i]] += T[i][nc]; else (*arg)[basis[i] - n] -= T[i][nc]; }
	}
	return LP_OPT;
}
bool lp_sat(int n, const std::vector<QRow> &eq, const std::vector<QRow> &ineq)
{
	mpq_class v;
	return lp_min(n, eq, ineq, QRow(1 + n), v) != LP_EMPTY;
}
int rank(std::vector<QRow> m)
{
	int r = 0;
	if (m.empty()) return 0;
	for (size_t c = 0; c < m[0].size() && r < (int)m.size(); ++c) {
		int p = -1;
		for (size_t i = r; i < m.size(); ++i) if (m[i][c] != 0) { p = i; break; }
		if (p < 0) continue;
		std::swap(m[p], m[r]);
		for (size_t i = r + 1; i < m.size(); ++i) if (m[i][c] != 0) {
			mpq_class f = m[i][c] / m[r][c];
			for (size_t j = c; j < m[0].size(); ++j) m[i][j] -= f * m[r][j];
		}
		r++;
	}
	return r;
}
bool in_hull(int n, const std::vector<Poly> &ps, const QRow &p)
{
	std::vector<Poly> q;
	for (auto &x : ps) if (lp_sat(n, x.eq, x.ineq)) q.push_back(x);
	int k = q.size();
	if (!k) return false;
	int N = k * (n + 1);          // per polyhedron: lambda, y
	std::vector<QRow> eq, ineq;
	for (int i = 0; i < k; ++i) {
		auto put = [&](const QRow &r) { QRow o(1 + N); o[1 + i * (n + 1)] = r[0]; for (int j = 0; j < n; ++j) o[2 + i * (n + 1) + j] = r[1 + j]; return o; };
		for (auto &r : q[i].eq) eq.push_back(put(r));
		for (auto &r : q[i].ineq) ineq.push_back(put(r));
		QRow l(1 + N); l[1 + i * (n + 1)] = 1; ineq.push_back(l);
	}
	QRow s(1 + N); s[0] = -1;
	for (int i = 0; i < k; ++i) s[1 + i * (n + 1)] = 1;
	eq.push_back(s);
	for (int j = 0; j < n; ++j) { QRow r(1 + N); r[0] = -p[j]; for (int i = 0; i < k; ++i) r[2 + i * (n + 1) + j] = 1; eq.push_back(r); }
	return lp_sat(N, eq, ineq);
}
}
