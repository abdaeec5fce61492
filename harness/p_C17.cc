// C17: integer matrix and vector operations satisfy their defining equations.
#include "fn.h"
#include <gmp.h>
using namespace vp;
extern "C" {
isl_mat *isl_mat_zero(isl_ctx *ctx, unsigned n_row, unsigned n_col);
isl_mat *isl_mat_reverse_gauss(isl_mat *mat);
isl_mat *isl_mat_lexnonneg_rows(isl_mat *mat);
isl_bool isl_mat_is_scaled_identity(isl_mat *mat);
isl_stat isl_mat_row_gcd(isl_mat *mat, int row, mpz_t *gcd);
isl_vec *isl_mat_get_row(isl_mat *mat, unsigned row);
isl_mat *isl_mat_row_neg(isl_mat *mat, int row);
isl_mat *isl_mat_col_neg(isl_mat *mat, int col);
isl_bool isl_vec_is_zero(isl_vec *vec);
void isl_vec_lcm(isl_vec *vec, mpz_t *lcm);
uint32_t isl_mat_get_hash(isl_mat *mat);
uint32_t isl_vec_get_hash(isl_vec *vec);
}

namespace {
typedef mpz_class I;
typedef std::vector<I> Row;
struct M { int r = 0, c = 0; std::vector<Row> a; M() {} M(int r, int c) : r(r), c(c), a(r, Row(c)) {} bool operator==(const M &o) const { return r == o.r && c == o.c && a == o.a; } };
std::string str(const Row &v) { std::string s = "["; for (auto &x : v) s += x.get_str() + " "; return s + "]"; }
std::string str(const M &m) { std::string s = std::to_string(m.r) + "x" + std::to_string(m.c) + ": "; for (auto &v : m.a) s += str(v) + " "; return s; }
M mul(const M &a, const M &b) { M m(a.r, b.c); for (int i = 0; i < a.r; ++i) for (int j = 0; j < b.c; ++j) for (int k = 0; k < a.c; ++k) m.a[i][j] += a.a[i][k] * b.a[k][j]; return m; }
M ident(int n) { M m(n, n); for (int i = 0; i < n; ++i) m.a[i][i] = 1; return m; }
M stack(const M &a, const M &b) { M m = a; m.r += b.r; m.a.insert(m.a.end(), b.a.begin(), b.a.end()); return m; }
M top(const M &a, int n) { M m = a; m.r = n; m.a.resize(n); return m; }
int rank(const M &m)
{
	std::vector<std::vector<mpq_class>> a(m.r, std::vector<mpq_class>(m.c));
	for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) a[i][j] = m.a[i][j];
	int r = 0;
	for (int j = 0; j < m.c && r < m.r; ++j) {
		int p = -1; for (int i = r; i < m.r; ++i) if (a[i][j] != 0) { p = i; break; }
		if (p < 0) continue;
		std::swap(a[p], a[r]);
		for (int i = r + 1; i < m.r; ++i) { mpq_class f = a[i][j] / a[r][j]; if (f != 0) for (int k = j; k < m.c; ++k) a[i][k] -= f * a[r][k]; }
		++r;
	}
	return r;
}
mpq_class det(const M &m)
{
	std::vector<std::vector<mpq_class>> a(m.r, std::vector<mpq_class>(m.c));
	for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) a[i][j] = m.a[i][j];
	mpq_class d = 1;
	for (int j = 0; j < m.c; ++j) {
		int p = -1; for (int i = j; i < m.r; ++i) if (a[i][j] != 0) { p = i; break; }
		if (p < 0) return 0;
		if (p != j) { std::swap(a[p], a[j]); d = -d; }
		d *= a[j][j];
		for (int i = j + 1; i < m.r; ++i) { mpq_class f = a[i][j] / a[j][j]; if (f != 0) for (int k = j; k < m.c; ++k) a[i][k] -= f * a[j][k]; }
	}
	return d;
}
I gen_i(Case &c, int mag) { return mag == 2 ? I(c.t.range(-1000000, 1000000)) * I(c.t.range(-1000000, 1000000)) * 12345678901L + c.t.range(-3, 3) : I(mag == 1 ? c.t.range(-40, 40) : c.t.range(-3, 3)); }
M gen_m(Case &c, int r, int cc)
{
	M m(r, cc);
	int mag = c.t.weighted({5, 3, 1}), zeros = c.t.below(4);
	for (auto &v : m.a) for (auto &x : v) x = (int)c.t.below(6) < zeros ? I(0) : gen_i(c, mag);
	if (r > 1 && c.t.chance(1, 3)) {   // dependent rows
		int k = c.t.below(r); Row v(cc);
		for (int i = 0; i < r; ++i) if (i != k) { I f = c.t.range(-2, 2); for (int j = 0; j < cc; ++j) v[j] += f * m.a[i][j]; }
		m.a[k] = v;
	}
	return m;
}
M gen_unimod(Case &c, int n)
{
	M m = ident(n);
	int s = c.t.below(2 * n + 2);
	for (int k = 0; k < s && n > 1; ++k) {
		int i = c.t.below(n), j = c.t.below(n);
		if (i == j) { for (auto &x : m.a[i]) x = -x; continue; }
		if (c.t.chance(1, 4)) { std::swap(m.a[i], m.a[j]); continue; }
		I f = c.t.range(-4, 4); for (int x = 0; x < n; ++x) m.a[i][x] += f * m.a[j][x];
	}
	return m;
}
Mat mk(Case &c, const M &m)
{
	isl_mat *r = isl_mat_zero(c.ctx, m.r, m.c);
	for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j)
		if (m.a[i][j] != 0) r = m.a[i][j].fits_sint_p() && (i + j) % 2 ? isl_mat_set_element_si(r, i, j, m.a[i][j].get_si()) : isl_mat_set_element_val(r, i, j, mkval(c.ctx, m.a[i][j]));
	return R(c, r, "isl_mat_set_element_val");
}
M ex(Case &c, isl_mat *m, const char *op)
{
	if (!m) on_error(c, op);
	M r(N(c, isl_mat_rows(m), op), N(c, isl_mat_cols(m), op));
	for (int i = 0; i < r.r; ++i) for (int j = 0; j < r.c; ++j) r.a[i][j] = take_int(c, isl_mat_get_element_val(m, i, j));
	return r;
}
M take(Case &c, isl_mat *m, const char *op) { Mat h(m); return ex(c, m, op); }
Vec mkv(Case &c, const Row &v)
{
	isl_vec *r = c.t.chance(1, 2) ? isl_vec_zero(c.ctx, v.size()) : isl_vec_clr(isl_vec_alloc(c.ctx, v.size()));
	for (size_t i = 0; i < v.size(); ++i) r = v[i].fits_sint_p() && c.t.chance(1, 2) ? isl_vec_set_element_si(r, i, v[i].get_si()) : isl_vec_set_element_val(r, i, mkval(c.ctx, v[i]));
	return R(c, r, "isl_vec_set_element_val");
}
Row exv(Case &c, isl_vec *v, const char *op)
{
	if (!v) on_error(c, op);
	Row r(N(c, isl_vec_size(v), op));
	for (size_t i = 0; i < r.size(); ++i) r[i] = take_int(c, isl_vec_get_element_val(v, i));
	return r;
}
Row takev(Case &c, isl_vec *v, const char *op) { Vec h(v); return exv(c, v, op); }
I fdv(const I &a, const I &b) { I q; mpz_cdiv_q(q.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return q; }
I row_gcd(const Row &v) { I g = 0; for (auto &x : v) g = gcd(g, x); return g; }

void run_mat(Case &c)
{
	int r = c.t.below(6), cc = c.t.below(6);
	M a = gen_m(c, r, cc);
	Mat A = mk(c, a);
	std::string how = "A = " + str(a);
	auto want = [&](const char *op, isl_mat *m, const M &w, const std::string &h) { M g = take(c, m, op); if (!(g == w)) c.fail(op, "result " + str(g) + "\nexpected " + str(w) + "\n" + h); c.label(op); };
	auto no = [&](const char *op, const std::string &w) { c.fail(op, w + "\n" + how); };
	if (!(ex(c, A.g(), "e") == a)) c.fail("isl_mat_set_element_val", how);
	// the argument may be shared or exclusively owned
	bool shared = c.t.chance(1, 2);
	auto T = [&]() -> isl_mat * { return shared ? A.c() : mk(c, a).r(); };
	int k = c.t.below(34);
	int p = r ? c.t.below(r) : 0, p2 = r ? c.t.below(r) : 0, q = cc ? c.t.below(cc) : 0, q2 = cc ? c.t.below(cc) : 0;
	int ip = c.t.below(r + 1), iq = c.t.below(cc + 1), n = c.t.below(4);
	int dn = r ? c.t.below(r - p + 1) : 0, dq = cc ? c.t.below(cc - q + 1) : 0;
	how += "\nop " + std::to_string(k) + " p " + std::to_string(p) + " q " + std::to_string(q);
	switch (k) {
	case 0: case 1: case 2: {
		isl_mat *u = nullptr, *qm = nullptr;
		int neg = c.t.below(2), w = c.t.chance(1, 3) ? c.t.below(4) : 3;
		M h = take(c, isl_mat_left_hermite(T(), neg, w & 1 ? &u : nullptr, w & 2 ? &qm : nullptr), "isl_mat_left_hermite");
		M um, qq;
		if (w & 1) um = take(c, u, "U");
		if (w & 2) qq = take(c, qm, "Q");
		how += "\nneg " + std::to_string(neg) + "\nH = " + str(h) + "\nU = " + str(um) + "\nQ = " + str(qq);
		if (h.r != r || h.c != cc) no("isl_mat_left_hermite", "size of H");
		if (w & 1) { if (!(mul(a, um) == h)) no("isl_mat_left_hermite", "M U != H"); if (abs(det(um)) != 1) no("isl_mat_left_hermite", "U not unimodular"); }
		if (w & 2) { if (!(mul(h, qq) == a)) no("isl_mat_left_hermite", "M != H Q"); if (abs(det(qq)) != 1) no("isl_mat_left_hermite", "Q not unimodular"); }
		if (w == 3 && !(mul(um, qq) == ident(cc))) no("isl_mat_left_hermite", "U Q != I");
		int col = 0;
		for (int i = 0; i < r; ++i) {
			for (int j = col + 1; j < cc; ++j) if (h.a[i][j] != 0) no("isl_mat_left_hermite", "not in column echelon form");
			if (col < cc && h.a[i][col] != 0) {
				if (h.a[i][col] < 0) no("isl_mat_left_hermite", "negative pivot");
				for (int j = 0; j < col; ++j) { I x = h.a[i][j]; if (neg) x = -x; if (x < 0 || x >= h.a[i][col]) no("isl_mat_left_hermite", "off-diagonal entry out of range"); }
				++col;
			}
		}
		if (col != rank(a)) no("isl_mat_left_hermite", "number of echelon columns is not the rank");
		c.label("isl_mat_left_hermite");
		break; }
	case 3: { int g = N(c, isl_mat_rank(A.g()), "isl_mat_rank"); if (g != rank(a)) no("isl_mat_rank", "rank " + std::to_string(g)); c.label("isl_mat_rank"); break; }
	case 4: {
		M g = take(c, isl_mat_right_kernel(T()), "isl_mat_right_kernel");
		how += "\nK = " + str(g);
		if (g.r != cc || g.c != cc - rank(a)) no("isl_mat_right_kernel", "wrong size");
		M z = mul(a, g); if (!(z == M(r, g.c))) no("isl_mat_right_kernel", "A K != 0");
		M gt(g.c, g.r); for (int i = 0; i < g.r; ++i) for (int j = 0; j < g.c; ++j) gt.a[j][i] = g.a[i][j];
		if (rank(gt) != g.c) no("isl_mat_right_kernel", "columns are dependent");
		c.label("isl_mat_right_kernel");
		break; }
	case 5: {
		if (!r || r > cc || rank(a) != r) return;
		M g = take(c, isl_mat_right_inverse(T()), "isl_mat_right_inverse");
		how += "\ninv = " + str(g);
		if (g.r != cc) no("isl_mat_right_inverse", "size");
		M z = mul(a, g); I d = z.a[0][0];
		if (d <= 0) no("isl_mat_right_inverse", "scale");
		for (int i = 0; i < r; ++i) for (int j = 0; j < z.c; ++j) if (z.a[i][j] != (i == j ? d : I(0))) no("isl_mat_right_inverse", "A inv is not a multiple of the identity: " + str(z));
		c.label("isl_mat_right_inverse");
		break; }
	case 6: case 7: {
		int s = 1 + c.t.below(4);
		M l = c.t.chance(1, 2) ? gen_unimod(c, s) : gen_m(c, s, s);
		if (rank(l) != s) return;
		M b = gen_m(c, s, 1 + c.t.below(3));
		how = "L = " + str(l) + "\nB = " + str(b);
		M g;
		Mat L = mk(c, l), B_ = mk(c, b);
		if (k == 6) g = take(c, isl_mat_inverse_product(L.c(), B_.c()), "isl_mat_inverse_product");
		else { Row v; for (auto &x : b.a) v.push_back(x[0]); b = M(s, 1); for (int i = 0; i < s; ++i) b.a[i][0] = v[i];
			Row x = takev(c, isl_mat_vec_inverse_product(L.c(), mkv(c, v).r()), "isl_mat_vec_inverse_product"); g = M(x.size(), 1); for (size_t i = 0; i < x.size(); ++i) g.a[i][0] = x[i]; }
		if (!(ex(c, L.g(), "e") == l)) no("isl_mat_inverse_product", "changed a shared argument");
		how += "\nX = " + str(g);
		if (g.r != s || g.c != b.c) no("isl_mat_inverse_product", "size");
		M z = mul(l, g);
		// L X = d B for one positive d
		I d = 0; bool det1 = abs(det(l)) == 1;
		for (int i = 0; i < s; ++i) for (int j = 0; j < b.c; ++j) {
			if (b.a[i][j] == 0) { if (z.a[i][j] != 0) no("isl_mat_inverse_product", "not a solution"); continue; }
			if (z.a[i][j] % b.a[i][j] != 0) no("isl_mat_inverse_product", "not a solution");
			I e = z.a[i][j] / b.a[i][j]; if (d == 0) d = e; if (d != e || e <= 0) no("isl_mat_inverse_product", "not a multiple of the solution");
		}
		if (det1 && d != 0 && d != 1) no("isl_mat_inverse_product", "scaled although the matrix is unimodular");
		c.label("isl_mat_inverse_product");
		break; }
	case 8: { int s = 1 + c.t.below(5), h = c.t.below(s + 1);
		M u = gen_unimod(c, s), t = top(u, h);
		M full = u; for (int i = h; i < s; ++i) for (auto &x : full.a[i]) x = c.t.range(-3, 3);
		Mat F = mk(c, full);
		how = "rows " + str(t) + "\nfull " + str(full);
		M g = take(c, isl_mat_unimodular_complete(shared ? F.c() : mk(c, full).r(), h), "isl_mat_unimodular_complete");
		how += "\nresult " + str(g);
		if (g.r != s || g.c != s || !(top(g, h) == t)) no("isl_mat_unimodular_complete", "rows changed");
		if (abs(det(g)) != 1) no("isl_mat_unimodular_complete", "not unimodular");
		if (!(ex(c, F.g(), "e") == full)) no("isl_mat_unimodular_complete", "changed a shared argument");
		c.label("isl_mat_unimodular_complete");
		break; }
	case 9: {
		M g = take(c, isl_mat_row_basis(T()), "isl_mat_row_basis");
		how += "\nbasis " + str(g);
		if (g.c != cc || g.r != rank(a) || rank(g) != g.r || rank(stack(a, g)) != g.r) no("isl_mat_row_basis", "not a basis of the row space");
		c.label("isl_mat_row_basis");
		break; }
	case 10: case 11: {
		M b = gen_m(c, c.t.below(4), cc);
		if (c.t.chance(1, 3) && r) { for (auto &v : b.a) if (c.t.chance(1, 2)) v = a.a[c.t.below(r)]; }
		how += "\nB = " + str(b);
		Mat B_ = mk(c, b);
		int ra = rank(a), rb = rank(b), rab = rank(stack(a, b));
		if (k == 10) {
			if (B(c, isl_mat_has_linearly_independent_rows(A.g(), B_.g()), "isl_mat_has_linearly_independent_rows") != (rab == ra + rb)) no("isl_mat_has_linearly_independent_rows", "wrong answer");
			c.label("isl_mat_has_linearly_independent_rows");
		} else {
			M g = take(c, isl_mat_row_basis_extension(T(), B_.c()), "isl_mat_row_basis_extension");
			how += "\nextension " + str(g);
			if (g.r != rab - ra || g.c != cc) no("isl_mat_row_basis_extension", "wrong number of rows");
			if (rank(stack(a, g)) != rab || rank(stack(stack(a, b), g)) != rab) no("isl_mat_row_basis_extension", "does not extend to the joint row space");
			c.label("isl_mat_row_basis_extension");
		}
		break; }
	case 12: { M b = gen_m(c, cc, c.t.below(4)); want("isl_mat_product", isl_mat_product(T(), mk(c, b).r()), mul(a, b), how + "\nB = " + str(b)); break; }
	case 13: { M t(cc, r); for (int i = 0; i < r; ++i) for (int j = 0; j < cc; ++j) t.a[j][i] = a.a[i][j]; want("isl_mat_transpose", isl_mat_transpose(T()), t, how); break; }
	case 14: { Row v(cc); for (auto &x : v) x = gen_i(c, 1); M vm(cc, 1); for (int i = 0; i < cc; ++i) vm.a[i][0] = v[i];
		M w = mul(a, vm); Row g = takev(c, isl_mat_vec_product(T(), mkv(c, v).r()), "isl_mat_vec_product"); Row e; for (auto &x : w.a) e.push_back(x[0]); if (g != e) no("isl_mat_vec_product", str(g)); c.label("isl_mat_vec_product"); break; }
	case 15: { Row v(r); for (auto &x : v) x = gen_i(c, 1); M vm(1, r); vm.a[0] = v; M w = mul(vm, a); Row g = takev(c, isl_vec_mat_product(mkv(c, v).r(), T()), "isl_vec_mat_product"); if (g != w.a[0]) no("isl_vec_mat_product", str(g)); c.label("isl_vec_mat_product"); break; }
	case 16: { M b = gen_m(c, c.t.below(4), cc); want("isl_mat_concat", isl_mat_concat(T(), mk(c, b).r()), stack(a, b), how); break; }
	case 17: { M b(1, cc); for (auto &x : b.a[0]) x = gen_i(c, 1); want("isl_mat_vec_concat", isl_mat_vec_concat(T(), mkv(c, b.a[0]).r()), stack(a, b), how);
		want("isl_mat_from_row_vec", isl_mat_from_row_vec(mkv(c, b.a[0]).r()), b, how); break; }
	case 18: { M b = gen_m(c, c.t.below(4), c.t.below(4)), w(r + b.r, cc + b.c); for (int i = 0; i < r; ++i) for (int j = 0; j < cc; ++j) w.a[i][j] = a.a[i][j]; for (int i = 0; i < b.r; ++i) for (int j = 0; j < b.c; ++j) w.a[r + i][cc + j] = b.a[i][j];
		want("isl_mat_diagonal", isl_mat_diagonal(T(), mk(c, b).r()), w, how + "\nB = " + str(b)); break; }
	case 19: { if (r == 0 || cc == 0) return; M w = a; for (auto &v : w.a) std::swap(v[q], v[q2]); want("isl_mat_swap_cols", isl_mat_swap_cols(T(), q, q2), w, how + " q2 " + std::to_string(q2)); break; }
	case 20: { if (!r) return; M w = a; std::swap(w.a[p], w.a[p2]); want("isl_mat_swap_rows", isl_mat_swap_rows(T(), p, p2), w, how); break; }
	case 21: { M w = a; for (auto &v : w.a) v.erase(v.begin() + q, v.begin() + q + dq); w.c -= dq; want("isl_mat_drop_cols", isl_mat_drop_cols(T(), q, dq), w, how + " n " + std::to_string(dq)); break; }
	case 22: { M w = a; w.a.erase(w.a.begin() + p, w.a.begin() + p + dn); w.r -= dn; want("isl_mat_drop_rows", isl_mat_drop_rows(T(), p, dn), w, how + " n " + std::to_string(dn)); break; }
	case 23: { M w = a; for (auto &v : w.a) v.insert(v.begin() + iq, n, I(0)); w.c += n; want("isl_mat_insert_zero_cols", isl_mat_insert_zero_cols(T(), iq, n), w, how + " at " + std::to_string(iq) + " n " + std::to_string(n)); break; }
	case 24: { M w = a; w.a.insert(w.a.begin() + ip, n, Row(cc)); w.r += n; want("isl_mat_insert_zero_rows", isl_mat_insert_zero_rows(T(), ip, n), w, how + " at " + std::to_string(ip) + " n " + std::to_string(n)); break; }
	case 25: { M w = a; w.a.insert(w.a.end(), n, Row(cc)); w.r += n; want("isl_mat_add_zero_rows", isl_mat_add_zero_rows(T(), n), w, how); M w2 = a; for (auto &v : w2.a) v.resize(cc + n); w2.c += n; want("isl_mat_add_zero_cols", isl_mat_add_zero_cols(T(), n), w2, how); break; }
	case 26: { // rows/columns with unspecified contents: the others keep theirs
		M g = take(c, isl_mat_insert_cols(T(), iq, n), "isl_mat_insert_cols"); if (g.c != cc + n || g.r != r) no("isl_mat_insert_cols", "size");
		for (auto &v : g.a) v.erase(v.begin() + iq, v.begin() + iq + n); g.c -= n; if (!(g == a)) no("isl_mat_insert_cols", str(g));
		g = take(c, isl_mat_insert_rows(T(), ip, n), "isl_mat_insert_rows"); if (g.r != r + n) no("isl_mat_insert_rows", "size");
		g.a.erase(g.a.begin() + ip, g.a.begin() + ip + n); g.r -= n; if (!(g == a)) no("isl_mat_insert_rows", str(g));
		g = take(c, isl_mat_add_rows(T(), n), "isl_mat_add_rows"); if (g.r != r + n || !(top(g, r) == a)) no("isl_mat_add_rows", str(g));
		g = take(c, isl_mat_extend(T(), r + n, cc + n), "isl_mat_extend"); if (g.r < r || g.c < cc) no("isl_mat_extend", "size");
		for (int i = 0; i < r; ++i) for (int j = 0; j < cc; ++j) if (g.a[i][j] != a.a[i][j]) no("isl_mat_extend", str(g));
		c.label("insert/add/extend"); break; }
	case 27: { if (!cc) return; int mn = 1 + c.t.below(cc), src = c.t.below(cc - mn + 1), dst = c.t.below(cc - mn + 1);
		M w = a; for (auto &v : w.a) { Row m(v.begin() + src, v.begin() + src + mn); v.erase(v.begin() + src, v.begin() + src + mn); v.insert(v.begin() + dst, m.begin(), m.end()); }
		want("isl_mat_move_cols", isl_mat_move_cols(T(), dst, src, mn), w, how + " dst " + std::to_string(dst) + " src " + std::to_string(src) + " n " + std::to_string(mn)); break; }
	case 28: { M w = a; I g = 0; for (auto &v : a.a) g = gcd(g, row_gcd(v)); if (g != 0) for (auto &v : w.a) for (auto &x : v) x /= g; want("isl_mat_normalize", isl_mat_normalize(T()), w, how); break; }
	case 29: { if (!r) return; M w = a; I g = row_gcd(a.a[p]); if (g != 0) for (auto &x : w.a[p]) x /= g; want("isl_mat_normalize_row", isl_mat_normalize_row(T(), p), w, how); break; }
	case 30: { M w(r + 1, cc + 1); w.a[0][0] = 1; for (int i = 0; i < r; ++i) for (int j = 0; j < cc; ++j) w.a[1 + i][1 + j] = a.a[i][j]; want("isl_mat_lin_to_aff", isl_mat_lin_to_aff(T()), w, how); break; }
	case 31: { // affine maps x -> (M x + c)/d side by side
		if (r < 1 || cc < 1) return;
		M l = a, b = gen_m(c, r, 1 + c.t.below(3));
		for (auto m : {&l, &b}) { for (auto &x : m->a[0]) x = 0; m->a[0][0] = 1 + c.t.below(6); }
		how = "L = " + str(l) + "\nB = " + str(b);
		Mat L = mk(c, l), B_ = mk(c, b);
		M g = take(c, isl_mat_aff_direct_sum(L.c(), B_.c()), "isl_mat_aff_direct_sum");
		if (!(ex(c, L.g(), "e") == l) || !(ex(c, B_.g(), "e") == b)) no("isl_mat_aff_direct_sum", "changed a shared argument");
		how += "\nresult " + str(g);
		if (g.r != r || g.c != l.c + b.c - 1) no("isl_mat_aff_direct_sum", "size");
		for (int j = 1; j < g.c; ++j) if (g.a[0][j] != 0) no("isl_mat_aff_direct_sum", "first row");
		I d = g.a[0][0];
		if (d <= 0) no("isl_mat_aff_direct_sum", "denominator");
		for (int i = 1; i < r; ++i) {
			if (mpq_class(g.a[i][0]) * l.a[0][0] * b.a[0][0] != mpq_class(d) * (l.a[i][0] * b.a[0][0] + b.a[i][0] * l.a[0][0])) no("isl_mat_aff_direct_sum", "constant");
			for (int j = 1; j < l.c; ++j) if (g.a[i][j] * l.a[0][0] != d * l.a[i][j]) no("isl_mat_aff_direct_sum", "left part");
			for (int j = 1; j < b.c; ++j) if (g.a[i][l.c - 1 + j] * b.a[0][0] != d * b.a[i][j]) no("isl_mat_aff_direct_sum", "right part");
		}
		c.label("isl_mat_aff_direct_sum"); break; }
	case 32: { int e = 0; for (; e < cc; ++e) { bool z = true; for (auto &v : a.a) z = z && v[e] == 0; if (z) break; }
		if (isl_mat_initial_non_zero_cols(A.g()) != e) no("isl_mat_initial_non_zero_cols", "wrong");
		if (r && cc) { M w = a; for (int i = 0; i < r; ++i) w.a[i][q] += a.a[i][q2]; Mat X = mk(c, a); isl_mat_col_add(X.g(), q, q2); want("isl_mat_col_add", X.r(), w, how + " q2 " + std::to_string(q2)); }
		M b = c.t.chance(1, 2) ? a : gen_m(c, r, cc); Mat B_ = mk(c, b);
		if (B(c, isl_mat_is_equal(A.g(), B_.g()), "isl_mat_is_equal") != (a == b)) no("isl_mat_is_equal", str(b));
		if (a == b && isl_mat_get_hash(A.g()) != isl_mat_get_hash(B_.g())) no("isl_mat_get_hash", "equal matrices hash differently");
		break; }
	default: { // internal helpers
		M g = take(c, isl_mat_reverse_gauss(T()), "isl_mat_reverse_gauss");
		if (rank(g) != rank(a) || rank(stack(a, g)) != rank(a) || g.r != rank(a)) no("isl_mat_reverse_gauss", str(g));
		M w = a; for (auto &v : w.a) { int s = 0; for (auto &x : v) if (x != 0) { s = sgn(x); break; } if (s < 0) for (auto &x : v) x = -x; }
		want("isl_mat_lexnonneg_rows", isl_mat_lexnonneg_rows(T()), w, how);
		bool si = r == cc; if (si) for (int i = 0; i < r; ++i) for (int j = 0; j < r; ++j) if (a.a[i][j] != (i == j ? a.a[0][0] : I(0))) si = false;
		if (B(c, isl_mat_is_scaled_identity(A.g()), "isl_mat_is_scaled_identity") != si) no("isl_mat_is_scaled_identity", "wrong");
		if (r) { Row v = takev(c, isl_mat_get_row(A.g(), p), "isl_mat_get_row"); if (v != a.a[p]) no("isl_mat_get_row", str(v));
			M w2 = a; for (auto &x : w2.a[p]) x = -x; want("isl_mat_row_neg", isl_mat_row_neg(T(), p), w2, how);
			mpz_class gz; isl_mat_row_gcd(A.g(), p, (mpz_t *)gz.get_mpz_t()); if (gz != row_gcd(a.a[p])) no("isl_mat_row_gcd", gz.get_str()); }
		if (r && cc) { M w2 = a; for (auto &v : w2.a) v[q] = -v[q]; want("isl_mat_col_neg", isl_mat_col_neg(T(), q), w2, how); }
		break; }
	}
	if (!(ex(c, A.g(), "e") == a)) c.fail("shared", "a held matrix was changed by operation " + how + "\nnow " + str(ex(c, A.g(), "e")));
	c.nontrivial = r > 0 && cc > 0;
}

void run_vec(Case &c)
{
	int n = c.t.below(7);
	Row a(n), b(n);
	int mag = c.t.weighted({4, 3, 1});
	for (auto &x : a) x = c.t.chance(1, 4) ? I(0) : gen_i(c, mag);
	for (auto &x : b) x = gen_i(c, mag);
	Vec A = mkv(c, a), B_ = mkv(c, b);
	bool shared = c.t.chance(1, 2);
	auto T = [&]() -> isl_vec * { return shared ? A.c() : mkv(c, a).r(); };
	std::string how = "a = " + str(a) + "\nb = " + str(b) + (shared ? "\n(shared)" : "");
	auto want = [&](const char *op, isl_vec *v, const Row &w, const std::string &h = "") { Row g = takev(c, v, op); if (g != w) c.fail(op, "result " + str(g) + "\nexpected " + str(w) + "\n" + how + h); c.label(op);
		if (exv(c, A.g(), "e") != a) c.fail(op, "changed a shared vector\n" + how); };
	int p = n ? c.t.below(n) : 0, ip = c.t.below(n + 1), d = n ? c.t.below(n - p + 1) : 0, m = c.t.below(4);
	switch (c.t.below(16)) {
	case 0: { Row w = a; for (auto &x : w) x = -x; want("isl_vec_neg", isl_vec_neg(T()), w); break; }
	case 1: { Row w = a; for (int i = 0; i < n; ++i) w[i] += b[i]; want("isl_vec_add", isl_vec_add(T(), B_.c()), w); break; }
	case 2: { Row w = a; I g = row_gcd(a); if (g != 0) for (auto &x : w) x /= g; want("isl_vec_normalize", isl_vec_normalize(T()), w); break; }
	case 3: { Row w = a; std::sort(w.begin(), w.end()); want("isl_vec_sort", isl_vec_sort(T()), w); break; }
	case 4: { Row w = a; w.insert(w.end(), b.begin(), b.end()); want("isl_vec_concat", isl_vec_concat(T(), B_.c()), w); break; }
	case 5: { Row w = a; w.erase(w.begin() + p, w.begin() + p + d); want("isl_vec_drop_els", isl_vec_drop_els(T(), p, d), w, " p " + std::to_string(p) + " n " + std::to_string(d)); break; }
	case 6: { Row w = a; w.insert(w.begin() + ip, m, I(0)); want("isl_vec_insert_zero_els", isl_vec_insert_zero_els(T(), ip, m), w); break; }
	case 7: { if (!n) return; int mn = 1 + c.t.below(n), src = c.t.below(n - mn + 1), dst = c.t.below(n - mn + 1);
		Row w = a, x(w.begin() + src, w.begin() + src + mn); w.erase(w.begin() + src, w.begin() + src + mn); w.insert(w.begin() + dst, x.begin(), x.end());
		want("isl_vec_move_els", isl_vec_move_els(T(), dst, src, mn), w, " dst " + std::to_string(dst) + " src " + std::to_string(src) + " n " + std::to_string(mn)); break; }
	case 8: { if (!n) return; Row v = a; if (v[0] <= 0) v[0] = 1 + abs(v[0]); Row w = v; for (int i = 1; i < n; ++i) w[i] = fdv(v[i], v[0]); w[0] = 1; Vec V = mkv(c, v);
		Row g = takev(c, isl_vec_ceil(V.c()), "isl_vec_ceil"); if (g != w) c.fail("isl_vec_ceil", str(g) + "\n" + str(v)); if (exv(c, V.g(), "e") != v) c.fail("isl_vec_ceil", "changed a shared vector"); c.label("isl_vec_ceil"); break; }
	case 9: { int v = c.t.range(-5, 5); want("isl_vec_set_si", isl_vec_set_si(T(), v), Row(n, I(v))); want("isl_vec_clr", isl_vec_clr(T()), Row(n)); break; }
	case 10: { I v = gen_i(c, 2); want("isl_vec_set_val", isl_vec_set_val(T(), mkval(c.ctx, v)), Row(n, v)); break; }
	case 11: { Row w = a; w.resize(n + m); want("isl_vec_zero_extend", isl_vec_zero_extend(T(), n + m), w); break; }
	case 12: { Row g = takev(c, isl_vec_extend(T(), n + m), "isl_vec_extend"); if ((int)g.size() != n + m) c.fail("isl_vec_extend", "size"); g.resize(n); if (g != a) c.fail("isl_vec_extend", str(g) + how);
		g = takev(c, isl_vec_add_els(T(), m), "isl_vec_add_els"); if ((int)g.size() != n + m) c.fail("isl_vec_add_els", "size"); g.resize(n); if (g != a) c.fail("isl_vec_add_els", str(g) + how);
		g = takev(c, isl_vec_insert_els(T(), ip, m), "isl_vec_insert_els"); g.erase(g.begin() + ip, g.begin() + ip + m); if (g != a) c.fail("isl_vec_insert_els", str(g) + how);
		c.label("extend/add/insert"); break; }
	case 13: { if (!n) return; int s = isl_vec_cmp_element(A.g(), B_.g(), p); if ((s > 0) - (s < 0) != cmp(a[p], b[p]) / std::max(1, std::abs(cmp(a[p], b[p])))) c.fail("isl_vec_cmp_element", how + std::to_string(p)); c.label("isl_vec_cmp_element"); break; }
	case 14: { Row e = c.t.chance(1, 2) ? a : b; Vec E = mkv(c, e); if (B(c, isl_vec_is_equal(A.g(), E.g()), "isl_vec_is_equal") != (a == e)) c.fail("isl_vec_is_equal", how);
		if (a == e && isl_vec_get_hash(A.g()) != isl_vec_get_hash(E.g())) c.fail("isl_vec_get_hash", how);
		bool z = true; for (auto &x : a) z = z && x == 0; if (B(c, isl_vec_is_zero(A.g()), "isl_vec_is_zero") != z) c.fail("isl_vec_is_zero", how);
		c.label("isl_vec_is_equal"); break; }
	default: { bool nz = n > 0; I l = 1; for (auto &x : a) { if (x == 0) nz = false; else l = lcm(l, x); } if (!nz) return; mpz_class g; isl_vec_lcm(A.g(), (mpz_t *)g.get_mpz_t()); if (abs(g) != l) c.fail("isl_vec_lcm", g.get_str() + "\n" + how); c.label("isl_vec_lcm"); break; }
	}
	if (exv(c, A.g(), "e") != a || exv(c, B_.g(), "e") != b) c.fail("shared", "a held vector was changed\n" + how);
	c.nontrivial = n > 0;
}
void run(Case &c) { if (c.t.chance(1, 4)) run_vec(c); else run_mat(c); }
}
Prop vp::the_prop = {"C17", "Integer matrices 0x0..5x5 (small, medium, 100-bit entries, sparse, with dependent rows; unimodular) and vectors; each result is checked against its defining equation with GMP (products, determinants, ranks over the rationals); arguments are shared or exclusive and held copies are re-read; non-trivial: non-empty matrix/vector.", run, 400000, 20000000};
