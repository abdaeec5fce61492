#include "islx.h"
#include <isl/stream.h>
#include <cstdlib>

namespace vp {

void on_error(Case &c, const char *op)
{
	enum isl_error e = isl_ctx_last_error(c.ctx);
	if (e == isl_error_quota) c.discard("quota");
	const char *m = isl_ctx_last_error_msg(c.ctx);
	const char *f = isl_ctx_last_error_file(c.ctx);
	c.fail("error:" + std::string(op), std::string("unexpected error from ") + op + ": " + (m ? m : "(none)") +
		" at " + (f ? f : "?") + ":" + std::to_string(isl_ctx_last_error_line(c.ctx)));
}
void clear_error(Case &c) { isl_ctx_reset_error(c.ctx); }

// values are missing when the limit on the number of operations is reached
static void need(isl_val *v) { if (!v) on_error(*cur_case, "get value"); }
mpz_class val_num(isl_val *v) { need(v); mpz_class z; isl_val_get_num_gmp(v, z.get_mpz_t()); return z; }
mpz_class val_den(isl_val *v) { need(v); mpz_class z; isl_val_get_den_gmp(v, z.get_mpz_t()); return z; }
mpz_class take_int(Case &c, isl_val *v)
{
	if (!v) on_error(c, "get value");
	if (isl_val_is_int(v) != isl_bool_true) {
		std::string s = S(v);
		isl_val_free(v);
		c.fail("not-integer", "expected an integer value, got " + s);
	}
	mpz_class z = val_num(v);
	isl_val_free(v);
	return z;
}
mpq_class take_rat(Case &c, isl_val *v)
{
	if (!v) on_error(c, "get value");
	if (isl_val_is_rat(v) != isl_bool_true) {
		std::string s = S(v);
		isl_val_free(v);
		c.fail("not-rational", "expected a rational value, got " + s);
	}
	mpq_class q(val_num(v), val_den(v));
	isl_val_free(v);
	q.canonicalize();
	return q;
}
isl_val *mkval(isl_ctx *ctx, const mpz_class &z)
{
	mpz_class t = z;
	return isl_val_int_from_gmp(ctx, t.get_mpz_t());
}
isl_val *mkrat(isl_ctx *ctx, const mpq_class &q) { return isl_val_from_gmp(ctx, q.get_num_mpz_t(), q.get_den_mpz_t()); }

static std::vector<ZRow> rows(Case &c, isl_mat *m)
{
	if (!m) on_error(c, "constraint matrix");
	int nr = isl_mat_rows(m), nc = isl_mat_cols(m);
	std::vector<ZRow> o(nr, ZRow(nc));
	for (int i = 0; i < nr; ++i)
		for (int j = 0; j < nc; ++j) {
			isl_val *v = isl_mat_get_element_val(m, i, j);
			if (!v) { isl_mat_free(m); on_error(c, "isl_mat_get_element_val"); }
			if (isl_val_is_zero(v) != isl_bool_true) o[i][j] = val_num(v);
			isl_val_free(v);
		}
	isl_mat_free(m);
	return o;
}

MBasic extract_bset(Case &c, isl_basic_set *b)
{
	MBasic m;
	if (!b) on_error(c, "extract");
	int np = N(c, isl_basic_set_dim(b, isl_dim_param), "dim");
	int ns = N(c, isl_basic_set_dim(b, isl_dim_set), "dim");
	int nd = N(c, isl_basic_set_dim(b, isl_dim_div), "dim");
	m.nvar = np + ns;
	m.eq = rows(c, isl_basic_set_equalities_matrix(b, isl_dim_cst, isl_dim_param, isl_dim_set, isl_dim_div));
	m.ineq = rows(c, isl_basic_set_inequalities_matrix(b, isl_dim_cst, isl_dim_param, isl_dim_set, isl_dim_div));
	m.divs.resize(nd);
	std::vector<isl_aff *> affs(nd, nullptr);
	std::vector<int> known;
	isl_local_space *ls = isl_basic_set_get_local_space(b);
	for (int i = 0; i < nd; ++i) {
		affs[i] = isl_local_space_get_div(ls, i);
		if (!affs[i]) {
			if (isl_ctx_last_error(c.ctx) != isl_error_invalid) {
				for (int j = 0; j < i; ++j) isl_aff_free(affs[j]);
				isl_local_space_free(ls);
				on_error(c, "isl_local_space_get_div");
			}
			clear_error(c);
		} else known.push_back(i);
	}
	isl_local_space_free(ls);
	try {
	for (int i = 0; i < nd; ++i) {
		if (!affs[i]) continue;
		isl_aff *a = affs[i];
		MDiv &d = m.divs[i];
		d.known = true;
		d.num.assign(1 + m.nvar + nd, 0);
		isl_val *den = isl_aff_get_denominator_val(a);
		d.den = val_num(den);
		isl_val_free(den);
		auto coef = [&](isl_val *v) {
			// rational with denominator dividing d.den
			mpz_class z = val_num(v) * (d.den / val_den(v));
			isl_val_free(v);
			return z;
		};
		d.num[0] = coef(isl_aff_get_constant_val(a));
		for (int j = 0; j < np; ++j) d.num[1 + j] = coef(isl_aff_get_coefficient_val(a, isl_dim_param, j));
		for (int j = 0; j < ns; ++j) d.num[1 + np + j] = coef(isl_aff_get_coefficient_val(a, isl_dim_in, j));
		int ad = isl_aff_dim(a, isl_dim_div);
		for (int j = 0; j < ad; ++j) {
			mpz_class z = coef(isl_aff_get_coefficient_val(a, isl_dim_div, j));
			if (z == 0) continue;
			int k = ad == (int)known.size() ? known[j] : -1;
			if (k < 0) {
				// divs in terms of unknown divs appear in the local space
				// of the expression as well
				isl_aff *dj = isl_aff_get_div(a, j);
				for (int x : known) if (affs[x] && isl_aff_plain_is_equal(dj, affs[x]) == isl_bool_true) { k = x; break; }
				isl_aff_free(dj);
			}
			if (k < 0) c.discard("extract: nested div");
			d.num[1 + m.nvar + k] = z;
		}
	}
	} catch (...) {
		for (auto a : affs) isl_aff_free(a);
		throw;
	}
	for (auto a : affs) isl_aff_free(a);
	return m;
}
MBasic extract_bmap(Case &c, isl_basic_map *bmap)
{
	BSet w = R(c, isl_basic_map_wrap(isl_basic_map_copy(bmap)), "isl_basic_map_wrap");
	return extract_bset(c, w.g());
}
MMap extract(Case &c, isl_basic_set *b)
{
	MMap m(isl_basic_set_dim(b, isl_dim_param), 0, isl_basic_set_dim(b, isl_dim_set));
	m.d.push_back(extract_bset(c, b));
	return m;
}
MMap extract(Case &c, isl_basic_map *b)
{
	MMap m(isl_basic_map_dim(b, isl_dim_param), isl_basic_map_dim(b, isl_dim_in), isl_basic_map_dim(b, isl_dim_out));
	m.d.push_back(extract_bmap(c, b));
	return m;
}
MMap extract(Case &c, isl_set *s)
{
	if (!s) on_error(c, "extract");
	int np = N(c, isl_set_dim(s, isl_dim_param), "isl_set_dim");
	int ns = 0;
	if (isl_set_is_params(s) != isl_bool_true) ns = N(c, isl_set_dim(s, isl_dim_set), "isl_set_dim");
	MMap m(np, 0, ns);
	isl_basic_set_list *l = isl_set_get_basic_set_list(s);
	if (!l) on_error(c, "isl_set_get_basic_set_list");
	H<isl_basic_set_list> hl(l);
	int n = isl_basic_set_list_size(l);
	for (int i = 0; i < n; ++i) {
		BSet b(isl_basic_set_list_get_at(l, i));
		m.d.push_back(extract_bset(c, b.g()));
	}
	return m;
}
MMap extract(Case &c, isl_map *p)
{
	if (!p) on_error(c, "extract");
	MMap m(N(c, isl_map_dim(p, isl_dim_param), "dim"), N(c, isl_map_dim(p, isl_dim_in), "dim"), N(c, isl_map_dim(p, isl_dim_out), "dim"));
	isl_basic_map_list *l = isl_map_get_basic_map_list(p);
	if (!l) on_error(c, "isl_map_get_basic_map_list");
	H<isl_basic_map_list> hl(l);
	int n = isl_basic_map_list_size(l);
	for (int i = 0; i < n; ++i) {
		BMap b(isl_basic_map_list_get_at(l, i));
		m.d.push_back(extract_bmap(c, b.g()));
	}
	return m;
}

std::string take_str(char *s) { std::string o = s ? s : "(null)"; free(s); return o; }
// printing must not be cut off by the operation limit
template <class T, class F> static std::string prt(T *p, F f, isl_ctx *ctx)
{
	if (!p) return "(null)";
	unsigned long m = isl_ctx_get_max_operations(ctx);
	isl_ctx_set_max_operations(ctx, 0);
	std::string s = take_str(f(p));
	isl_ctx_set_max_operations(ctx, m);
	return s;
}
#define VP_S(T) std::string S(T *p) { return p ? prt(p, T##_to_str, T##_get_ctx(p)) : "(null)"; }
#define VP_SP(T, E) static char *T##_str_(T *p) { isl_printer *q = isl_printer_to_str(T##_get_ctx(p)); q = isl_printer_print_##E(q, p); char *s = isl_printer_get_str(q); isl_printer_free(q); return s; } \
	std::string S(T *p) { return p ? prt(p, T##_str_, T##_get_ctx(p)) : "(null)"; }
VP_SP(isl_pw_qpolynomial_fold, pw_qpolynomial_fold) VP_SP(isl_union_pw_qpolynomial_fold, union_pw_qpolynomial_fold)
VP_S(isl_set) VP_S(isl_map) VP_S(isl_basic_set) VP_S(isl_basic_map) VP_S(isl_union_set) VP_S(isl_union_map)
VP_S(isl_space) VP_S(isl_aff) VP_S(isl_pw_aff) VP_S(isl_multi_aff) VP_S(isl_pw_multi_aff) VP_S(isl_multi_pw_aff)
VP_S(isl_val) VP_S(isl_point)
VP_S(isl_union_pw_aff) VP_S(isl_union_pw_multi_aff) VP_S(isl_multi_union_pw_aff) VP_S(isl_pw_qpolynomial)
VP_S(isl_union_pw_qpolynomial) VP_S(isl_multi_val) VP_S(isl_id) VP_S(isl_multi_id)

Pt point_of(Case &c, isl_point *p, int np, int ns)
{
	Pt o;
	for (int i = 0; i < np; ++i) {
		mpz_class z = take_int(c, isl_point_get_coordinate_val(p, isl_dim_param, i));
		if (!z.fits_slong_p()) c.discard("huge point");
		o.push_back(z.get_si());
	}
	for (int i = 0; i < ns; ++i) {
		mpz_class z = take_int(c, isl_point_get_coordinate_val(p, isl_dim_set, i));
		if (!z.fits_slong_p()) c.discard("huge point");
		o.push_back(z.get_si());
	}
	return o;
}

} // namespace vp
