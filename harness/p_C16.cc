// C16: values follow exact extended rational arithmetic.
#include "fn.h"
#include <cmath>
#include <cstring>
#include <climits>
using namespace vp;

namespace {
struct X { enum K { RAT, INF, NINF, NAN_ } k = RAT; mpq_class q; };
X rat(mpq_class q) { q.canonicalize(); X x; x.q = q; return x; }
X sp(X::K k) { X x; x.k = k; return x; }
bool isr(const X &x) { return x.k == X::RAT; }
bool isn(const X &x) { return x.k == X::NAN_; }
bool isi(const X &x) { return isr(x) && x.q.get_den() == 1; }
bool isinf_(const X &x) { return x.k == X::INF || x.k == X::NINF; }
int sg(const X &x) { return x.k == X::INF ? 1 : x.k == X::NINF ? -1 : sgn(x.q); }
bool same(const X &a, const X &b) { return a.k == b.k && (a.k != X::RAT || a.q == b.q); }
std::string txt(const X &x) { return x.k == X::NAN_ ? "NaN" : x.k == X::INF ? "infty" : x.k == X::NINF ? "-infty" : x.q.get_str(); }
X inf_of(int s) { return sp(s > 0 ? X::INF : X::NINF); }
X neg(const X &a) { if (isr(a)) return rat(-a.q); if (isn(a)) return a; return inf_of(-sg(a)); }
X add(const X &a, const X &b)
{
	if (isn(a) || isn(b)) return sp(X::NAN_);
	if (isinf_(a) && isinf_(b)) return a.k == b.k ? a : sp(X::NAN_);
	if (isinf_(a)) return a;
	if (isinf_(b)) return b;
	return rat(a.q + b.q);
}
X mul(const X &a, const X &b)
{
	if (isn(a) || isn(b)) return sp(X::NAN_);
	if (isinf_(a) || isinf_(b)) { int s = sg(a) * sg(b); return s ? inf_of(s) : sp(X::NAN_); }
	return rat(a.q * b.q);
}
X divx(const X &a, const X &b)
{
	if (isn(a) || isn(b) || (isr(b) && b.q == 0) || (isinf_(a) && isinf_(b))) return sp(X::NAN_);
	if (isinf_(b)) return rat(0);
	if (isinf_(a)) return inf_of(sg(a) * sg(b));
	return rat(a.q / b.q);
}
X inv(const X &a) { return divx(rat(1), a); }
mpz_class fl(const mpq_class &q) { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
mpz_class ce(const mpq_class &q) { mpz_class r; mpz_cdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
mpz_class tr(const mpq_class &q) { mpz_class r; mpz_tdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
// -1, 0, 1; NaN operands are not compared
int cmpx(const X &a, const X &b)
{
	if (isr(a) && isr(b)) return a.q < b.q ? -1 : a.q > b.q;
	auto r = [](const X &x) { return x.k == X::INF ? 1 : x.k == X::NINF ? -1 : 0; };
	return r(a) < r(b) ? -1 : r(a) > r(b);
}

struct V { Val v; X x; };
mpz_class gen_int(Case &c)
{
	switch (c.t.weighted({6, 4, 3, 3, 2})) {
	case 0: return c.t.range(-3, 3);
	case 1: return c.t.range(-60, 60);
	case 2: {  // near machine word boundaries
		static const int sh[] = {31, 32, 62, 63, 64, 65, 96, 128};
		mpz_class z = 1; z <<= sh[c.t.below(8)]; z += c.t.range(-2, 2); return c.t.chance(1, 2) ? -z : z; }
	case 3: {  // products of small primes: many common factors
		static const int pr[] = {2, 3, 5, 7, 2, 3};
		mpz_class z = 1; int n = c.t.below(12); for (int i = 0; i < n; ++i) z *= pr[c.t.below(6)]; return c.t.chance(1, 2) ? -z : z; }
	default: { mpz_class z = 0; int n = 1 + c.t.below(8); for (int i = 0; i < n; ++i) { z <<= 32; z += (unsigned long)c.t.below(1ULL << 32); } return c.t.chance(1, 2) ? -z : z; }
	}
}
void verify(Case &c, const std::string &op, isl_val *v, const X &want, const std::string &how)
{
	if (!v) { on_error(c, op.c_str()); }
	X got;
	if (isl_val_is_nan(v) == isl_bool_true) got.k = X::NAN_;
	else if (isl_val_is_infty(v) == isl_bool_true) got.k = X::INF;
	else if (isl_val_is_neginfty(v) == isl_bool_true) got.k = X::NINF;
	else {
		mpz_class n = val_num(v), d = val_den(v);
		if (d <= 0) c.fail(op, "denominator " + d.get_str() + "\n" + how);
		if (gcd(n, d) != 1) c.fail(op, "not in lowest terms: " + n.get_str() + "/" + d.get_str() + "\n" + how);
		got = rat(mpq_class(n, d));
	}
	if (!same(got, want)) c.fail(op, "result " + txt(got) + " expected " + txt(want) + "\n" + how);
}
V gen_val(Case &c)
{
	V r;
	switch (c.t.weighted({8, 6, 1, 1, 1, 2, 2, 2, 1})) {
	case 0: { mpz_class z = gen_int(c); r.x = rat(z); r.v = Val(mkval(c.ctx, z)); break; }
	case 1: { mpz_class n = gen_int(c), d = gen_int(c); if (d == 0) d = 7; mpq_class q(n, d); 
		r.v = Val(isl_val_from_gmp(c.ctx, n.get_mpz_t(), d.get_mpz_t())); r.x = rat(q); break; }
	case 2: r.x = sp(X::NAN_); r.v = Val(isl_val_nan(c.ctx)); break;
	case 3: r.x = sp(X::INF); r.v = Val(isl_val_infty(c.ctx)); break;
	case 4: r.x = sp(X::NINF); r.v = Val(isl_val_neginfty(c.ctx)); break;
	case 5: { long l = c.t.chance(1, 2) ? c.t.range(-5, 5) : c.t.chance(1, 2) ? (c.t.chance(1, 2) ? LONG_MAX : LONG_MIN) : (long)c.t.below(1ULL << 62); r.x = rat(mpz_class(l)); r.v = Val(isl_val_int_from_si(c.ctx, l)); break; }
	case 6: { unsigned long l = c.t.chance(1, 2) ? ULONG_MAX - c.t.below(3) : c.t.below(1ULL << 62); r.x = rat(mpz_class(l)); r.v = Val(isl_val_int_from_ui(c.ctx, l)); break; }
	case 7: { static const int szs[] = {1, 2, 4, 8};
		int sz = szs[c.t.below(4)], n = c.t.below(6);
		std::vector<unsigned char> b(sz * n + 1);
		for (int i = 0; i < sz * n; ++i) b[i] = c.t.below(4) ? c.t.below(256) : 0;
		mpz_class z; for (int i = sz * n - 1; i >= 0; --i) { z <<= 8; z += b[i]; }
		r.x = rat(z); r.v = Val(isl_val_int_from_chunks(c.ctx, n, sz, b.data()));
		verify(c, "isl_val_int_from_chunks", r.v.g(), r.x, "n " + std::to_string(n) + " size " + std::to_string(sz));
		break; }
	default: { int k = c.t.below(3); r.x = rat(k == 0 ? 0 : k == 1 ? 1 : -1); r.v = Val(k == 0 ? isl_val_zero(c.ctx) : k == 1 ? isl_val_one(c.ctx) : isl_val_negone(c.ctx)); break; }
	}
	verify(c, "construct", r.v.g(), r.x, "");
	return r;
}

std::string read_txt(const X &x) { return txt(x); }

void run_scalar(Case &c)
{
	std::vector<V> pool;
	int n0 = 2 + c.t.below(4);
	for (int i = 0; i < n0; ++i) pool.push_back(gen_val(c));
	int steps = 4 + c.t.below(14);
	for (int s = 0; s < steps; ++s) {
		V &a = pool[c.t.below(pool.size())], &b = pool[c.t.below(pool.size())];
		std::string how = "a = " + txt(a.x) + "\nb = " + txt(b.x);
		X x = a.x, y = b.x, res;
		auto T = [&]() { return a.v.c(); };
		auto U = [&]() { return b.v.c(); };
		isl_val *r = nullptr;
		std::string op;
		size_t bits = mpz_sizeinbase(x.q.get_num_mpz_t(), 2) + mpz_sizeinbase(x.q.get_den_mpz_t(), 2) + mpz_sizeinbase(y.q.get_num_mpz_t(), 2) + mpz_sizeinbase(y.q.get_den_mpz_t(), 2);
		int k = c.t.below(28);
		unsigned long ui = c.t.chance(1, 3) ? ULONG_MAX - c.t.below(2) : c.t.below(30);
		if (bits > 3000 && (k == 1 || k == 2 || k == 3 || k == 9)) k = 0;
		switch (k) {
		case 0: op = "isl_val_add"; r = isl_val_add(T(), U()); res = add(x, y); break;
		case 1: op = "isl_val_sub"; r = isl_val_sub(T(), U()); res = add(x, neg(y)); break;
		case 2: op = "isl_val_mul"; r = isl_val_mul(T(), U()); res = mul(x, y); break;
		case 3: op = "isl_val_div"; r = isl_val_div(T(), U()); res = divx(x, y); break;
		case 4: op = "isl_val_neg"; r = isl_val_neg(T()); res = neg(x); break;
		case 5: op = "isl_val_abs"; r = isl_val_abs(T()); res = isn(x) ? x : isr(x) ? rat(abs(x.q)) : sp(X::INF); break;
		case 6: op = "isl_val_inv"; r = isl_val_inv(T()); res = inv(x); break;
		case 7: op = "isl_val_floor"; r = isl_val_floor(T()); res = isr(x) ? rat(fl(x.q)) : x; break;
		case 8: op = "isl_val_ceil"; r = isl_val_ceil(T()); res = isr(x) ? rat(ce(x.q)) : x; break;
		case 9: op = "isl_val_trunc"; r = isl_val_trunc(T()); res = isr(x) ? rat(tr(x.q)) : x; break;
		case 10: op = "isl_val_min"; r = isl_val_min(T(), U()); res = isn(x) || isn(y) ? sp(X::NAN_) : cmpx(x, y) <= 0 ? x : y; break;
		case 11: op = "isl_val_max"; r = isl_val_max(T(), U()); res = isn(x) || isn(y) ? sp(X::NAN_) : cmpx(x, y) >= 0 ? x : y; break;
		case 12: op = "isl_val_add_ui"; how += "\nui = " + std::to_string(ui); r = isl_val_add_ui(T(), ui); res = add(x, rat(mpz_class(ui))); break;
		case 13: op = "isl_val_sub_ui"; how += "\nui = " + std::to_string(ui); r = isl_val_sub_ui(T(), ui); res = add(x, rat(-mpq_class(mpz_class(ui)))); break;
		case 14: op = "isl_val_mul_ui"; how += "\nui = " + std::to_string(ui); r = isl_val_mul_ui(T(), ui); res = mul(x, rat(mpz_class(ui))); break;
		case 15: op = "isl_val_div_ui"; how += "\nui = " + std::to_string(ui); r = isl_val_div_ui(T(), ui); res = divx(x, rat(mpz_class(ui))); break;
		case 16: { op = "isl_val_pow2"; int e = c.t.range(-130, 130); how = "e = " + std::to_string(e);
			mpz_class p = 1; p <<= std::abs(e); res = rat(e >= 0 ? mpq_class(p) : mpq_class(mpz_class(1), p));
			isl_val *v = isl_val_int_from_si(c.ctx, e);
			if (c.t.chance(1, 2)) { isl_val *w = isl_val_copy(v); r = isl_val_pow2(v); verify(c, op + " (shared argument)", w, rat(mpz_class(e)), how); isl_val_free(w); }
			else r = c.t.chance(1, 2) ? isl_val_pow2(v) : isl_val_2exp(v); break; }
		case 17: if (!isi(x) || !isi(y) || y.q == 0) continue;
			op = "isl_val_mod"; r = isl_val_mod(T(), U()); res = rat(x.q - y.q * mpq_class(fl(x.q / y.q))); break;
		case 18: if (!isi(x) || !isi(y)) continue;
			op = "isl_val_gcd"; r = isl_val_gcd(T(), U()); res = rat(gcd(x.q.get_num(), y.q.get_num())); break;
		case 19: { if (!isi(x) || !isi(y)) continue;
			op = "isl_val_gcdext"; isl_val *p, *q; int w = c.t.below(4);
			r = isl_val_gcdext(T(), U(), w & 1 ? nullptr : &p, w & 2 ? nullptr : &q); res = rat(gcd(x.q.get_num(), y.q.get_num()));
			if (r) {
				mpz_class pz, qz;
				if (!(w & 1)) pz = take_int(c, p);
				if (!(w & 2)) qz = take_int(c, q);
				if (w == 0 && pz * x.q.get_num() + qz * y.q.get_num() != res.q.get_num()) { isl_val_free(r); c.fail(op, "x*a + y*b is not the gcd: x = " + pz.get_str() + " y = " + qz.get_str() + "\n" + how); }
			}
			break; }
		case 20: { long l = c.t.chance(1, 3) ? LONG_MIN : c.t.range(-9, 9); op = "isl_val_set_si"; r = isl_val_set_si(T(), l); res = rat(mpz_class(l)); break; }
		case 21: { if (!isr(x)) continue; op = "isl_val_get_den_val"; r = isl_val_get_den_val(a.v.g()); res = rat(x.q.get_den()); break; }
		case 22: { op = "isl_val_read_from_str"; std::string t = txt(x); how = t; r = isl_val_read_from_str(c.ctx, t.c_str()); res = x;
			std::string t2 = take_str(isl_val_to_str(a.v.g())); if (t2 != t) { isl_val_free(r); c.fail("isl_val_to_str", "printed " + t2 + " value " + t); } break; }
		case 23: { // chunks
			if (!isr(x)) continue;
			static const int szs[] = {1, 2, 4, 8};
			int sz = szs[c.t.below(4)];
			mpz_class z = abs(x.q.get_num());
			int want = z == 0 ? -1 : (mpz_sizeinbase(z.get_mpz_t(), 256) + sz - 1) / sz;
			int n = N(c, isl_val_n_abs_num_chunks(a.v.g(), sz), "isl_val_n_abs_num_chunks");
			if (want >= 0 ? n != want : n > 1) c.fail("isl_val_n_abs_num_chunks", "size " + std::to_string(sz) + " result " + std::to_string(n) + " expected " + std::to_string(want) + "\n" + how);
			std::vector<unsigned char> buf(n * sz + 8, 0xAA);
			if (isl_val_get_abs_num_chunks(a.v.g(), sz, buf.data()) != isl_stat_ok) on_error(c, "isl_val_get_abs_num_chunks");
			mpz_class g; for (int i = n * sz - 1; i >= 0; --i) { g <<= 8; g += buf[i]; }
			if (g != z) c.fail("isl_val_get_abs_num_chunks", "size " + std::to_string(sz) + " got " + g.get_str() + "\n" + how);
			for (int i = 0; i < 8; ++i) if (buf[n * sz + i] != 0xAA) c.fail("isl_val_get_abs_num_chunks", "wrote past the end\n" + how);
			c.label("chunks"); continue; }
		case 24: { // conversions
			if (!isr(x)) continue;
			mpz_class nz = x.q.get_num(), dz = x.q.get_den();
			if (nz.fits_slong_p() && isl_val_get_num_si(a.v.g()) != nz.get_si()) c.fail("isl_val_get_num_si", how);
			if (dz.fits_slong_p() && isl_val_get_den_si(a.v.g()) != dz.get_si()) c.fail("isl_val_get_den_si", how);
			mpz_class g; isl_val_get_num_gmp(a.v.g(), g.get_mpz_t()); if (g != nz) c.fail("isl_val_get_num_gmp", how);
			isl_val_get_den_gmp(a.v.g(), g.get_mpz_t()); if (g != dz) c.fail("isl_val_get_den_gmp", how);
			if (mpz_sizeinbase(nz.get_mpz_t(), 2) < 1000 && mpz_sizeinbase(dz.get_mpz_t(), 2) < 1000) {
				double d = isl_val_get_d(a.v.g()), e = x.q.get_d();
				if (std::fabs(d - e) > 1e-12 * std::fabs(e)) c.fail("isl_val_get_d", "got " + std::to_string(d) + "\n" + how);
			}
			c.label("get"); continue; }
		case 25: { // unary predicates
			isl_val *v = a.v.g();
			struct { const char *n; isl_bool r; int want; } t[] = {
				{"is_int", isl_val_is_int(v), isi(x)}, {"is_rat", isl_val_is_rat(v), isr(x)}, {"is_nan", isl_val_is_nan(v), isn(x)},
				{"is_infty", isl_val_is_infty(v), x.k == X::INF}, {"is_neginfty", isl_val_is_neginfty(v), x.k == X::NINF},
				{"is_zero", isl_val_is_zero(v), isr(x) && x.q == 0}, {"is_one", isl_val_is_one(v), isr(x) && x.q == 1}, {"is_negone", isl_val_is_negone(v), isr(x) && x.q == -1},
				{"is_nonneg", isl_val_is_nonneg(v), isn(x) ? -1 : sg(x) >= 0}, {"is_nonpos", isl_val_is_nonpos(v), isn(x) ? -1 : sg(x) <= 0},
				{"is_pos", isl_val_is_pos(v), isn(x) ? -1 : sg(x) > 0}, {"is_neg", isl_val_is_neg(v), isn(x) ? -1 : sg(x) < 0} };
			for (auto &e : t) { if (e.r == isl_bool_error) on_error(c, e.n); if (e.want >= 0 && (e.r == isl_bool_true) != (bool)e.want) c.fail(std::string("isl_val_") + e.n, how); }
			if (!isn(x) && isl_val_sgn(v) != sg(x)) c.fail("isl_val_sgn", how);
			c.label("unary predicates"); continue; }
		case 26: { // comparisons
			isl_val *v = a.v.g(), *w = b.v.g();
			bool nn = isn(x) || isn(y); int cm = nn ? 0 : cmpx(x, y);
			bool ae = !nn && (isr(x) && isr(y) ? abs(x.q) == abs(y.q) : isinf_(x) && isinf_(y));
			struct { const char *n; isl_bool r; bool want; } t[] = {
				{"lt", isl_val_lt(v, w), !nn && cm < 0}, {"le", isl_val_le(v, w), !nn && cm <= 0}, {"gt", isl_val_gt(v, w), !nn && cm > 0},
				{"ge", isl_val_ge(v, w), !nn && cm >= 0}, {"eq", isl_val_eq(v, w), !nn && cm == 0}, {"ne", isl_val_ne(v, w), !nn && cm != 0}, {"abs_eq", isl_val_abs_eq(v, w), ae} };
			for (auto &e : t) { if (e.r == isl_bool_error) on_error(c, e.n); if ((e.r == isl_bool_true) != e.want) c.fail(std::string("isl_val_") + e.n, how); }
			if (!nn && cm == 0 && isl_val_get_hash(v) != isl_val_get_hash(w)) c.fail("isl_val_get_hash", "equal values hash differently\n" + how);
			c.label("comparisons"); continue; }
		default: { // comparison with machine integers, divisibility
			static const long sv[] = {0, 1, -1, 2, -3, LONG_MAX, LONG_MIN, 1L << 32};
			long l = sv[c.t.below(8)];
			if (isi(x) && x.q.get_num().fits_slong_p() && c.t.chance(1, 2)) l = x.q.get_num().get_si();
			X z = rat(mpz_class(l));
			int cm = isn(x) ? 0 : cmpx(x, z);
			how += "\nsi = " + std::to_string(l);
			if (B(c, isl_val_gt_si(a.v.g(), l), "isl_val_gt_si") != (!isn(x) && cm > 0)) c.fail("isl_val_gt_si", how);
			if (B(c, isl_val_eq_si(a.v.g(), l), "isl_val_eq_si") != (!isn(x) && cm == 0)) c.fail("isl_val_eq_si", how);
			int g = isl_val_cmp_si(a.v.g(), l);
			if (!isn(x) && (g < 0 ? -1 : g > 0) != cm) c.fail("isl_val_cmp_si", how);
			if (isi(x) && isi(y)) {
				bool d = y.q == 0 ? x.q == 0 : mpz_divisible_p(x.q.get_num_mpz_t(), y.q.get_num_mpz_t());
				if (B(c, isl_val_is_divisible_by(a.v.g(), b.v.g()), "isl_val_is_divisible_by") != d) c.fail("isl_val_is_divisible_by", how);
			}
			c.label("machine integers"); continue; }
		}
		c.label(op);
		V nv; nv.v = Val(r);
		verify(c, op, r, res, how);
		verify(c, op + " (kept copy)", a.v.g(), x, how);
		verify(c, op + " (kept copy)", b.v.g(), y, how);
		nv.x = res;
		if (isn(res) || isinf_(res)) c.label("special result");
		c.nontrivial = true;
		if (pool.size() < 8) pool.push_back(std::move(nv)); else pool[c.t.below(pool.size())] = std::move(nv);
	}
}

// multi values: component-wise
void run_multi(Case &c)
{
	Sp sp_ = gen_set_space(c, 2, 3, true);
	int n = sp_.no();
	auto mk = [&](std::vector<X> &xs) {
		isl_multi_val *m = isl_multi_val_zero(mk_space(c, sp_));
		for (int i = 0; i < n; ++i) { V v = gen_val(c); xs.push_back(v.x); m = isl_multi_val_set_at(m, i, v.v.r()); }
		return H<isl_multi_val>(m);
	};
	std::vector<X> xa, xb;
	H<isl_multi_val> a = mk(xa), b = mk(xb);
	auto chk = [&](const char *op, isl_multi_val *r, std::function<X(int)> want) {
		H<isl_multi_val> h(r);
		if (!r) on_error(c, op);
		std::string how; for (int i = 0; i < n; ++i) how += txt(xa[i]) + ", " + txt(xb[i]) + "; ";
		if (isl_multi_val_size(r) != n) c.fail(op, "size\n" + how);
		for (int i = 0; i < n; ++i) { Val v(isl_multi_val_get_at(r, i)); verify(c, op, v.g(), want(i), "component " + std::to_string(i) + "\n" + how); }
		Space s1(isl_multi_val_get_space(r)), s2(mk_space(c, sp_));
		if (!B(c, isl_space_is_equal(s1.g(), s2.g()), "eq")) c.fail(op, "space changed\n" + S(s1.g()));
		c.label(op); c.nontrivial = true;
	};
	V v = gen_val(c);
	bool all_rat = true, vr = isr(v.x);
	for (int i = 0; i < n; ++i) all_rat = all_rat && isr(xa[i]) && isr(xb[i]);
	chk("isl_multi_val_neg", isl_multi_val_neg(a.c()), [&](int i) { return neg(xa[i]); });
	chk("isl_multi_val_add", isl_multi_val_add(a.c(), b.c()), [&](int i) { return add(xa[i], xb[i]); });
	chk("isl_multi_val_sub", isl_multi_val_sub(a.c(), b.c()), [&](int i) { return add(xa[i], neg(xb[i])); });
	chk("isl_multi_val_min", isl_multi_val_min(a.c(), b.c()), [&](int i) { return isn(xa[i]) || isn(xb[i]) ? sp(X::NAN_) : cmpx(xa[i], xb[i]) <= 0 ? xa[i] : xb[i]; });
	chk("isl_multi_val_max", isl_multi_val_max(a.c(), b.c()), [&](int i) { return isn(xa[i]) || isn(xb[i]) ? sp(X::NAN_) : cmpx(xa[i], xb[i]) >= 0 ? xa[i] : xb[i]; });
	chk("isl_multi_val_add_val", isl_multi_val_add_val(a.c(), v.v.c()), [&](int i) { return add(xa[i], v.x); });
	if (vr) chk("isl_multi_val_scale_val", isl_multi_val_scale_val(a.c(), v.v.c()), [&](int i) { return mul(xa[i], v.x); });
	if (vr && v.x.q != 0) chk("isl_multi_val_scale_down_val", isl_multi_val_scale_down_val(a.c(), v.v.c()), [&](int i) { return divx(xa[i], v.x); });
	if (all_rat) {
		chk("isl_multi_val_scale_multi_val", isl_multi_val_scale_multi_val(a.c(), b.c()), [&](int i) { return mul(xa[i], xb[i]); });
		bool nz = true, ii = true; for (auto &x : xb) { nz = nz && x.q != 0; ii = ii && isi(x); } for (auto &x : xa) ii = ii && isi(x);
		if (nz) chk("isl_multi_val_scale_down_multi_val", isl_multi_val_scale_down_multi_val(a.c(), b.c()), [&](int i) { return divx(xa[i], xb[i]); });
		if (nz && ii) chk("isl_multi_val_mod_multi_val", isl_multi_val_mod_multi_val(a.c(), b.c()), [&](int i) { return rat(xa[i].q - xb[i].q * mpq_class(fl(xa[i].q / xb[i].q))); });
	}
	bool z = true, nan = false; for (auto &x : xa) { z = z && isr(x) && x.q == 0; nan = nan || isn(x); }
	if (B(c, isl_multi_val_is_zero(a.g()), "isl_multi_val_is_zero") != z) c.fail("isl_multi_val_is_zero", "");
	if (B(c, isl_multi_val_involves_nan(a.g()), "isl_multi_val_involves_nan") != nan) c.fail("isl_multi_val_involves_nan", "");
	bool eq = !nan; for (int i = 0; i < n; ++i) eq = eq && !isn(xb[i]) && same(xa[i], xb[i]);
	if (B(c, isl_multi_val_plain_is_equal(a.g(), b.g()), "isl_multi_val_plain_is_equal") != eq) c.fail("isl_multi_val_plain_is_equal", "");
}
void run(Case &c) { if (c.t.chance(1, 8)) run_multi(c); else run_scalar(c); }
}
Prop vp::the_prop = {"C16", "Pools of integers (word boundaries, common factors, hundreds of bits), rationals, infinities and NaN; random operation sequences, each result compared with GMP rational arithmetic extended with infinities/NaN; non-trivial: at least one operation produced a value that was checked.", run, 400000, 20000000};
