#include "model.h"
#include "core.h"
#include <sstream>
#include <algorithm>

namespace vp {

static int cmpabs(const mpz_class &a, const mpz_class &b) { return mpz_cmpabs(a.get_mpz_t(), b.get_mpz_t()); }

mpz_class fdiv(const mpz_class &a, const mpz_class &b) { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
mpz_class cdiv(const mpz_class &a, const mpz_class &b) { mpz_class r; mpz_cdiv_q(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }

static bool small_row(const ZRow &r, std::vector<int64_t> &o)
{
	o.resize(r.size());
	for (size_t i = 0; i < r.size(); ++i) {
		if (!r[i].fits_slong_p()) return false;
		long v = r[i].get_si();
		if (v > (1L << 40) || v < -(1L << 40)) return false;
		o[i] = v;
	}
	return true;
}

void MBasic::compile() const
{
	all_known = true;
	for (auto &d : divs) if (!d.known) all_known = false;
	compiled = 2;
	if (divs.size() > 6) return;
	seq.resize(eq.size()); sineq.resize(ineq.size()); sdiv.resize(divs.size()); sden.resize(divs.size());
	for (size_t i = 0; i < eq.size(); ++i) if (!small_row(eq[i], seq[i])) return;
	for (size_t i = 0; i < ineq.size(); ++i) if (!small_row(ineq[i], sineq[i])) return;
	for (size_t i = 0; i < divs.size(); ++i) {
		if (!divs[i].known) continue;
		if (!small_row(divs[i].num, sdiv[i])) return;
		if (!divs[i].den.fits_slong_p() || divs[i].den > (1L << 40)) return;
		sden[i] = divs[i].den.get_si();
	}
	compiled = 1;
}

typedef __int128 i128;
static i128 dot(const std::vector<int64_t> &r, const i128 *x, int n)
{
	i128 s = r[0];
	for (int i = 0; i < n; ++i) if (r[1 + i]) s += (i128)r[1 + i] * x[i];
	return s;
}
static mpz_class zdot(const ZRow &r, const std::vector<mpz_class> &x, int n)
{
	mpz_class s = r[0];
	for (int i = 0; i < n; ++i) if (r[1 + i] != 0) s += r[1 + i] * x[i];
	return s;
}
static const i128 LIM = (i128)1 << 75;

bool MBasic::has(const Pt &p) const
{
	if (!compiled) compile();
	int nd = (int)divs.size();
	if (compiled == 1 && all_known) {
		i128 x[64];
		bool ok = nvar + nd <= 64;
		for (int i = 0; ok && i < nvar; ++i) x[i] = p[i];
		// quick reject on rows without divs first is not needed
		for (int i = 0; ok && i < nd; ++i) {
			i128 v = dot(sdiv[i], x, nvar + i);
			i128 q = v / sden[i];
			if (v % sden[i] != 0 && v < 0) q--;
			if (q > LIM || q < -LIM) { ok = false; break; }
			x[nvar + i] = q;
		}
		if (ok) {
			for (auto &r : seq) if (dot(r, x, nvar + nd) != 0) return false;
			for (auto &r : sineq) if (dot(r, x, nvar + nd) < 0) return false;
			return true;
		}
	}
	std::vector<mpz_class> x(nvar + nd);
	for (int i = 0; i < nvar; ++i) x[i] = Z(p[i]);
	std::vector<int> unk;
	for (int i = 0; i < nd; ++i) {
		if (!divs[i].known) { unk.push_back(i); continue; }
		x[nvar + i] = fdiv(zdot(divs[i].num, x, nvar + nd), divs[i].den);
	}
	if (unk.empty()) {
		for (auto &r : eq) if (zdot(r, x, nvar + nd) != 0) return false;
		for (auto &r : ineq) if (zdot(r, x, nvar + nd) < 0) return false;
		return true;
	}
	// known divs that depend on unknown ones are treated through constraints
	std::vector<ZRow> e, q;
	auto red = [&](const ZRow &r) {
		ZRow o(1 + unk.size());
		std::vector<mpz_class> y = x;
		for (int u : unk) y[nvar + u] = 0;
		o[0] = zdot(r, y, nvar + nd);
		for (size_t k = 0; k < unk.size(); ++k) o[1 + k] = r[1 + nvar + unk[k]];
		return o;
	};
	for (auto &r : eq) e.push_back(red(r));
	for (auto &r : ineq) q.push_back(red(r));
	return omega_sat((int)unk.size(), e, q);
}

// ------------------------------------------------------------------ Omega test
static bool norm_ineq(ZRow &r, bool &contradiction)
{
	// returns false if trivial
	mpz_class g = 0;
	for (size_t i = 1; i < r.size(); ++i) if (r[i] != 0) mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), r[i].get_mpz_t());
	if (g == 0) { if (r[0] < 0) contradiction = true; return false; }
	if (g != 1) {
		for (size_t i = 1; i < r.size(); ++i) if (r[i] != 0) r[i] /= g;
		r[0] = fdiv(r[0], g);
	}
	return true;
}

static thread_local long omega_budget;
thread_local long omega_work;   // per case, reset by the driver

static bool omega_rec(int n, std::vector<ZRow> eq, std::vector<ZRow> iq)
{
	if (--omega_budget < 0) throw DiscardEx{"omega budget"};
	omega_work += 1 + (long)iq.size() * (n + 4);
	if (omega_work > 30000000) throw DiscardEx{"omega work"};
	// equalities
	while (!eq.empty()) {
		ZRow r = eq.back(); eq.pop_back();
		mpz_class g = 0;
		for (int i = 1; i <= n; ++i) if (r[i] != 0) mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), r[i].get_mpz_t());
		if (g == 0) { if (r[0] != 0) return false; continue; }
		if (r[0] % g != 0) return false;
		for (auto &v : r) v /= g;
		// column reduction until a single unit coefficient remains
		auto colop = [&](int dst, int src, const mpz_class &q) {
			// x_src := x_src' - q x_dst'  => coef_dst -= q*coef_src
			r[dst] -= q * r[src];
			for (auto &e : eq) if (e[src] != 0) e[dst] -= q * e[src];
			for (auto &e : iq) if (e[src] != 0) e[dst] -= q * e[src];
		};
		int k;
		for (;;) {
			k = -1;
			int cnt = 0;
			for (int i = 1; i <= n; ++i) if (r[i] != 0) { cnt++; if (k < 0 || cmpabs(r[i], r[k]) < 0) k = i; }
			if (cmpabs(r[k], mpz_class(1)) == 0) break;
			if (cnt == 1) break;
			for (int i = 1; i <= n; ++i) {
				if (i == k || r[i] == 0) continue;
				mpz_class q = fdiv(r[i], r[k]);
				colop(i, k, q);
			}
		}
		// r[k] = +-1: x_k = -sign*(rest)
		mpz_class s = r[k];
		auto subst = [&](ZRow &e) {
			if (e[k] == 0) return;
			mpz_class c = e[k] * s;     // e - c*r eliminates since s*s = 1
			for (int i = 0; i <= n; ++i) if (r[i] != 0) e[i] -= c * r[i];
			e[k] = 0;
		};
		for (auto &e : eq) subst(e);
		for (auto &e : iq) subst(e);
	}
	// inequalities
	for (;;) {
		std::vector<ZRow> nq;
		for (auto &r : iq) {
			bool c = false;
			if (norm_ineq(r, c)) nq.push_back(r);
			if (c) return false;
		}
		// drop duplicates / dominated parallel rows
		std::sort(nq.begin(), nq.end(), [](const ZRow &a, const ZRow &b) {
			for (size_t i = 1; i < a.size(); ++i) { int c = cmp(a[i], b[i]); if (c) return c < 0; }
			return a[0] < b[0]; });
		std::vector<ZRow> uq;
		for (auto &r : nq) {
			if (!uq.empty() && std::equal(r.begin() + 1, r.end(), uq.back().begin() + 1)) continue;
			uq.push_back(r);
		}
		iq.swap(uq);
		if (iq.empty()) return true;
		// choose a variable
		int best = -1; long bestcost = 0; bool bestexact = false;
		bool dropped = false;
		for (int v = 1; v <= n; ++v) {
			long lo = 0, up = 0; bool lo1 = true, up1 = true;
			for (auto &r : iq) {
				if (r[v] > 0) { lo++; if (r[v] != 1) lo1 = false; }
				else if (r[v] < 0) { up++; if (r[v] != -1) up1 = false; }
			}
			if (lo + up == 0) continue;
			if (lo == 0 || up == 0) {
				std::vector<ZRow> k;
				for (auto &r : iq) if (r[v] == 0) k.push_back(r);
				iq.swap(k);
				dropped = true;
				break;
			}
			bool exact = lo1 || up1;
			long cost = lo * up;
			if (best < 0 || (exact && !bestexact) || (exact == bestexact && cost < bestcost)) { best = v; bestcost = cost; bestexact = exact; }
		}
		if (dropped) continue;
		int v = best;
		std::vector<ZRow> L, U, O;
		for (auto &r : iq) { if (r[v] > 0) L.push_back(r); else if (r[v] < 0) U.push_back(r); else O.push_back(r); }
		if (O.size() + L.size() * U.size() > 4000) throw DiscardEx{"omega size"};
		std::vector<ZRow> real = O, dark = O;
		for (auto &l : L) for (auto &u : U) {
			mpz_class a = l[v], b = -u[v];
			ZRow c(n + 1);
			for (int i = 0; i <= n; ++i) c[i] = b * l[i] + a * u[i];
			c[v] = 0;
			real.push_back(c);
			c[0] -= (a - 1) * (b - 1);
			dark.push_back(c);
		}
		if (bestexact) { iq.swap(real); continue; }
		if (!omega_rec(n, {}, real)) return false;
		if (omega_rec(n, {}, dark)) return true;
		mpz_class bmax = 0;
		for (auto &u : U) if (-u[v] > bmax) bmax = -u[v];
		for (auto &l : L) {
			mpz_class a = l[v];
			mpz_class lim = fdiv(a * bmax - a - bmax, bmax);
			for (mpz_class i = 0; i <= lim; ++i) {
				ZRow e = l;
				e[0] -= i;
				if (omega_rec(n, {e}, iq)) return true;
			}
		}
		return false;
	}
}

bool omega_sat(int n, std::vector<ZRow> eq, std::vector<ZRow> ineq)
{
	omega_budget = 3000;
	return omega_rec(n, std::move(eq), std::move(ineq));
}

// ------------------------------------------------------------------ constructions
MBasic project(const MBasic &b, const std::vector<int> &ex)
{
	std::vector<bool> isx(b.nvar, false);
	for (int e : ex) isx[e] = true;
	int nd = (int)b.divs.size();
	MBasic o;
	o.nvar = b.nvar - (int)ex.size();
	std::vector<int> newpos(b.nvar + nd);
	int k = 0;
	for (int i = 0; i < b.nvar; ++i) if (!isx[i]) newpos[i] = k++;
	int base = o.nvar;
	for (size_t i = 0; i < ex.size(); ++i) newpos[ex[i]] = base + (int)i;
	for (int i = 0; i < nd; ++i) newpos[b.nvar + i] = base + (int)ex.size() + i;
	int w = 1 + b.nvar + nd;
	auto conv = [&](const ZRow &r) {
		ZRow q(w);
		q[0] = r[0];
		for (int i = 0; i < b.nvar + nd; ++i) q[1 + newpos[i]] = r[1 + i];
		return q;
	};
	for (size_t i = 0; i < ex.size(); ++i) o.divs.push_back(MDiv());
	for (auto &r : b.eq) o.eq.push_back(conv(r));
	for (auto &r : b.ineq) o.ineq.push_back(conv(r));
	std::vector<bool> unk(w - 1, false);
	for (int i = 0; i < (int)ex.size(); ++i) unk[base + i] = true;
	for (int i = 0; i < nd; ++i) {
		MDiv d;
		int pos = base + (int)ex.size() + i;
		if (b.divs[i].known) {
			ZRow q = conv(b.divs[i].num);
			bool dep = false;
			for (int j = 0; j < w - 1; ++j) if (unk[j] && q[1 + j] != 0) dep = true;
			if (dep) {
				// floor(q/den) = x : den x <= q <= den x + den - 1
				ZRow r1 = q, r2 = q;
				r1[1 + pos] -= b.divs[i].den;
				for (auto &v : r2) v = -v;
				r2[1 + pos] += b.divs[i].den;
				r2[0] += b.divs[i].den - 1;
				o.ineq.push_back(r1); o.ineq.push_back(r2);
				unk[pos] = true;
			} else { d.known = true; d.num = q; d.den = b.divs[i].den; }
		} else unk[pos] = true;
		o.divs.push_back(d);
	}
	return o;
}
MMap project_vars(const MMap &m, const std::vector<int> &ex, int np, int ni, int no)
{
	MMap o(np, ni, no);
	for (auto &b : m.d) o.d.push_back(project(b, ex));
	return o;
}
MBasic embed(const MBasic &b, int nv, const std::vector<int> &pos)
{
	MBasic o;
	int nd = (int)b.divs.size();
	o.nvar = nv;
	auto conv = [&](const ZRow &r) {
		ZRow q(1 + nv + nd);
		q[0] = r[0];
		for (int i = 0; i < b.nvar; ++i) q[1 + pos[i]] += r[1 + i];
		for (int i = 0; i < nd; ++i) q[1 + nv + i] = r[1 + b.nvar + i];
		return q;
	};
	for (auto &r : b.eq) o.eq.push_back(conv(r));
	for (auto &r : b.ineq) o.ineq.push_back(conv(r));
	for (auto &d : b.divs) { MDiv e; e.known = d.known; if (d.known) { e.num = conv(d.num); e.den = d.den; } o.divs.push_back(e); }
	return o;
}
MBasic conj(const MBasic &a, const MBasic &b)
{
	MBasic o;
	o.nvar = a.nvar;
	int na = (int)a.divs.size(), nb = (int)b.divs.size();
	int w = 1 + a.nvar + na + nb;
	auto ca = [&](const ZRow &r) { ZRow q = r; q.resize(w); return q; };
	auto cb = [&](const ZRow &r) {
		ZRow q(w);
		for (int i = 0; i <= a.nvar; ++i) q[i] = r[i];
		for (int i = 0; i < nb; ++i) q[1 + a.nvar + na + i] = r[1 + a.nvar + i];
		return q;
	};
	for (auto &r : a.eq) o.eq.push_back(ca(r));
	for (auto &r : a.ineq) o.ineq.push_back(ca(r));
	for (auto &r : b.eq) o.eq.push_back(cb(r));
	for (auto &r : b.ineq) o.ineq.push_back(cb(r));
	for (auto &d : a.divs) { MDiv e = d; if (d.known) e.num = ca(d.num); o.divs.push_back(e); }
	for (auto &d : b.divs) { MDiv e = d; if (d.known) e.num = cb(d.num); o.divs.push_back(e); }
	return o;
}
MMap embed(const MMap &m, int np, int ni, int no, const std::vector<int> &pos)
{
	MMap o(np, ni, no);
	for (auto &b : m.d) o.d.push_back(embed(b, np + ni + no, pos));
	return o;
}
MMap conj(const MMap &a, const MMap &b)
{
	MMap o(a.np, a.ni, a.no);
	for (auto &x : a.d) for (auto &y : b.d) o.d.push_back(conj(x, y));
	return o;
}
MBasic fix(const MBasic &b, const std::vector<std::pair<int, int64_t>> &vals)
{
	MBasic o = b;
	o.compiled = 0;
	for (auto &p : vals) {
		ZRow r(o.width());
		r[0] = -Z(p.second);
		r[1 + p.first] = 1;
		o.eq.push_back(r);
	}
	return o;
}
bool sat(const MBasic &b)
{
	std::vector<int> all(b.nvar);
	for (int i = 0; i < b.nvar; ++i) all[i] = i;
	return project(b, all).has(Pt());
}

// ------------------------------------------------------------------ windows
Window make_window(int n, int budget, const Pt *center)
{
	Window w;
	w.n = n;
	if (n == 0) { w.pts.push_back(Pt()); return w; }
	int64_t side = 1;
	for (;;) {
		double tot = 1;
		for (int i = 0; i < n; ++i) tot *= side + 1;
		if (tot > budget || side >= 61) break;
		side++;
	}
	if (side >= 4 || n <= 4) {
		Pt lo(n), p(n);
		for (int i = 0; i < n; ++i) lo[i] = (center ? (*center)[i] : 0) - (side - 1) / 2;
		p = lo;
		for (;;) {
			w.pts.push_back(p);
			int i = n - 1;
			while (i >= 0 && ++p[i] >= lo[i] + side) { p[i] = lo[i]; i--; }
			if (i < 0) break;
		}
		return w;
	}
	uint64_t s = 12345;
	for (int k = 0; k < budget; ++k) {
		Pt p(n);
		for (int i = 0; i < n; ++i) { s = mix(s, i); p[i] = (int64_t)(s % 11) - 5 + (center ? (*center)[i] : 0); }
		w.pts.push_back(p);
	}
	return w;
}

std::string str(const Pt &p)
{
	std::string s = "(";
	for (size_t i = 0; i < p.size(); ++i) { if (i) s += ","; s += std::to_string(p[i]); }
	return s + ")";
}
static std::string srow(const ZRow &r)
{
	std::string s = "[";
	for (size_t i = 0; i < r.size(); ++i) { if (i) s += " "; s += r[i].get_str(); }
	return s + "]";
}
std::string str(const MMap &m)
{
	std::ostringstream o;
	o << "np=" << m.np << " ni=" << m.ni << " no=" << m.no << "\n";
	for (auto &b : m.d) {
		o << " basic: ";
		for (auto &d : b.divs) { if (d.known) o << "div floor(" << srow(d.num) << "/" << d.den.get_str() << ") "; else o << "div ? "; }
		for (auto &r : b.eq) o << srow(r) << "=0 ";
		for (auto &r : b.ineq) o << srow(r) << ">=0 ";
		o << "\n";
	}
	return o.str();
}

} // namespace vp
