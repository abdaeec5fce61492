#include "gen.h"
#include <array>
#include <algorithm>
#include <cstring>

namespace vp {

static const char *TN[] = {"", "A", "B", "S0", "T", "C"};
static const char *PN[] = {"n", "m", "p", "q"};

Tup mk_tup(const std::string &name, int n) { Tup t; t.name = name; t.n = n; return t; }
std::string tup_name(Case &c) { return TN[c.t.below(6)]; }

Tup gen_tup(Case &c, int maxd, bool nested)
{
	Tup t;
	if (nested && maxd >= 1 && c.t.chance(1, 2)) {
		t.name = tup_name(c);
		int a = c.t.below(maxd + 1);
		t.sub.push_back(gen_tup(c, a, c.t.chance(1, 3)));
		t.sub.push_back(gen_tup(c, maxd - t.sub[0].dim(), c.t.chance(1, 3)));
		return t;
	}
	t.name = tup_name(c);
	t.n = (int)c.t.below(maxd + 1);
	return t;
}
static void gen_params(Case &c, Sp &sp, int maxp)
{
	int np = maxp > 0 ? c.t.weighted({5, 4, maxp > 1 ? 2 : 0, maxp > 2 ? 1 : 0}) : 0;
	int first = c.t.below(3);
	for (int i = 0; i < np; ++i) sp.params.push_back(PN[(first + i) % 4]);
}
Sp gen_set_space(Case &c, int maxp, int maxd, bool nested)
{
	Sp sp;
	gen_params(c, sp, maxp);
	sp.out = gen_tup(c, maxd, nested);
	if (sp.out.dim() == 0 && c.t.chance(3, 4) && sp.out.sub.empty() && maxd > 0) sp.out.n = 1 + c.t.below(maxd);
	return sp;
}
Sp gen_map_space(Case &c, int maxp, int maxi, int maxo, bool nested)
{
	Sp sp;
	sp.is_map = true;
	gen_params(c, sp, maxp);
	sp.in = gen_tup(c, maxi, nested);
	sp.out = gen_tup(c, maxo, nested);
	if (sp.in.dim() == 0 && c.t.chance(3, 4) && sp.in.sub.empty() && maxi > 0) sp.in.n = 1 + c.t.below(maxi);
	if (sp.out.dim() == 0 && c.t.chance(3, 4) && sp.out.sub.empty() && maxo > 0) sp.out.n = 1 + c.t.below(maxo);
	return sp;
}

ZRow gen_row(Case &c, int nv, int coef, int cst)
{
	ZRow r(1 + nv);
	r[0] = c.t.range(-cst, cst);
	int nz = nv == 0 ? 0 : 1 + (int)c.t.below(std::min(nv, 3));
	for (int k = 0; k < nz; ++k) {
		int v = c.t.below(nv);
		int co = c.t.range(-coef, coef);
		if (co == 0) co = 1;
		r[1 + v] = co;
	}
	return r;
}

static MBasic gen_basic(Case &c, const Sp &sp, const GenOpt &o)
{
	int np = sp.np(), ns = sp.ni() + sp.no(), nv = np + ns;
	MBasic b;
	b.nvar = nv;
	auto widen = [&]() {
		for (auto &r : b.eq) r.resize(b.width());
		for (auto &r : b.ineq) r.resize(b.width());
		for (auto &d : b.divs) if (d.known) d.num.resize(b.width());
	};
	auto add = [&](ZRow r, bool eq) { r.resize(b.width()); (eq ? b.eq : b.ineq).push_back(r); };
	// box bounds
	for (int i = 0; i < ns; ++i) {
		int v = np + i;
		int how = o.bounded ? (int)c.t.below(3) : (int)c.t.weighted({4, 2, 1, 1, 1, 1});
		// 0: lo <= x <= lo+len  1: parametric/affine bounds 2: fixed-ish thin 3: lower only 4: upper only 5: none
		ZRow lo(1 + nv), up(1 + nv);
		int l = c.t.range(-o.box / 2, o.box / 2);
		int len = how == 2 ? (int)c.t.below(2) : (int)c.t.below(o.box + 1);
		lo[0] = -l; lo[1 + v] = 1;
		up[0] = l + len; up[1 + v] = -1;
		if (how == 1 && v > 0) {
			// bounds in terms of an earlier variable (keeps boundedness)
			int w = c.t.below(v);
			int s = c.t.range(-1, 1);
			int s2 = c.t.range(-1, 2);
			if (s2 == 2) s2 = s;
			lo[1 + w] -= s; up[1 + w] += s2;
		}
		if (how != 4 && how != 5) add(lo, false);
		if (how != 3 && how != 5) add(up, false);
	}
	if (o.only_box) return b;
	// parameter context
	for (int i = 0; i < np; ++i) {
		if (!c.t.chance(1, 3)) continue;
		ZRow r(1 + nv);
		r[1 + i] = c.t.chance(1, 3) ? -1 : 1;
		r[0] = c.t.range(-3, 3);
		add(r, false);
	}
	int extra = nv ? (int)c.t.below(o.extra + 1) : (c.t.chance(1, 6) ? 1 : 0);
	for (int k = 0; k < extra; ++k) {
		int kind = c.t.weighted({6, 2, o.allow_exist ? 2 : 0, o.allow_div ? 3 : 0, o.allow_div ? 2 : 0, o.allow_exist ? 1 : 0, o.allow_big ? 1 : 0, o.allow_div && nv ? 1 : 0});
		switch (kind) {
		case 0: add(gen_row(c, nv, o.coef, 6), false); break;
		case 1: add(gen_row(c, nv, o.coef, 4), true); break;
		case 2: { // stride through an existential: row = m e (+ slack)
			ZRow r = gen_row(c, nv, 2, 4);
			int m = 2 + c.t.below(4);
			bool eq = c.t.chance(3, 4);
			b.divs.push_back(MDiv());
			widen();
			r.resize(b.width());
			r[b.width() - 1] = -m;
			if (eq) add(r, true);
			else {
				// 0 <= row - m e <= s
				ZRow u = r;
				for (auto &x : u) x = -x;
				u[0] += (int)c.t.below(m);
				add(r, false); add(u, false);
			}
			break; }
		case 3: { // floor div used in an inequality or equality
			MDiv d; d.known = true;
			d.num = gen_row(c, (int)b.width() - 1, 2, 4);
			// no reference to unknown divs
			for (size_t j = 0; j < b.divs.size(); ++j) if (!b.divs[j].known) d.num[1 + nv + j] = 0;
			d.den = 2 + (int)c.t.below(4);
			b.divs.push_back(d);
			widen();
			ZRow r = gen_row(c, nv, o.coef, 5);
			r.resize(b.width());
			int co = c.t.range(-3, 3);
			r[b.width() - 1] = co ? co : 1;
			add(r, c.t.chance(1, 4));
			break; }
		case 4: { // modulo constraint: row mod m op k
			MDiv d; d.known = true;
			d.num = gen_row(c, nv, 2, 4);
			ZRow base = d.num;
			int m = 2 + c.t.below(4);
			d.num.resize(b.width());
			d.den = m;
			b.divs.push_back(d);
			widen();
			ZRow r = base;
			r.resize(b.width());
			r[b.width() - 1] = -m;
			r[0] -= (int)c.t.below(m);
			if (c.t.chance(1, 3)) { if (c.t.chance(1, 2)) for (auto &x : r) x = -x; add(r, false); }
			else add(r, true);
			break; }
		case 5: { // two-sided existential between two rows
			ZRow r1 = gen_row(c, nv, 2, 4), r2 = gen_row(c, nv, 2, 4);
			b.divs.push_back(MDiv());
			widen();
			r1.resize(b.width()); r2.resize(b.width());
			r1[b.width() - 1] = 1 + (int)c.t.below(3);
			r2[b.width() - 1] = -1 - (int)c.t.below(3);
			add(r1, false); add(r2, false);
			if (c.t.chance(1, 3)) { ZRow r3 = gen_row(c, nv, 2, 4); r3.resize(b.width()); r3[b.width() - 1] = c.t.range(-2, 2); add(r3, false); }
			break; }
		case 6: { // large coefficients
			ZRow r = gen_row(c, nv, 3, 5);
			mpz_class f = mpz_class(1) << (30 + 10 * c.t.below(6));
			int which = c.t.below(3);
			if (which == 0) { for (auto &x : r) x *= f; r[0] += c.t.range(-3, 3); }
			else if (which == 1) { if (nv) r[1 + c.t.below(nv)] += f; }
			else r[0] += f;
			add(r, false);
			break; }
		case 7: { // nested division: row op  k * floor((x + f * floor((y + a)/m1) + ...)/m2)
			MDiv d1; d1.known = true;
			d1.num.assign(b.width(), 0);
			d1.num[1 + c.t.below(nv)] = 1;
			d1.num[0] = (int)c.t.below(3);
			d1.den = 2 + (int)c.t.below(4);
			b.divs.push_back(d1);
			widen();
			MDiv d2; d2.known = true;
			d2.num.assign(b.width(), 0);
			d2.num[1 + c.t.below(nv)] += 1;
			d2.num[b.width() - 1] = c.t.chance(1, 3) ? -2 : 2;
			d2.den = 3 + 2 * (int)c.t.below(2);
			b.divs.push_back(d2);
			widen();
			ZRow r = gen_row(c, nv, 1, 5);
			r.resize(b.width());
			r[b.width() - 1] = c.t.chance(1, 2) ? 1 : -1;
			add(r, c.t.chance(1, 5));
			break; }
		}
	}
	return b;
}

// a disjunct related to an existing one (adjacent, split, overlapping, ...)
static std::vector<MBasic> vary(Case &c, const Sp &sp, const GenOpt &o, MBasic &prev)
{
	int nv = prev.nvar;
	int kind = c.t.below(7);
	MBasic b = prev;
	b.compiled = 0;
	if (kind == 6) { // modify one integer division
		std::vector<int> known;
		for (size_t i = 0; i < b.divs.size(); ++i) if (b.divs[i].known) known.push_back(i);
		if (!known.empty()) {
			MDiv &d = b.divs[known[c.t.below(known.size())]];
			if (c.t.chance(1, 2)) d.den += 1 + c.t.below(3);
			else d.num[0] += 1 + c.t.below(2);
			return {b};
		}
		kind = 0;
	}
	if (kind == 0 && nv) { // split prev by a hyperplane
		ZRow r = gen_row(c, nv, 2, 4);
		r.resize(b.width());
		ZRow n = r;
		for (auto &x : n) x = -x;
		n[0] -= 1;
		if (c.t.chance(1, 4)) n[0] += c.t.range(-2, 1);
		prev.ineq.push_back(r);
		b.ineq.push_back(n);
	} else if (kind == 1 && !b.ineq.empty()) { // shift one constraint
		size_t i = c.t.below(b.ineq.size());
		b.ineq[i][0] += c.t.range(-3, 3);
		if (c.t.chance(1, 2) && b.ineq.size() > 1) b.ineq[c.t.below(b.ineq.size())][0] += c.t.range(-3, 3);
	} else if (kind == 2 && !b.ineq.empty() && !o.bounded) { // drop one constraint
		b.ineq.erase(b.ineq.begin() + c.t.below(b.ineq.size()));
	} else if (kind == 3 && nv) { // slice: adjacent equality
		if (!b.ineq.empty()) {
			size_t i = c.t.below(b.ineq.size());
			ZRow r = b.ineq[i];
			r[0] += 1;                  // one step outside
			b.ineq.erase(b.ineq.begin() + i);
			b.eq.push_back(r);
		}
	} else if (kind == 4 && nv) { // translate along a variable
		int v = sp.np() < nv ? sp.np() + (int)c.t.below(nv - sp.np()) : 0;
		int s = c.t.range(-3, 3);
		auto sh = [&](ZRow &r) { r[0] -= r[1 + v] * s; };
		for (auto &r : b.eq) sh(r);
		for (auto &r : b.ineq) sh(r);
		for (auto &d : b.divs) if (d.known) sh(d.num);
	} else if (nv && o.allow_div) { // residue classes
		ZRow r = gen_row(c, nv, 1, 2);
		int m = 2 + c.t.below(2);
		auto cls = [&](MBasic &x, int k) {
			MDiv d; d.known = true; d.num = r; d.num.resize(x.width()); d.den = m;
			x.divs.push_back(d);
			for (auto &q : x.eq) q.resize(x.width());
			for (auto &q : x.ineq) q.resize(x.width());
			for (auto &q : x.divs) if (q.known) q.num.resize(x.width());
			ZRow e = r; e.resize(x.width()); e[x.width() - 1] = -m; e[0] -= k;
			x.eq.push_back(e);
		};
		int k1 = c.t.below(m), k2 = c.t.below(m);
		cls(prev, k1);
		cls(b, k2);
	}
	return {b};
}

MMap gen_mmap(Case &c, const Sp &sp, const GenOpt &o)
{
	MMap m(sp.np(), sp.ni(), sp.no());
	int nb = 1 + c.t.weighted({6, o.max_basic > 1 ? 4 : 0, o.max_basic > 2 ? 2 : 0, o.max_basic > 3 ? 1 : 0});
	if (o.allow_empty && c.t.chance(1, 40)) nb = 0;
	typedef std::vector<std::pair<std::array<int, 3>, MBasic>> Mem;
	if (!c.genmem) c.genmem = std::make_shared<Mem>();
	Mem &mem = *(Mem *)c.genmem.get();
	std::array<int, 3> key{sp.np(), sp.ni(), sp.no()};
	for (int i = 0; i < nb; ++i) {
		if (i == 0 && !o.only_box && !o.bounded && c.t.chance(1, 5)) {   // related to an earlier one
			std::vector<int> cand;
			for (size_t k = 0; k < mem.size(); ++k) if (mem[k].first == key) cand.push_back(k);
			if (!cand.empty()) {
				MBasic prev = mem[cand[c.t.below(cand.size())]].second;
				bool ok = o.allow_exist || [&] { for (auto &d : prev.divs) if (!d.known) return false; return true; }();
				ok = ok && (o.allow_div || prev.divs.empty());
				if (ok) { auto v = vary(c, sp, o, prev); for (auto &b : v) m.d.push_back(b); if (c.t.chance(1, 3)) m.d.push_back(prev); continue; }
			}
		}
		if (i > 0 && c.t.chance(1, 2)) {
			auto v = vary(c, sp, o, m.d[c.t.below(m.d.size())]);
			for (auto &b : v) m.d.push_back(b);
		} else m.d.push_back(gen_basic(c, sp, o));
	}
	for (auto &b : m.d) b.compiled = 0;
	if (!o.only_box && !o.bounded && mem.size() < 12) for (auto &b : m.d) mem.push_back({key, b});
	return m;
}

// ------------------------------------------------------------------ text
static void tup_text(const Tup &t, const std::vector<std::string> &names, int &pos, std::string &s)
{
	s += t.name + "[";
	if (!t.sub.empty()) {
		tup_text(t.sub[0], names, pos, s);
		s += " -> ";
		tup_text(t.sub[1], names, pos, s);
	} else
		for (int i = 0; i < t.n; ++i) { if (i) s += ", "; s += names[pos++]; }
	s += "]";
}
std::vector<std::string> var_names(const Sp &sp)
{
	std::vector<std::string> v = sp.params;
	for (int i = 0; i < sp.ni(); ++i) v.push_back("i" + std::to_string(i));
	for (int i = 0; i < sp.no(); ++i) v.push_back("o" + std::to_string(i));
	return v;
}
std::string row_text(const ZRow &r, const std::vector<std::string> &names)
{
	std::string s;
	for (size_t i = 1; i < r.size(); ++i) {
		if (r[i] == 0) continue;
		mpz_class a = abs(r[i]);
		if (s.empty()) { if (r[i] < 0) s += "-"; } else s += r[i] < 0 ? " - " : " + ";
		if (a != 1) s += a.get_str() + "*";
		s += names[i - 1];
	}
	if (s.empty()) return r[0].get_str();
	if (r[0] != 0) s += (r[0] < 0 ? " - " : " + ") + mpz_class(abs(r[0])).get_str();
	return s;
}
std::string sp_params(const Sp &sp)
{
	std::string s;
	if (sp.np()) {
		s += "[";
		for (int i = 0; i < sp.np(); ++i) { if (i) s += ", "; s += sp.params[i]; }
		s += "] -> ";
	}
	return s;
}
static std::string tuple_part(const Sp &sp)
{
	auto names = var_names(sp);
	int pos = sp.np();
	std::string s;
	if (sp.is_map) { tup_text(sp.in, names, pos, s); s += " -> "; }
	tup_text(sp.out, names, pos, s);
	return s;
}
std::string to_text(const MMap &m, const Sp &sp)
{
	std::string s = sp_params(sp) + "{ ";
	if (m.d.empty()) { s += tuple_part(sp) + " : 1 = 0 }"; return s; }
	for (size_t k = 0; k < m.d.size(); ++k) {
		const MBasic &b = m.d[k];
		if (k) s += "; ";
		s += tuple_part(sp);
		auto names = var_names(sp);
		std::string ex;
		for (size_t i = 0; i < b.divs.size(); ++i) {
			std::string nm = "e" + std::to_string(i);
			if (i) ex += ", ";
			ex += nm;
			if (b.divs[i].known) ex += " = floor((" + row_text(b.divs[i].num, names) + ")/" + b.divs[i].den.get_str() + ")";
			names.push_back(nm);
		}
		std::string cons;
		for (auto &r : b.eq) { if (!cons.empty()) cons += " and "; cons += row_text(r, names) + " = 0"; }
		for (auto &r : b.ineq) { if (!cons.empty()) cons += " and "; cons += row_text(r, names) + " >= 0"; }
		if (cons.empty() && !ex.empty()) cons = "0 = 0";
		if (!ex.empty()) s += " : exists (" + ex + " : " + cons + ")";
		else if (!cons.empty()) s += " : " + cons;
	}
	return s + " }";
}

// ------------------------------------------------------------------ building
static isl_space *tup_space(Case &c, const Tup &t, isl_space *params)
{
	// params is taken; returns a set space
	isl_space *s;
	if (!t.sub.empty()) {
		isl_space *a = tup_space(c, t.sub[0], isl_space_copy(params));
		isl_space *b = tup_space(c, t.sub[1], params);
		s = isl_space_wrap(isl_space_map_from_domain_and_range(a, b));
	} else {
		s = isl_space_set_from_params(params);
		s = isl_space_add_dims(s, isl_dim_set, t.n);
	}
	if (!t.name.empty()) s = isl_space_set_tuple_name(s, isl_dim_set, t.name.c_str());
	return s;
}
isl_space *mk_space(Case &c, const Sp &sp)
{
	isl_space *p = isl_space_params_alloc(c.ctx, sp.np());
	for (int i = 0; i < sp.np(); ++i) p = isl_space_set_dim_name(p, isl_dim_param, i, sp.params[i].c_str());
	isl_space *r = tup_space(c, sp.out, isl_space_copy(p));
	if (sp.is_map) {
		isl_space *d = tup_space(c, sp.in, p);
		return isl_space_map_from_domain_and_range(d, r);
	}
	isl_space_free(p);
	return r;
}

static isl_mat *mk_mat(Case &c, const std::vector<ZRow> &rows, int width)
{
	isl_mat *m = isl_mat_alloc(c.ctx, rows.size(), width);
	for (size_t i = 0; i < rows.size(); ++i)
		for (int j = 0; j < width; ++j)
			m = isl_mat_set_element_val(m, i, j, mkval(c.ctx, rows[i][j]));
	return m;
}
// matrices route: known divs become pairs of constraints
static isl_basic_set *from_mats(Case &c, const MBasic &b, isl_space *space)
{
	std::vector<ZRow> eq = b.eq, iq = b.ineq;
	for (size_t i = 0; i < b.divs.size(); ++i) {
		if (!b.divs[i].known) continue;
		ZRow r1 = b.divs[i].num, r2;
		r2 = r1;
		int pos = 1 + b.nvar + (int)i;
		r1[pos] -= b.divs[i].den;
		for (auto &x : r2) x = -x;
		r2[pos] += b.divs[i].den;
		r2[0] += b.divs[i].den - 1;
		iq.push_back(r1); iq.push_back(r2);
	}
	return isl_basic_set_from_constraint_matrices(space, mk_mat(c, eq, b.width()), mk_mat(c, iq, b.width()),
		isl_dim_cst, isl_dim_param, isl_dim_set, isl_dim_div);
}
// constraint route: no divs
static isl_basic_map *from_constraints(Case &c, const MBasic &b, const Sp &sp, isl_space *space)
{
	isl_basic_map *m = isl_basic_map_universe(isl_space_copy(space));
	isl_local_space *ls = isl_local_space_from_space(space);
	auto one = [&](const ZRow &r, bool eq) {
		isl_constraint *k = eq ? isl_constraint_alloc_equality(isl_local_space_copy(ls)) : isl_constraint_alloc_inequality(isl_local_space_copy(ls));
		k = isl_constraint_set_constant_val(k, mkval(c.ctx, r[0]));
		for (int i = 0; i < b.nvar; ++i) {
			if (r[1 + i] == 0) continue;
			int np = sp.np(), ni = sp.ni();
			if (i < np) k = isl_constraint_set_coefficient_val(k, isl_dim_param, i, mkval(c.ctx, r[1 + i]));
			else if (i < np + ni) k = isl_constraint_set_coefficient_val(k, isl_dim_in, i - np, mkval(c.ctx, r[1 + i]));
			else k = isl_constraint_set_coefficient_val(k, isl_dim_out, i - np - ni, mkval(c.ctx, r[1 + i]));
		}
		m = isl_basic_map_add_constraint(m, k);
	};
	for (auto &r : b.eq) one(r, true);
	for (auto &r : b.ineq) one(r, false);
	isl_local_space_free(ls);
	return m;
}

Map build_map(Case &c, const MMap &m, const Sp &sp)
{
	std::string txt = to_text(m, sp);
	int route = c.t.weighted({3, 1, 1});
	Map res;
	if (route == 0 || m.d.empty())
		res = R(c, isl_map_read_from_str(c.ctx, txt.c_str()), "isl_map_read_from_str");
	else {
		isl_space *space = mk_space(c, sp);
		isl_map *u = isl_map_empty(isl_space_copy(space));
		for (auto &b : m.d) {
			isl_basic_map *bm;
			if (route == 1 || !b.divs.empty())
				bm = isl_basic_set_unwrap(from_mats(c, b, isl_space_wrap(isl_space_copy(space))));
			else
				bm = from_constraints(c, b, sp, isl_space_copy(space));
			u = isl_map_union(u, isl_map_from_basic_map(bm));
		}
		isl_space_free(space);
		res = R(c, u, "build_map");
	}
	MMap got = extract(c, res.g());
	if (got.np != m.np || got.ni != m.ni || got.no != m.no)
		c.fail("construct-space", "map read with wrong dimensions: " + txt);
	Window w = make_window(m.nvar(), 600);
	same_on(c, w, "construct", [&](const Pt &p) { return got.has(p); }, [&](const Pt &p) { return m.has(p); },
		[&]() { return "input: " + txt + "\nobject: " + S(res) + " route " + std::to_string(route); });
	return res;
}
Set build_set(Case &c, const MMap &m, const Sp &sp)
{
	std::string txt = to_text(m, sp);
	int route = c.t.weighted({3, 1});
	Set res;
	if (route == 0 || m.d.empty())
		{ isl_set *raw = isl_set_read_from_str(c.ctx, txt.c_str()); if (!raw) c.log << "text: " << txt << "\n"; res = R(c, raw, "isl_set_read_from_str"); }
	else {
		isl_space *space = mk_space(c, sp);
		isl_set *u = isl_set_empty(isl_space_copy(space));
		for (auto &b : m.d)
			u = isl_set_union(u, isl_set_from_basic_set(from_mats(c, b, isl_space_copy(space))));
		isl_space_free(space);
		res = R(c, u, "build_set");
	}
	MMap got = extract(c, res.g());
	if (got.np != m.np || got.no != m.no)
		c.fail("construct-space", "set read with wrong dimensions: " + txt);
	Window w = make_window(m.nvar(), 600);
	same_on(c, w, "construct", [&](const Pt &p) { return got.has(p); }, [&](const Pt &p) { return m.has(p); },
		[&]() { return "input: " + txt + "\nobject: " + S(res); });
	return res;
}

// ------------------------------------------------------------------ representation scrambling
// Applies library operations so that the operand has a representation only
// reachable through earlier operations; the reference is re-extracted afterwards.
// add a dimension tied to the others by 0 <= row - f x < f and project it out
static isl_set *tie_and_project(Case &c, isl_set *r, int np, int nv)
{
	if (!nv) return r;
	isl_map *m = isl_map_add_dims(isl_map_from_domain(r), isl_dim_out, 1);
	ZRow a = gen_row(c, np + nv, 2, 3);
	int f = 2 + c.t.below(3);
	isl_local_space *ls = isl_local_space_from_space(isl_map_get_space(m));
	for (int side = 0; side < 2; ++side) {
		isl_constraint *q = isl_constraint_alloc_inequality(isl_local_space_copy(ls));
		int sg = side ? -1 : 1;
		for (int i = 0; i < np + nv; ++i) {
			int v = (int)a[1 + i].get_si() * sg;
			q = isl_constraint_set_coefficient_si(q, i < np ? isl_dim_param : isl_dim_in, i < np ? i : i - np, v);
		}
		q = isl_constraint_set_coefficient_si(q, isl_dim_out, 0, -sg * f);
		q = isl_constraint_set_constant_si(q, (int)a[0].get_si() * sg + (side ? (int)c.t.below(f) : 0));
		m = isl_map_add_constraint(m, q);
	}
	isl_local_space_free(ls);
	return isl_map_domain(m);
}
Map scramble_map(Case &c, Map s, const Sp &sp, const GenOpt &o)
{
	int n = c.t.weighted({6, 3, 2, 1});
	for (int k = 0; k < n; ++k) {
		int op = c.t.below(15);
		Map prev = s;
		isl_map *r = s.r();
		GenOpt oo = o;
		oo.max_basic = 1; oo.extra = 2;
		switch (op) {
		case 0: r = isl_map_coalesce(r); break;
		case 1: r = isl_map_detect_equalities(r); break;
		case 2: r = isl_map_remove_redundancies(r); break;
		case 3: r = isl_map_compute_divs(r); break;
		case 4: r = isl_map_make_disjoint(r); break;
		case 5: { Map q = build_map(c, gen_mmap(c, sp, oo), sp); r = isl_map_subtract(r, q.r()); break; }
		case 6: { Map q = build_map(c, gen_mmap(c, sp, oo), sp); r = isl_map_intersect(r, q.r()); break; }
		case 7: { Map q = build_map(c, gen_mmap(c, sp, oo), sp); r = isl_map_union(r, q.r()); break; }
		case 8: r = isl_map_align_divs(r); break;
		case 9: r = isl_set_unwrap(tie_and_project(c, isl_map_wrap(r), sp.np(), sp.ni() + sp.no())); break;
		case 10: { // gist w.r.t. a context, intersect again
			Map q = build_map(c, gen_mmap(c, sp, oo), sp);
			r = isl_map_gist(r, q.c());
			r = isl_map_intersect(r, q.r());
			break; }
		case 11: { Map q = build_map(c, gen_mmap(c, sp, oo), sp);
			isl_map *t = isl_map_subtract(isl_map_copy(r), q.c());
			r = isl_map_union(isl_map_intersect(r, q.r()), t);
			break; }
		case 12: if (!o.bounded) r = isl_map_remove_unknown_divs(r); break;
		case 13: { Map q(isl_map_reverse(r)); r = isl_map_reverse(isl_map_coalesce(q.c())); break; }
		case 14: {
			Sp e = sp; e.params.push_back("zz0");
			oo.max_basic = 3;
			Map q = build_map(c, gen_mmap(c, e, oo), e);
			if (c.t.chance(1, 2)) q = R(c, isl_map_make_disjoint(q.r()), "isl_map_make_disjoint");
			q = R(c, isl_map_project_out(q.r(), isl_dim_param, sp.np(), 1), "isl_map_project_out");
			bool u = c.t.chance(1, 2) && !o.bounded;
			r = u ? isl_map_union(r, q.r()) : isl_map_intersect(r, q.r());
			break; }
		}
		s = R(c, r, ("scramble" + std::to_string(op)).c_str());
		if (n_basic(s) > 8) s = prev;
	}
	return s;
}
// the projection of a set in a larger space
static Set project_extra(Case &c, const Sp &sp, GenOpt o)
{
	o.max_basic = 3;
	int k = 1 + c.t.below(2);
	Set s;
	if (c.t.chance(1, 2)) {
		Sp e = sp;
		for (int i = 0; i < k; ++i) e.params.push_back("zz" + std::to_string(i));
		s = build_set(c, gen_mmap(c, e, o), e);
		if (c.t.chance(1, 2)) s = R(c, isl_set_make_disjoint(s.r()), "isl_set_make_disjoint");
		s = R(c, isl_set_project_out(s.r(), isl_dim_param, sp.np(), k), "isl_set_project_out");
	} else {
		Sp e = sp;
		e.is_map = true; e.in = sp.out; e.out = mk_tup("", k);
		Map m = build_map(c, gen_mmap(c, e, o), e);
		if (c.t.chance(1, 2)) m = R(c, isl_map_make_disjoint(m.r()), "isl_map_make_disjoint");
		if (c.t.chance(1, 2)) {
			m = R(c, isl_map_project_out(m.r(), isl_dim_out, 0, k), "isl_map_project_out");
			s = R(c, isl_map_domain(m.r()), "isl_map_domain");
		} else s = R(c, isl_map_domain(m.r()), "isl_map_domain");
	}
	if (n_basic(s) > 5) s = R(c, isl_set_from_basic_set(isl_set_simple_hull(s.r())), "isl_set_simple_hull");
	if (o.bounded) {
		GenOpt b = o; b.max_basic = 1;
		s = R(c, isl_set_intersect(s.r(), build_set(c, gen_mmap(c, sp, b), sp).r()), "isl_set_intersect");
	}
	return s;
}

Set scramble_set(Case &c, Set s, const Sp &sp, const GenOpt &o)
{
	int n = c.t.weighted({6, 3, 2, 1});
	for (int k = 0; k < n; ++k) {
		int op = c.t.below(o.allow_exist ? 15 : 13);
		Set prev = s;
		isl_set *r = s.r();
		GenOpt oo = o;
		oo.max_basic = 1; oo.extra = 2;
		switch (op) {
		case 0: r = isl_set_coalesce(r); break;
		case 1: r = isl_set_detect_equalities(r); break;
		case 2: r = isl_set_remove_redundancies(r); break;
		case 3: r = isl_set_compute_divs(r); break;
		case 4: r = isl_set_make_disjoint(r); break;
		case 5: { Set q = build_set(c, gen_mmap(c, sp, oo), sp); r = isl_set_subtract(r, q.r()); break; }
		case 6: { Set q = build_set(c, gen_mmap(c, sp, oo), sp); r = isl_set_intersect(r, q.r()); break; }
		case 7: { Set q = build_set(c, gen_mmap(c, sp, oo), sp); r = isl_set_union(r, q.r()); break; }
		case 8: r = isl_set_align_divs(r); break;
		case 9: r = tie_and_project(c, r, sp.np(), sp.no()); break;
		case 10: {
			Set q = build_set(c, gen_mmap(c, sp, oo), sp);
			r = isl_set_gist(r, q.c());
			r = isl_set_intersect(r, q.r());
			break; }
		case 11: { Set q = build_set(c, gen_mmap(c, sp, oo), sp);
			isl_set *t = isl_set_subtract(isl_set_copy(r), q.c());
			r = isl_set_union(isl_set_intersect(r, q.r()), t);
			break; }
		case 12: if (!o.bounded) r = isl_set_remove_unknown_divs(r); break;
		case 13: r = isl_set_intersect(r, project_extra(c, sp, oo).r()); break;
		case 14: r = isl_set_union(r, project_extra(c, sp, oo).r()); break;
		}
		s = R(c, r, ("scramble" + std::to_string(op)).c_str());
		if (n_basic(s) > 8) s = prev;
	}
	return s;
}

Set gen_set(Case &c, const Sp &sp, const GenOpt &o, bool scr)
{
	MMap m = gen_mmap(c, sp, o);
	Set s = build_set(c, m, sp);
	if (scr) s = scramble_set(c, s, sp, o);
	return s;
}
Map gen_map(Case &c, const Sp &sp, const GenOpt &o, bool scr)
{
	MMap m = gen_mmap(c, sp, o);
	Map s = build_map(c, m, sp);
	if (scr) s = scramble_map(c, s, sp, o);
	return s;
}
BSet gen_bset(Case &c, const Sp &sp, const GenOpt &o)
{
	GenOpt oo = o; oo.max_basic = 1; oo.allow_empty = false;
	Set s = gen_set(c, sp, oo, c.t.chance(1, 3));
	isl_basic_set_list *l = isl_set_get_basic_set_list(s.g());
	int n = isl_basic_set_list_size(l);
	isl_basic_set *b = n > 0 ? isl_basic_set_list_get_at(l, c.t.below(n)) : isl_basic_set_empty(isl_set_get_space(s.g()));
	isl_basic_set_list_free(l);
	return R(c, b, "gen_bset");
}
BMap gen_bmap(Case &c, const Sp &sp, const GenOpt &o)
{
	GenOpt oo = o; oo.max_basic = 1; oo.allow_empty = false;
	Map s = gen_map(c, sp, oo, c.t.chance(1, 3));
	isl_basic_map_list *l = isl_map_get_basic_map_list(s.g());
	int n = isl_basic_map_list_size(l);
	isl_basic_map *b = n > 0 ? isl_basic_map_list_get_at(l, c.t.below(n)) : isl_basic_map_empty(isl_map_get_space(s.g()));
	isl_basic_map_list_free(l);
	return R(c, b, "gen_bmap");
}


Map clip(Case &c, const Map &s, int lo, int hi)
{
	isl_map *m = s.c();
	enum isl_dim_type ty[] = {isl_dim_param, isl_dim_in, isl_dim_out};
	for (int k = 0; k < 3; ++k) {
		int n = isl_map_dim(m, ty[k]);
		for (int i = 0; i < n; ++i) {
			m = isl_map_lower_bound_si(m, ty[k], i, lo);
			m = isl_map_upper_bound_si(m, ty[k], i, hi);
		}
	}
	return R(c, m, "clip");
}
Set clip(Case &c, const Set &s, int lo, int hi)
{
	isl_set *m = s.c();
	enum isl_dim_type ty[] = {isl_dim_param, isl_dim_set};
	for (int k = 0; k < 2; ++k) {
		int n = isl_set_dim(m, ty[k]);
		for (int i = 0; i < n; ++i) {
			m = isl_set_lower_bound_si(m, ty[k], i, lo);
			m = isl_set_upper_bound_si(m, ty[k], i, hi);
		}
	}
	return R(c, m, "clip");
}
std::vector<Pt> box_points(int n, int lo, int hi)
{
	std::vector<Pt> r;
	Pt p(n, lo);
	for (;;) {
		r.push_back(p);
		int i = n - 1;
		for (; i >= 0; --i) { if (++p[i] <= hi) break; p[i] = lo; }
		if (i < 0) break;
	}
	return r;
}

} // namespace vp
