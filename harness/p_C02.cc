// C02: relation operations have the semantics of binary relations.
#include "fn.h"
using namespace vp;

namespace {

struct Rel { Map m; MMap M; Tup a, b; };

Rel rel(Case &c, const Sp &base, const Tup &a, const Tup &b, const GenOpt &o)
{
	Rel r;
	r.a = a; r.b = b;
	r.m = gen_map(c, map_sp(base, a, b), o);
	r.M = extract(c, r.m.g());
	return r;
}

// map of nested tuples (A -> B) with A = [A1 -> A2] etc.
void run(Case &c)
{
	Sp base = gen_set_space(c, 2, 0);
	int np = base.np();
	GenOpt o;
	o.max_basic = 2;
	int steps = 1 + c.t.below(2);
	for (int st = 0; st < steps; ++st) {
		int op = c.t.below(50);
		Tup X = gen_tup(c, 2, false), Y = gen_tup(c, 2, false), W = gen_tup(c, 2, false), V = gen_tup(c, 1, false);
		int nx = X.dim(), ny = Y.dim(), nw = W.dim(), nvv = V.dim();
		std::string how;
		auto P = [&](const Pt &p, int f, int n) { return sub(p, f, n); };
		auto par = [&](const Pt &p) { return sub(p, 0, np); };
		switch (op) {
		case 0: case 1: { // composition
			Rel a = rel(c, base, X, Y, o), b = rel(c, base, Y, W, o);
			how = "a = " + S(a.m) + "\nb = " + S(b.m) + "\napply_range";
			c.log << how << "\n";
			Map r = R(c, isl_map_apply_range(a.m.c(), b.m.c()), "isl_map_apply_range");
			// variables: params, x, w, y
			MMap j = conj(embed(a.M, np, nx, nw + ny, cati(seq(0, np), seq(np, nx), seq(np + nx + nw, ny))),
				embed(b.M, np, nx, nw + ny, cati(seq(0, np), seq(np + nx + nw, ny), seq(np + nx, nw))));
			MMap e = project_vars(j, seq(np + nx + nw, ny), np, nx, nw);
			check(c, "apply_range", r, map_sp(base, X, W), [&](const Pt &p) { return e.has(p); }, how, 200);
			break; }
		case 2: { // apply_domain
			Rel a = rel(c, base, X, Y, o), b = rel(c, base, X, W, o);
			how = "a = " + S(a.m) + "\nb = " + S(b.m) + "\napply_domain";
			c.log << how << "\n";
			Map r = R(c, isl_map_apply_domain(a.m.c(), b.m.c()), "isl_map_apply_domain");
			MMap j = conj(embed(a.M, np, nw, ny + nx, cati(seq(0, np), seq(np + nw + ny, nx), seq(np + nw, ny))),
				embed(b.M, np, nw, ny + nx, cati(seq(0, np), seq(np + nw + ny, nx), seq(np, nw))));
			MMap e = project_vars(j, seq(np + nw + ny, nx), np, nw, ny);
			check(c, "apply_domain", r, map_sp(base, W, Y), [&](const Pt &p) { return e.has(p); }, how, 200);
			break; }
		case 3: { // set apply
			Set s = gen_set(c, set_sp(base, X), o);
			MMap ms = extract(c, s.g());
			Rel a = rel(c, base, X, Y, o);
			how = "s = " + S(s) + "\na = " + S(a.m) + "\napply";
			c.log << how << "\n";
			Set r = R(c, isl_set_apply(s.c(), a.m.c()), "isl_set_apply");
			MMap j = conj(embed(ms, np, 0, ny + nx, cati(seq(0, np), seq(np + ny, nx))), embed(a.M, np, 0, ny + nx, cati(seq(0, np), seq(np + ny, nx), seq(np, ny))));
			MMap e = project_vars(j, seq(np + ny, nx), np, 0, ny);
			check(c, "set_apply", r, set_sp(base, Y), [&](const Pt &p) { return e.has(p); }, how, 250);
			break; }
		case 4: { // reverse
			Rel a = rel(c, base, X, Y, o);
			how = "a = " + S(a.m) + "\nreverse";
			c.log << how << "\n";
			Map r = R(c, isl_map_reverse(a.m.c()), "isl_map_reverse");
			check(c, "reverse", r, map_sp(base, Y, X), [&](const Pt &p) { return a.M.has(cat(cat(par(p), P(p, np + ny, nx)), P(p, np, ny))); }, how);
			break; }
		case 5: case 6: { // domain / range
			Rel a = rel(c, base, X, Y, o);
			bool dom = op == 5;
			how = "a = " + S(a.m) + (dom ? "\ndomain" : "\nrange");
			c.log << how << "\n";
			Set r = dom ? R(c, isl_map_domain(a.m.c()), "isl_map_domain") : R(c, isl_map_range(a.m.c()), "isl_map_range");
			MMap e = dom ? project_vars(a.M, seq(np + nx, ny), np, 0, nx) : project_vars(a.M, seq(np, nx), np, 0, ny);
			check(c, dom ? "domain" : "range", r, set_sp(base, dom ? X : Y), [&](const Pt &p) { return e.has(p); }, how, 300);
			break; }
		case 7: case 8: case 9: { // products
			Tup X2 = gen_tup(c, 1, false), Y2 = gen_tup(c, 1, false);
			int k = c.t.below(6);
			if (k == 1 || k == 4) X2 = X;          // range products share the domain
			if (k == 2 || k == 5) Y2 = Y;          // domain products share the range
			Rel a = rel(c, base, X, Y, o), b = rel(c, base, X2, Y2, o);
			int nx2 = X2.dim(), ny2 = Y2.dim();
			static const char *nm[] = {"product", "range_product", "domain_product", "flat_product", "flat_range_product", "flat_domain_product"};
			how = "a = " + S(a.m) + "\nb = " + S(b.m) + "\n" + nm[k];
			c.log << how << "\n";
			Map r;
			switch (k) {
			case 0: r = R(c, isl_map_product(a.m.c(), b.m.c()), "isl_map_product"); break;
			case 1: r = R(c, isl_map_range_product(a.m.c(), b.m.c()), "isl_map_range_product"); break;
			case 2: r = R(c, isl_map_domain_product(a.m.c(), b.m.c()), "isl_map_domain_product"); break;
			case 3: r = R(c, isl_map_flat_product(a.m.c(), b.m.c()), "isl_map_flat_product"); break;
			case 4: r = R(c, isl_map_flat_range_product(a.m.c(), b.m.c()), "isl_map_flat_range_product"); break;
			case 5: r = R(c, isl_map_flat_domain_product(a.m.c(), b.m.c()), "isl_map_flat_domain_product"); break;
			}
			bool dd = k % 3 != 1, rr = k % 3 != 2, flat = k >= 3;
			Tup ti = dd ? (flat ? flat_tup(nx + nx2) : wrap_tup(X, X2)) : X;
			Tup to = rr ? (flat ? flat_tup(ny + ny2) : wrap_tup(Y, Y2)) : Y;
			int ni = ti.dim();
			check(c, nm[k], r, map_sp(base, ti, to), [&](const Pt &p) {
				Pt x1 = P(p, np, nx), x2 = dd ? P(p, np + nx, nx2) : x1;
				Pt y1 = P(p, np + ni, ny), y2 = rr ? P(p, np + ni + ny, ny2) : y1;
				return a.M.has(cat(cat(par(p), x1), y1)) && b.M.has(cat(cat(par(p), x2), y2)); }, how);
			break; }
		case 10: case 11: { // deltas
			Rel a = rel(c, base, X, X, o);
			bool mp = op == 11;
			how = "a = " + S(a.m) + (mp ? "\ndeltas_map" : "\ndeltas");
			c.log << how << "\n";
			if (mp) {
				Map r = R(c, isl_map_deltas_map(a.m.c()), "isl_map_deltas_map");
				check(c, "deltas_map", r, map_sp(base, wrap_tup(X, X), X), [&](const Pt &p) {
					for (int i = 0; i < nx; ++i) if (p[np + 2 * nx + i] != p[np + nx + i] - p[np + i]) return false;
					return a.M.has(P(p, 0, np + 2 * nx)); }, how, 2000);
				break;
			}
			Set r = R(c, isl_map_deltas(a.m.c()), "isl_map_deltas");
			// y = x + d: substitute, then project x
			MMap e(np, 0, nx);
			for (auto &b : a.M.d) {
				MBasic q = embed(b, np + 2 * nx, cati(seq(0, np), seq(np + nx, nx), seq(np, nx)));   // d slot holds y
				auto adj = [&](ZRow &row) { for (int i = 0; i < nx; ++i) row[1 + np + nx + i] += row[1 + np + i]; };
				for (auto &row : q.eq) adj(row);
				for (auto &row : q.ineq) adj(row);
				for (auto &d : q.divs) if (d.known) adj(d.num);
				e.d.push_back(project(q, seq(np + nx, nx)));
			}
			check(c, "deltas", r, set_sp(base, X), [&](const Pt &p) { return e.has(p); }, how, 250);
			break; }
		case 12: { // wrap / unwrap
			Rel a = rel(c, base, X, Y, o);
			how = "a = " + S(a.m) + "\nwrap";
			c.log << how << "\n";
			Set w = R(c, isl_map_wrap(a.m.c()), "isl_map_wrap");
			check(c, "wrap", w, set_sp(base, wrap_tup(X, Y)), [&](const Pt &p) { return a.M.has(p); }, how);
			Map u = R(c, isl_set_unwrap(w.c()), "isl_set_unwrap");
			check(c, "unwrap", u, map_sp(base, X, Y), [&](const Pt &p) { return a.M.has(p); }, how + " unwrap");
			break; }
		case 13: case 14: case 15: { // currying and friends on nested maps
			int k = c.t.below(6);
			static const char *nm[] = {"curry", "uncurry", "zip", "range_curry", "range_reverse", "set_wrapped_reverse"};
			Rel a;
			Map r;
			Sp es = base;
			std::vector<std::pair<int, int>> perm;   // blocks of the result in terms of the source blocks (start, len)
			int n1 = nx, n2 = ny, n3 = nw, n4 = nvv;
			switch (k) {
			case 0: a = rel(c, base, wrap_tup(X, Y), W, o); r = R(c, isl_map_curry(a.m.c()), "isl_map_curry"); es = map_sp(base, X, wrap_tup(Y, W)); break;
			case 1: a = rel(c, base, X, wrap_tup(Y, W), o); r = R(c, isl_map_uncurry(a.m.c()), "isl_map_uncurry"); es = map_sp(base, wrap_tup(X, Y), W); break;
			case 2: a = rel(c, base, wrap_tup(X, Y), wrap_tup(W, V), o); r = R(c, isl_map_zip(a.m.c()), "isl_map_zip"); es = map_sp(base, wrap_tup(X, W), wrap_tup(Y, V)); break;
			case 3: a = rel(c, base, V, wrap_tup(wrap_tup(X, Y), W), o); r = R(c, isl_map_range_curry(a.m.c()), "isl_map_range_curry"); es = map_sp(base, V, wrap_tup(X, wrap_tup(Y, W))); break;
			case 4: a = rel(c, base, X, wrap_tup(Y, W), o); r = R(c, isl_map_range_reverse(a.m.c()), "isl_map_range_reverse"); es = map_sp(base, X, wrap_tup(W, Y)); break;
			case 5: a = rel(c, base, X, wrap_tup(W, V), o); r = R(c, isl_map_range_reverse(isl_map_range_reverse(a.m.c())), "isl_map_range_reverse2"); es = map_sp(base, X, wrap_tup(W, V)); break;
			}
			how = "a = " + S(a.m) + "\n" + nm[k];
			c.log << how << "\n";
			check(c, nm[k], r, es, [&](const Pt &p) {
				Pt q = p;
				if (k == 2) q = cat(cat(cat(cat(par(p), P(p, np, n1)), P(p, np + n1 + n3, n2)), P(p, np + n1, n3)), P(p, np + n1 + n3 + n2, n4));
				if (k == 4) q = cat(cat(cat(par(p), P(p, np, n1)), P(p, np + n1 + n3, n2)), P(p, np + n1, n3));
				return a.M.has(q); }, how);
			isl_bool can = k == 0 ? isl_map_can_curry(a.m.g()) : k == 1 ? isl_map_can_uncurry(a.m.g()) : k == 2 ? isl_map_can_zip(a.m.g()) : k == 3 ? isl_map_can_range_curry(a.m.g()) : isl_bool_true;
			if (can != isl_bool_true) c.fail("can", how);
			break; }
		case 16: { // flatten
			int k = c.t.below(3);
			Rel a = rel(c, base, wrap_tup(X, V), wrap_tup(Y, V), o);
			how = "a = " + S(a.m) + "\nflatten " + std::to_string(k);
			c.log << how << "\n";
			Map r = k == 0 ? R(c, isl_map_flatten(a.m.c()), "isl_map_flatten") : k == 1 ? R(c, isl_map_flatten_domain(a.m.c()), "isl_map_flatten_domain") : R(c, isl_map_flatten_range(a.m.c()), "isl_map_flatten_range");
			Sp es = map_sp(base, k != 2 ? flat_tup(nx + nvv) : a.a, k != 1 ? flat_tup(ny + nvv) : a.b);
			check(c, "flatten", r, es, [&](const Pt &p) { return a.M.has(p); }, how);
			break; }
		case 17: { // domain_map / range_map
			Rel a = rel(c, base, X, Y, o);
			bool d = c.t.chance(1, 2);
			how = "a = " + S(a.m) + (d ? "\ndomain_map" : "\nrange_map");
			c.log << how << "\n";
			Map r = d ? R(c, isl_map_domain_map(a.m.c()), "isl_map_domain_map") : R(c, isl_map_range_map(a.m.c()), "isl_map_range_map");
			check(c, d ? "domain_map" : "range_map", r, map_sp(base, wrap_tup(X, Y), d ? X : Y), [&](const Pt &p) {
				int n = d ? nx : ny, off = d ? np : np + nx;
				for (int i = 0; i < n; ++i) if (p[np + nx + ny + i] != p[off + i]) return false;
				return a.M.has(P(p, 0, np + nx + ny)); }, how, 2500);
			break; }
		case 18: case 19: { // factors
			int k = c.t.below(6);
			static const char *nm[] = {"factor_domain", "factor_range", "domain_factor_domain", "domain_factor_range", "range_factor_domain", "range_factor_range"};
			Rel a;
			std::vector<int> ex;
			Sp es = base;
			if (k < 2) {
				a = rel(c, base, wrap_tup(X, W), wrap_tup(Y, V), o);
				if (k == 0) { ex = cati(seq(np + nx, nw), seq(np + nx + nw + ny, nvv)); es = map_sp(base, X, Y); }
				else { ex = cati(seq(np, nx), seq(np + nx + nw, ny)); es = map_sp(base, W, V); }
			} else if (k < 4) {
				a = rel(c, base, wrap_tup(X, W), Y, o);
				if (k == 2) { ex = seq(np + nx, nw); es = map_sp(base, X, Y); } else { ex = seq(np, nx); es = map_sp(base, W, Y); }
			} else {
				a = rel(c, base, X, wrap_tup(Y, W), o);
				if (k == 4) { ex = seq(np + nx + ny, nw); es = map_sp(base, X, Y); } else { ex = seq(np + nx, ny); es = map_sp(base, X, W); }
			}
			how = "a = " + S(a.m) + "\n" + nm[k];
			c.log << how << "\n";
			Map r;
			switch (k) {
			case 0: r = R(c, isl_map_factor_domain(a.m.c()), nm[k]); break;
			case 1: r = R(c, isl_map_factor_range(a.m.c()), nm[k]); break;
			case 2: r = R(c, isl_map_domain_factor_domain(a.m.c()), nm[k]); break;
			case 3: r = R(c, isl_map_domain_factor_range(a.m.c()), nm[k]); break;
			case 4: r = R(c, isl_map_range_factor_domain(a.m.c()), nm[k]); break;
			case 5: r = R(c, isl_map_range_factor_range(a.m.c()), nm[k]); break;
			}
			MMap e = project_vars(a.M, ex, np, es.ni(), es.no());
			check(c, nm[k], r, es, [&](const Pt &p) { return e.has(p); }, how, 200);
			break; }
		case 20: case 21: case 22: { // intersect with (factors of) domain and range
			int k = c.t.below(10);
			static const char *nm[] = {"intersect_domain", "intersect_range", "subtract_domain", "subtract_range", "intersect_domain_factor_domain", "intersect_domain_factor_range",
				"intersect_range_factor_domain", "intersect_range_factor_range", "intersect_domain_wrapped_domain", "intersect_range_wrapped_domain"};
			Rel a;
			Map r;
			Set s; Rel f;
			MMap ms;
			Pred want;
			if (k < 4) {
				a = rel(c, base, X, Y, o);
				s = gen_set(c, set_sp(base, k % 2 == 0 ? X : Y), o);
				ms = extract(c, s.g());
				how = "a = " + S(a.m) + "\ns = " + S(s);
				want = [&, k](const Pt &p) {
					if (!a.M.has(p)) return false;
					bool in = ms.has(k % 2 == 0 ? P(p, 0, np + nx) : cat(par(p), P(p, np + nx, ny)));
					return k < 2 ? in : !in; };
			} else if (k == 4 || k == 5) {
				a = rel(c, base, wrap_tup(X, V), Y, o);
				f = k == 4 ? rel(c, base, X, Y, o) : rel(c, base, V, Y, o);
				how = "a = " + S(a.m) + "\nf = " + S(f.m);
				want = [&, k](const Pt &p) { return a.M.has(p) && f.M.has(cat(cat(par(p), k == 4 ? P(p, np, nx) : P(p, np + nx, nvv)), P(p, np + nx + nvv, ny))); };
			} else if (k == 6 || k == 7) {
				a = rel(c, base, X, wrap_tup(Y, V), o);
				f = k == 6 ? rel(c, base, X, Y, o) : rel(c, base, X, V, o);
				how = "a = " + S(a.m) + "\nf = " + S(f.m);
				want = [&, k](const Pt &p) { return a.M.has(p) && f.M.has(cat(P(p, 0, np + nx), k == 6 ? P(p, np + nx, ny) : P(p, np + nx + ny, nvv))); };
			} else {
				a = k == 8 ? rel(c, base, wrap_tup(X, V), Y, o) : rel(c, base, X, wrap_tup(Y, V), o);
				s = gen_set(c, set_sp(base, k == 8 ? X : Y), o);
				ms = extract(c, s.g());
				how = "a = " + S(a.m) + "\ns = " + S(s);
				want = [&, k](const Pt &p) { return a.M.has(p) && ms.has(cat(par(p), k == 8 ? P(p, np, nx) : P(p, np + nx, ny))); };
			}
			how += std::string("\n") + nm[k];
			c.log << how << "\n";
			switch (k) {
			case 0: r = R(c, isl_map_intersect_domain(a.m.c(), s.c()), nm[k]); break;
			case 1: r = R(c, isl_map_intersect_range(a.m.c(), s.c()), nm[k]); break;
			case 2: r = R(c, isl_map_subtract_domain(a.m.c(), s.c()), nm[k]); break;
			case 3: r = R(c, isl_map_subtract_range(a.m.c(), s.c()), nm[k]); break;
			case 4: r = R(c, isl_map_intersect_domain_factor_domain(a.m.c(), f.m.c()), nm[k]); break;
			case 5: r = R(c, isl_map_intersect_domain_factor_range(a.m.c(), f.m.c()), nm[k]); break;
			case 6: r = R(c, isl_map_intersect_range_factor_domain(a.m.c(), f.m.c()), nm[k]); break;
			case 7: r = R(c, isl_map_intersect_range_factor_range(a.m.c(), f.m.c()), nm[k]); break;
			case 8: r = R(c, isl_map_intersect_domain_wrapped_domain(a.m.c(), s.c()), nm[k]); break;
			case 9: r = R(c, isl_map_intersect_range_wrapped_domain(a.m.c(), s.c()), nm[k]); break;
			}
			check(c, nm[k], r, map_sp(base, a.a, a.b), want, how);
			break; }
		case 23: case 24: case 25: case 26: { // preimages under functions
			int k = c.t.below(5);
			Tup D = gen_tup(c, 2, false);
			int ndm = D.dim();
			static const char *nm[] = {"preimage_domain_multi_aff", "preimage_range_multi_aff", "preimage_domain_pw_multi_aff", "preimage_range_pw_multi_aff", "preimage_domain_multi_pw_aff"};
			Rel a = rel(c, base, X, Y, o);
			bool dom = k == 0 || k == 2 || k == 4, part = false;
			Sp fs = map_sp(base, D, dom ? X : Y);
			FFun f;
			Map r;
			if (k < 2) {
				MAff m = gen_maff(c, fs, 2);
				f = fn(c, m.g());
				how = "a = " + S(a.m) + "\nf = " + S(m) + "\n" + nm[k];
				c.log << how << "\n";
				r = dom ? R(c, isl_map_preimage_domain_multi_aff(a.m.c(), m.c()), nm[k]) : R(c, isl_map_preimage_range_multi_aff(a.m.c(), m.c()), nm[k]);
			} else if (k < 4) {
				PMA m = gen_pma(c, fs);
				f = fn(c, m.g());
				how = "a = " + S(a.m) + "\nf = " + S(m) + "\n" + nm[k];
				c.log << how << "\n";
				r = dom ? R(c, isl_map_preimage_domain_pw_multi_aff(a.m.c(), m.c()), nm[k]) : R(c, isl_map_preimage_range_pw_multi_aff(a.m.c(), m.c()), nm[k]);
			} else {
				MPA m = gen_mpa(c, fs);
				f = fn(c, m.g());
				how = "a = " + S(a.m) + "\nf = " + S(m) + "\n" + nm[k];
				c.log << how << "\n";
				r = R(c, isl_map_preimage_domain_multi_pw_aff(a.m.c(), m.c()), nm[k]);
				// components that are not referenced do not restrict the result
				part = !B(c, isl_map_involves_dims(a.m.g(), isl_dim_in, 0, nx), "isl_map_involves_dims") && nx > 0;
			}
			check(c, nm[k], r, dom ? map_sp(base, D, Y) : map_sp(base, X, D), [&](const Pt &p) {
				Pt arg = cat(par(p), dom ? P(p, np, ndm) : P(p, np + nx, ndm));
				if (part) return a.M.has(cat(cat(par(p), Pt(nx, 0)), P(p, np + ndm, ny)));
				if (!f.def(arg)) return false;
				auto v = f.eval(arg);
				Pt img;
				for (auto &q : v) { if (q.st != 1 || q.v.get_den() != 1 || !q.v.get_num().fits_slong_p()) return false; img.push_back(q.v.get_num().get_si()); }
				return a.M.has(dom ? cat(cat(par(p), img), P(p, np + ndm, ny)) : cat(P(p, 0, np + nx), img)); }, how, 600);
			break; }
		case 27: { // set preimages
			int k = c.t.below(3);
			Tup D = gen_tup(c, 2, false);
			Set s = gen_set(c, set_sp(base, X), o);
			MMap ms = extract(c, s.g());
			Sp fs = map_sp(base, D, X);
			FFun f; Set r;
			bool part = k == 2 && nx > 0 && !B(c, isl_set_involves_dims(s.g(), isl_dim_set, 0, nx), "isl_set_involves_dims");
			if (k == 0) { MAff m = gen_maff(c, fs, 2); f = fn(c, m.g()); how = "s = " + S(s) + "\nf = " + S(m); r = R(c, isl_set_preimage_multi_aff(s.c(), m.c()), "set_preimage"); }
			else if (k == 1) { PMA m = gen_pma(c, fs); f = fn(c, m.g()); how = "s = " + S(s) + "\nf = " + S(m); r = R(c, isl_set_preimage_pw_multi_aff(s.c(), m.c()), "set_preimage"); }
			else { MPA m = gen_mpa(c, fs); f = fn(c, m.g()); how = "s = " + S(s) + "\nf = " + S(m); r = R(c, isl_set_preimage_multi_pw_aff(s.c(), m.c()), "set_preimage"); }
			c.log << how << "\nset preimage\n";
			check(c, "set_preimage", r, set_sp(base, D), [&](const Pt &p) {
				if (part) return ms.has(cat(par(p), Pt(nx, 0)));
				if (!f.def(p)) return false;
				Pt img = par(p);
				for (auto &q : f.eval(p)) { if (q.st != 1 || q.v.get_den() != 1 || !q.v.get_num().fits_slong_p()) return false; img.push_back(q.v.get_num().get_si()); }
				return ms.has(img); }, how, 600);
			break; }
		case 28: case 29: { // lexicographic order relations on spaces
			int k = c.t.below(8);
			Tup T = gen_tup(c, 3, false);
			int n = T.dim();
			Space sp(mk_space(c, set_sp(base, T)));
			static const char *nm[] = {"lex_lt", "lex_le", "lex_gt", "lex_ge", "lex_lt_first", "lex_le_first", "lex_gt_first", "lex_ge_first"};
			Map r; int first = n;
			// lex_*_first need a map space
			Space msp(isl_space_map_from_set(sp.c()));
			int f = c.t.below(n + 1);
			switch (k) {
			case 0: r = R(c, isl_map_lex_lt(sp.c()), nm[k]); break;
			case 1: r = R(c, isl_map_lex_le(sp.c()), nm[k]); break;
			case 2: r = R(c, isl_map_lex_gt(sp.c()), nm[k]); break;
			case 3: r = R(c, isl_map_lex_ge(sp.c()), nm[k]); break;
			case 4: first = f; r = R(c, isl_map_lex_lt_first(msp.c(), f), nm[k]); break;
			case 5: first = f; r = R(c, isl_map_lex_le_first(msp.c(), f), nm[k]); break;
			case 6: first = f; r = R(c, isl_map_lex_gt_first(msp.c(), f), nm[k]); break;
			case 7: first = f; r = R(c, isl_map_lex_ge_first(msp.c(), f), nm[k]); break;
			}
			how = std::string(nm[k]) + " " + S(sp) + ints({f});
			c.log << how << "\n";
			check(c, nm[k], r, map_sp(base, T, T), [&](const Pt &p) {
				int cmp = 0;
				for (int i = 0; i < first && !cmp; ++i) cmp = p[np + i] < p[np + n + i] ? -1 : p[np + i] > p[np + n + i];
				switch (k % 4) { case 0: return cmp < 0; case 1: return cmp <= 0; case 2: return cmp > 0; default: return cmp >= 0; } }, how, 2000);
			break; }
		case 30: case 31: { // lexicographic order between sets
			int k = c.t.below(4);
			Set a = gen_set(c, set_sp(base, X), o), b = gen_set(c, set_sp(base, X), o);
			MMap ma = extract(c, a.g()), mb = extract(c, b.g());
			static const char *nm[] = {"lex_lt_set", "lex_le_set", "lex_gt_set", "lex_ge_set"};
			how = "a = " + S(a) + "\nb = " + S(b) + "\n" + nm[k];
			c.log << how << "\n";
			Map r;
			switch (k) {
			case 0: r = R(c, isl_set_lex_lt_set(a.c(), b.c()), nm[k]); break;
			case 1: r = R(c, isl_set_lex_le_set(a.c(), b.c()), nm[k]); break;
			case 2: r = R(c, isl_set_lex_gt_set(a.c(), b.c()), nm[k]); break;
			case 3: r = R(c, isl_set_lex_ge_set(a.c(), b.c()), nm[k]); break;
			}
			check(c, nm[k], r, map_sp(base, X, X), [&](const Pt &p) {
				if (!ma.has(P(p, 0, np + nx)) || !mb.has(cat(par(p), P(p, np + nx, nx)))) return false;
				int cmp = 0;
				for (int i = 0; i < nx && !cmp; ++i) cmp = p[np + i] < p[np + nx + i] ? -1 : p[np + i] > p[np + nx + i];
				switch (k) { case 0: return cmp < 0; case 1: return cmp <= 0; case 2: return cmp > 0; default: return cmp >= 0; } }, how, 1500);
			break; }
		case 32: case 33: { // order of images: lex_*_map
			int k = c.t.below(4);
			Rel a = rel(c, base, X, Y, o), b = rel(c, base, W, Y, o);
			if (n_basic(a.m) > 3 || n_basic(b.m) > 3) continue;
			static const char *nm[] = {"lex_lt_map", "lex_le_map", "lex_gt_map", "lex_ge_map"};
			how = "a = " + S(a.m) + "\nb = " + S(b.m) + "\n" + nm[k];
			c.log << how << "\n";
			Map r;
			switch (k) {
			case 0: r = R(c, isl_map_lex_lt_map(a.m.c(), b.m.c()), nm[k]); break;
			case 1: r = R(c, isl_map_lex_le_map(a.m.c(), b.m.c()), nm[k]); break;
			case 2: r = R(c, isl_map_lex_gt_map(a.m.c(), b.m.c()), nm[k]); break;
			case 3: r = R(c, isl_map_lex_ge_map(a.m.c(), b.m.c()), nm[k]); break;
			}
			// exists y1, y2: (x,y1) in a, (w,y2) in b, y1 op y2
			MMap j = conj(embed(a.M, np, nx, nw + 2 * ny, cati(seq(0, np), seq(np, nx), seq(np + nx + nw, ny))),
				embed(b.M, np, nx, nw + 2 * ny, cati(seq(0, np), seq(np + nx, nw), seq(np + nx + nw + ny, ny))));
			MMap e(np, nx, nw);
			bool gt = k >= 2, eqok = k & 1;
			for (int lev = 0; lev < ny + (eqok ? 1 : 0); ++lev) {
				for (auto bb : j.d) {
					bb.compiled = 0;
					int y1 = np + nx + nw, y2 = y1 + ny;
					for (int i = 0; i < lev; ++i) { ZRow row(bb.width()); row[1 + y1 + i] = 1; row[1 + y2 + i] = -1; bb.eq.push_back(row); }
					if (lev < ny) { ZRow row(bb.width()); row[1 + y1 + lev] = gt ? 1 : -1; row[1 + y2 + lev] = gt ? -1 : 1; row[0] = -1; bb.ineq.push_back(row); }
					e.d.push_back(project(bb, seq(y1, 2 * ny)));
				}
			}
			check(c, nm[k], r, map_sp(base, X, W), [&](const Pt &p) { return e.has(p); }, how, 120);
			break; }
		case 34: case 35: { // comparison of function values
			int k = c.t.below(5);
			Rel a = rel(c, base, X, Y, o);
			bool dom = true;
			// f is applied to both domain and range: needs X == Y
			a = rel(c, base, X, X, o);
			MPA m = gen_mpa(c, map_sp(base, X, Y));
			FFun f = fn(c, m.g());
			static const char *nm[] = {"eq_at_multi_pw_aff", "lex_lt_at_multi_pw_aff", "lex_le_at_multi_pw_aff", "lex_gt_at_multi_pw_aff", "lex_ge_at_multi_pw_aff"};
			how = "a = " + S(a.m) + "\nf = " + S(m) + "\n" + nm[k];
			c.log << how << "\n";
			Map r;
			switch (k) {
			case 0: r = R(c, isl_map_eq_at_multi_pw_aff(a.m.c(), m.c()), nm[k]); break;
			case 1: r = R(c, isl_map_lex_lt_at_multi_pw_aff(a.m.c(), m.c()), nm[k]); break;
			case 2: r = R(c, isl_map_lex_le_at_multi_pw_aff(a.m.c(), m.c()), nm[k]); break;
			case 3: r = R(c, isl_map_lex_gt_at_multi_pw_aff(a.m.c(), m.c()), nm[k]); break;
			case 4: r = R(c, isl_map_lex_ge_at_multi_pw_aff(a.m.c(), m.c()), nm[k]); break;
			}
			check(c, nm[k], r, map_sp(base, X, X), [&](const Pt &p) {
				if (!a.M.has(p)) return false;
				Pt x = P(p, 0, np + nx), y = cat(par(p), P(p, np + nx, nx));
				// the order holds if, for some i, the i-th components are ordered and the previous ones equal
				if (ny == 0) return f.def(x) && f.def(y) && (k == 0 || k == 2 || k == 4);
				auto u = f.eval(x), v = f.eval(y);
				for (int i = 0; i < ny; ++i) {
					if (u[i].st != 1 || v[i].st != 1) return false;
					int cmp = u[i].v < v[i].v ? -1 : u[i].v > v[i].v;
					if (cmp) return k == 0 ? false : k <= 2 ? cmp < 0 : cmp > 0;
				}
				return k == 0 || k == 2 || k == 4; }, how, 800);
			break; }
		case 36: case 37: { // coordinate constraints between dimensions
			int k = c.t.below(6);
			Rel a = rel(c, base, X, Y, o);
			int nv = nx + ny;
			if (!nv) continue;
			int u = c.t.below(nv), v = c.t.below(nv);
			auto ty = [&](int i) { return i < nx ? isl_dim_in : isl_dim_out; };
			auto ps = [&](int i) { return i < nx ? i : i - nx; };
			static const char *nm[] = {"equate", "oppose", "order_lt", "order_gt", "order_le", "order_ge"};
			how = "a = " + S(a.m) + "\n" + nm[k] + ints({u, v});
			c.log << how << "\n";
			Map r;
			switch (k) {
			case 0: r = R(c, isl_map_equate(a.m.c(), ty(u), ps(u), ty(v), ps(v)), nm[k]); break;
			case 1: r = R(c, isl_map_oppose(a.m.c(), ty(u), ps(u), ty(v), ps(v)), nm[k]); break;
			case 2: r = R(c, isl_map_order_lt(a.m.c(), ty(u), ps(u), ty(v), ps(v)), nm[k]); break;
			case 3: r = R(c, isl_map_order_gt(a.m.c(), ty(u), ps(u), ty(v), ps(v)), nm[k]); break;
			case 4: r = R(c, isl_map_order_le(a.m.c(), ty(u), ps(u), ty(v), ps(v)), nm[k]); break;
			case 5: r = R(c, isl_map_order_ge(a.m.c(), ty(u), ps(u), ty(v), ps(v)), nm[k]); break;
			}
			check(c, nm[k], r, map_sp(base, X, Y), [&](const Pt &p) {
				if (!a.M.has(p)) return false;
				int64_t x = p[np + u], y = p[np + v];
				switch (k) { case 0: return x == y; case 1: return x == -y; case 2: return x < y; case 3: return x > y; case 4: return x <= y; default: return x >= y; } }, how);
			break; }
		case 38: { // neg / sum
			bool neg = c.t.chance(1, 2);
			Rel a = rel(c, base, X, Y, o);
			if (neg) {
				how = "a = " + S(a.m) + "\nneg";
				c.log << how << "\n";
				Map r = R(c, isl_map_neg(a.m.c()), "isl_map_neg");
				check(c, "neg", r, map_sp(base, X, Y), [&](const Pt &p) { Pt q = p; for (int i = 0; i < ny; ++i) q[np + nx + i] = -q[np + nx + i]; return a.M.has(q); }, how);
				break;
			}
			Rel b = rel(c, base, X, Y, o);
			how = "a = " + S(a.m) + "\nb = " + S(b.m) + "\nsum";
			c.log << how << "\n";
			if (ny > 2 || n_basic(a.m) * n_basic(b.m) > 6) continue;
			Map r = R(c, isl_map_sum(a.m.c(), b.m.c()), "isl_map_sum");
			MMap j1 = embed(a.M, np, nx, 2 * ny, cati(seq(0, np + nx), seq(np + nx + ny, ny)));
			MMap j2(np, nx, 2 * ny);
			for (auto &bb : b.M.d) {
				MBasic q = embed(bb, np + nx + 2 * ny, seq(0, np + nx + ny));
				auto adj = [&](ZRow &row) { for (int i = 0; i < ny; ++i) row[1 + np + nx + ny + i] -= row[1 + np + nx + i]; };
				for (auto &row : q.eq) adj(row);
				for (auto &row : q.ineq) adj(row);
				for (auto &d : q.divs) if (d.known) adj(d.num);
				j2.d.push_back(q);
			}
			MMap e = project_vars(conj(j1, j2), seq(np + nx + ny, ny), np, nx, ny);
			check(c, "sum", r, map_sp(base, X, Y), [&](const Pt &p) { return e.has(p); }, how, 150);
			break; }
		case 39: { // floordiv of the range
			Rel a = rel(c, base, X, Y, o);
			int d = 1 + c.t.below(4);
			how = "a = " + S(a.m) + "\nfloordiv_val" + ints({d});
			c.log << how << "\n";
			Map r = R(c, isl_map_floordiv_val(a.m.c(), isl_val_int_from_si(c.ctx, d)), "isl_map_floordiv_val");
			// (x, q) iff exists y in [dq, dq + d - 1]^n
			check(c, "floordiv_val", r, map_sp(base, X, Y), [&](const Pt &p) {
				Pt y(ny, 0);
				for (;;) {
					Pt q = P(p, 0, np + nx);
					for (int i = 0; i < ny; ++i) q.push_back(p[np + nx + i] * d + y[i]);
					if (a.M.has(q)) return true;
					int i = 0;
					for (; i < ny; ++i) { if (++y[i] < d) break; y[i] = 0; }
					if (i == ny) return false;
				} }, how, 300);
			break; }
		case 40: { // fixed powers
			Rel a = rel(c, base, X, X, o);
			if (n_basic(a.m) > 2 || nx > 1) continue;
			int e = c.t.range(-3, 3);
			if (!e) e = 2;
			how = "a = " + S(a.m) + "\nfixed_power_val" + ints({e});
			c.log << how << "\n";
			Map r = R(c, isl_map_fixed_power_val(a.m.c(), isl_val_int_from_si(c.ctx, e)), "isl_map_fixed_power_val");
			// chain of |e| applications
			int k = abs(e);
			MMap cur(np, nx, nx * k);
			bool first = true;
			for (int i = 0; i < k; ++i) {
				// step i: v_i -> v_{i+1}; v_0 = x, v_k = y (placed right after x)
				auto at = [&](int j) { return j == 0 ? np : j == k ? np + nx : np + nx + nx * j; };
				MMap t = embed(a.M, np, nx, nx * k, cati(seq(0, np), seq(at(e > 0 ? i : i + 1), nx), seq(at(e > 0 ? i + 1 : i), nx)));
				cur = first ? t : conj(cur, t);
				first = false;
			}
			MMap m = project_vars(cur, seq(np + 2 * nx, nx * (k - 1)), np, nx, nx);
			check(c, "fixed_power_val", r, map_sp(base, X, X), [&](const Pt &p) { return m.has(p); }, how, 150);
			break; }
		case 41: { // constructors from sets
			Set s = gen_set(c, set_sp(base, X), o), t = gen_set(c, set_sp(base, Y), o);
			MMap ms = extract(c, s.g()), mt = extract(c, t.g());
			int k = c.t.below(5);
			how = "s = " + S(s) + "\nt = " + S(t) + "\nconstructor" + ints({k});
			c.log << how << "\n";
			switch (k) {
			case 0: check(c, "from_domain_and_range", R(c, isl_map_from_domain_and_range(s.c(), t.c()), "from_domain_and_range"), map_sp(base, X, Y),
				[&](const Pt &p) { return ms.has(P(p, 0, np + nx)) && mt.has(cat(par(p), P(p, np + nx, ny))); }, how); break;
			case 1: check(c, "from_domain", R(c, isl_map_from_domain(s.c()), "from_domain"), map_sp(base, X, flat_tup(0)), [&](const Pt &p) { return ms.has(p); }, how); break;
			case 2: check(c, "from_range", R(c, isl_map_from_range(s.c()), "from_range"), map_sp(base, flat_tup(0), X), [&](const Pt &p) { return ms.has(p); }, how); break;
			case 3: check(c, "set_identity", R(c, isl_set_identity(s.c()), "isl_set_identity"), map_sp(base, X, X),
				[&](const Pt &p) { return ms.has(P(p, 0, np + nx)) && P(p, np, nx) == P(p, np + nx, nx); }, how); break;
			case 4: { Space ss(isl_set_get_space(s.g()));
				check(c, "identity", R(c, isl_map_identity(isl_space_map_from_set(ss.r())), "isl_map_identity"), map_sp(base, X, X),
					[&](const Pt &p) { return P(p, np, nx) == P(p, np + nx, nx); }, how); break; }
			}
			break; }
		case 42: case 43: { // Boolean operations on relations
			Rel a = rel(c, base, X, Y, o), b = rel(c, base, X, Y, o);
			int k = c.t.below(5);
			how = "a = " + S(a.m) + "\nb = " + S(b.m) + "\nbool" + ints({k});
			c.log << how << "\n";
			Map r;
			switch (k) {
			case 0: r = R(c, isl_map_union(a.m.c(), b.m.c()), "isl_map_union"); break;
			case 1: r = R(c, isl_map_intersect(a.m.c(), b.m.c()), "isl_map_intersect"); break;
			case 2: r = R(c, isl_map_subtract(a.m.c(), b.m.c()), "isl_map_subtract"); break;
			case 3: if (n_basic(a.m) > 3) continue; r = R(c, isl_map_complement(a.m.c()), "isl_map_complement"); break;
			case 4: r = R(c, isl_map_union_disjoint(isl_map_subtract(a.m.c(), b.m.c()), b.m.c()), "isl_map_union_disjoint"); break;
			}
			check(c, "map_boolean", r, map_sp(base, X, Y), [&](const Pt &p) {
				bool u = a.M.has(p), v = b.M.has(p);
				switch (k) { case 0: return u || v; case 1: return u && v; case 2: return u && !v; case 3: return !u; default: return u || v; } }, how);
			break; }
		case 44: case 45: { // removing / inserting / moving dimensions
			Rel a = rel(c, base, X, Y, o);
			int k = c.t.below(4);
			bool in = c.t.chance(1, 2);
			int tot = in ? nx : ny, off = in ? np : np + nx;
			isl_dim_type ty = in ? isl_dim_in : isl_dim_out;
			if (k == 0) {
				if (!tot) continue;
				int f = c.t.below(tot), n = 1 + c.t.below(tot - f);
				how = "a = " + S(a.m) + "\nproject_out" + ints({in, f, n});
				c.log << how << "\n";
				Map r = R(c, isl_map_project_out(a.m.c(), ty, f, n), "isl_map_project_out");
				MMap e = project_vars(a.M, seq(off + f, n), np, in ? nx - n : nx, in ? ny : ny - n);
				check(c, "map_project_out", r, map_sp(base, in ? flat_tup(nx - n) : X, in ? Y : flat_tup(ny - n)), [&](const Pt &p) { return e.has(p); }, how, 300);
			} else if (k == 1) {
				int f = c.t.below(tot + 1), n = 1 + c.t.below(2);
				how = "a = " + S(a.m) + "\ninsert_dims" + ints({in, f, n});
				c.log << how << "\n";
				Map r = R(c, isl_map_insert_dims(a.m.c(), ty, f, n), "isl_map_insert_dims");
				check(c, "map_insert_dims", r, map_sp(base, in ? flat_tup(nx + n) : X, in ? Y : flat_tup(ny + n)), [&](const Pt &p) { Pt q = p; q.erase(q.begin() + off + f, q.begin() + off + f + n); return a.M.has(q); }, how);
			} else if (k == 2) {
				if (!tot) continue;
				int f = c.t.below(tot), n = 1 + c.t.below(tot - f);
				how = "a = " + S(a.m) + "\neliminate" + ints({in, f, n});
				c.log << how << "\n";
				Map r = R(c, isl_map_eliminate(a.m.c(), ty, f, n), "isl_map_eliminate");
				MMap e = project_vars(a.M, seq(off + f, n), np, in ? nx - n : nx, in ? ny : ny - n);
				check(c, "map_eliminate", r, map_sp(base, X, Y), [&](const Pt &p) { Pt q = p; q.erase(q.begin() + off + f, q.begin() + off + f + n); return e.has(q); }, how, 300);
			} else {
				if (!tot) continue;
				int f = c.t.below(tot), n = 1 + c.t.below(tot - f), dn = in ? ny : nx, d = c.t.below(dn + 1);
				how = "a = " + S(a.m) + "\nmove_dims" + ints({in, f, n, d});
				c.log << how << "\n";
				Map r = R(c, isl_map_move_dims(a.m.c(), in ? isl_dim_out : isl_dim_in, d, ty, f, n), "isl_map_move_dims");
				int ri = in ? nx - n : nx + n, ro = in ? ny + n : ny - n;
				check(c, "map_move_dims", r, map_sp(base, flat_tup(ri), flat_tup(ro)), [&](const Pt &p) {
					Pt x = P(p, np, ri), y = P(p, np + ri, ro);
					Pt &dst = in ? y : x, &src = in ? x : y;
					Pt mv(dst.begin() + d, dst.begin() + d + n);
					dst.erase(dst.begin() + d, dst.begin() + d + n);
					src.insert(src.begin() + f, mv.begin(), mv.end());
					return a.M.has(cat(cat(par(p), x), y)); }, how);
			}
			break; }
		case 46: { // fixing and bounding
			Rel a = rel(c, base, X, Y, o);
			int nv = nx + ny;
			if (!nv) continue;
			int u = c.t.below(nv), v = c.t.range(-5, 5), k = c.t.below(3);
			isl_dim_type ty = u < nx ? isl_dim_in : isl_dim_out;
			int ps = u < nx ? u : u - nx;
			how = "a = " + S(a.m) + "\nfix/bound" + ints({u, v, k});
			c.log << how << "\n";
			Map r = k == 0 ? (c.t.chance(1, 2) ? R(c, isl_map_fix_si(a.m.c(), ty, ps, v), "fix") : R(c, isl_map_fix_val(a.m.c(), ty, ps, isl_val_int_from_si(c.ctx, v)), "fix"))
				: k == 1 ? R(c, isl_map_lower_bound_si(a.m.c(), ty, ps, v), "lower") : R(c, isl_map_upper_bound_val(a.m.c(), ty, ps, isl_val_int_from_si(c.ctx, v)), "upper");
			check(c, "map_fix_bound", r, map_sp(base, X, Y), [&](const Pt &p) { int64_t x = p[np + u]; return a.M.has(p) && (k == 0 ? x == v : k == 1 ? x >= v : x <= v); }, how);
			break; }
		case 47: { // functions as relations
			int k = c.t.below(3);
			Sp fs = map_sp(base, X, Y);
			FFun f; Map r;
			if (k == 0) { MAff m = gen_maff(c, fs, 2); f = fn(c, m.g()); how = "f = " + S(m); r = R(c, isl_map_from_multi_aff(m.c()), "isl_map_from_multi_aff"); }
			else if (k == 1) { PMA m = gen_pma(c, fs); f = fn(c, m.g()); how = "f = " + S(m); r = R(c, isl_map_from_pw_multi_aff(m.c()), "isl_map_from_pw_multi_aff"); }
			else { MPA m = gen_mpa(c, fs); f = fn(c, m.g()); how = "f = " + S(m); r = R(c, isl_map_from_multi_pw_aff(m.c()), "isl_map_from_multi_pw_aff"); }
			how += "\nas map";
			c.log << how << "\n";
			check(c, "map_from_function", r, fs, [&](const Pt &p) {
				Pt x = P(p, 0, np + nx);
				if (!f.def(x)) return false;
				auto v = f.eval(x);
				for (int i = 0; i < ny; ++i) if (v[i].v != Z(p[np + nx + i])) return false;
				return true; }, how, 900);
			break; }
		case 48: { // bounds by functions on the domain
			Rel a = rel(c, base, X, Y, o);
			MPA m = gen_mpa(c, map_sp(base, X, Y));
			FFun f = fn(c, m.g());
			bool lower = c.t.chance(1, 2);
			how = "a = " + S(a.m) + "\nf = " + S(m) + "\nbound_multi_pw_aff" + ints({lower});
			c.log << how << "\n";
			Map r = lower ? R(c, isl_map_lower_bound_multi_pw_aff(a.m.c(), m.c()), "lower_bound_multi_pw_aff") : R(c, isl_map_upper_bound_multi_pw_aff(a.m.c(), m.c()), "upper_bound_multi_pw_aff");
			check(c, "map_bound_multi_pw_aff", r, map_sp(base, X, Y), [&](const Pt &p) {
				Pt x = P(p, 0, np + nx);
				if (!a.M.has(p) || !f.def(x)) return false;
				auto v = f.eval(x);
				for (int i = 0; i < ny; ++i) if (lower ? Z(p[np + nx + i]) < v[i].v : Z(p[np + nx + i]) > v[i].v) return false;
				return true; }, how, 900);
			break; }
		case 49: { // binding dimensions to parameters
			if (!nx) continue;
			Rel a = rel(c, base, X, Y, o);
			isl_id_list *l = isl_id_list_alloc(c.ctx, nx);
			Sp es = base;
			for (int i = 0; i < nx; ++i) { std::string nmx = "b" + std::to_string(i); l = isl_id_list_add(l, isl_id_alloc(c.ctx, nmx.c_str(), NULL)); es.params.push_back(nmx); }
			H<isl_multi_id> tuple(isl_multi_id_from_id_list(mk_space(c, set_sp(base, X)), l));
			how = "a = " + S(a.m) + "\nbind_domain";
			c.log << how << "\n";
			Set r = R(c, isl_map_bind_domain(a.m.c(), tuple.c()), "isl_map_bind_domain");
			check(c, "bind_domain", r, set_sp(es, Y), [&](const Pt &p) { return a.M.has(p); }, how);
			// and back: unbinding as domain
			Map back = R(c, isl_set_unbind_params_insert_domain(r.c(), tuple.c()), "isl_set_unbind_params_insert_domain");
			check(c, "unbind_params", back, map_sp(base, X, Y), [&](const Pt &p) { return a.M.has(p); }, how + ", unbind");
			break; }
		}
	}
}
} // namespace

Prop vp::the_prop = {"C02",
	"Case = 1-2 applications of one of ~60 relation operations to random relations (0-2 parameters, tuples of 0-2 dimensions, nested tuples, strides, "
	"existentials, unions, scrambled representations); the result's space is compared with the prescribed one and its elements point by point with the relational "
	"definition (composition and projection decided by an independent Omega test). Non-trivial: some compared window contains both members and non-members.",
	run, 40000, 2000000};
