// C14: text output denotes the object and reads back as the same object.
#include "ops.h"
#include "notation.h"
#include <cstring>
#include <isl/schedule.h>

using namespace vp;
#define R_(e) R(c, e, #e)

static std::string take(char *s) { if (!s) return "NULL"; std::string r = s; free(s); return r; }
#include "sig.inc"
// what the library says about one tuple space
struct Part {
	std::string sig;
	std::vector<std::string> params;
	int np = 0, ni = 0, no = 0;
	bool fun = false, qp = false;
	std::function<bool(const Pt &)> has;                  // np + ni + no
	std::function<std::vector<PV>(const Pt &)> val;       // np + ni; empty: undefined
};
static void head(Part &p, isl_space *sp)      // takes
{
	p.params = pnames(sp);
	p.np = p.params.size();
	bool map = isl_space_is_map(sp) == isl_bool_true;
	p.ni = map ? isl_space_dim(sp, isl_dim_in) : 0;
	p.no = isl_space_is_params(sp) == isl_bool_true ? 0 : isl_space_dim(sp, isl_dim_out);
	p.sig = sig_of(sp);
}
template <class T> static Part mem(Case &c, T *m, isl_space *sp)
{
	Part p;
	head(p, sp);
	auto mm = std::make_shared<MMap>(extract(c, m));
	p.has = [mm](const Pt &x) { return mm->has(x); };
	return p;
}
static PV pv(const FV &v) { return v.st == 1 ? pval(v.v) : v.st == 2 ? pspec(2) : pspec(3); }
template <class T> static Part func(Case &c, T *m, isl_space *sp)
{
	Part p;
	head(p, sp);
	p.fun = true;
	auto f = std::make_shared<FFun>(fn(c, m));
	p.val = [f](const Pt &x) { std::vector<PV> r; if (!f->def(x)) return r; for (auto &v : f->eval(x)) r.push_back(pv(v)); return r; };
	return p;
}
static Part poly(Case &c, isl_pw_qpolynomial *q)
{
	Part p;
	isl_space *sp = isl_pw_qpolynomial_get_domain_space(q);
	p.params = pnames(sp);
	p.np = p.params.size();
	p.ni = isl_space_is_params(sp) == isl_bool_true ? 0 : isl_space_dim(sp, isl_dim_set);
	p.sig = sig_set(sp);
	p.fun = p.qp = true;
	auto f = std::make_shared<FPW>(fn_pw(c, q));
	p.val = [f](const Pt &x) { return std::vector<PV>{f->eval(x)}; };
	return p;
}
struct U { Case &c; std::vector<Part> p; };
// false: not a type with an independent reading
static bool library(Case &c, const std::string &t, void *o, std::vector<Part> &out, bool &qp)
{
	U u{c, {}};
	qp = false;
	if (t == "set") u.p.push_back(mem(c, (isl_set *)o, isl_set_get_space((isl_set *)o)));
	else if (t == "basic_set") u.p.push_back(mem(c, (isl_basic_set *)o, isl_basic_set_get_space((isl_basic_set *)o)));
	else if (t == "map") u.p.push_back(mem(c, (isl_map *)o, isl_map_get_space((isl_map *)o)));
	else if (t == "basic_map") u.p.push_back(mem(c, (isl_basic_map *)o, isl_basic_map_get_space((isl_basic_map *)o)));
	else if (t == "union_set") {
		isl_union_set_foreach_set((isl_union_set *)o, [](isl_set *s, void *v) -> isl_stat { U *u = (U *)v; Set h(s); u->p.push_back(mem(u->c, h.g(), isl_set_get_space(h.g()))); return isl_stat_ok; }, &u);
	} else if (t == "union_map") {
		isl_union_map_foreach_map((isl_union_map *)o, [](isl_map *s, void *v) -> isl_stat { U *u = (U *)v; Map h(s); u->p.push_back(mem(u->c, h.g(), isl_map_get_space(h.g()))); return isl_stat_ok; }, &u);
	} else if (t == "aff") u.p.push_back(func(c, (isl_aff *)o, isl_aff_get_space((isl_aff *)o)));
	else if (t == "pw_aff") u.p.push_back(func(c, (isl_pw_aff *)o, isl_pw_aff_get_space((isl_pw_aff *)o)));
	else if (t == "multi_aff") u.p.push_back(func(c, (isl_multi_aff *)o, isl_multi_aff_get_space((isl_multi_aff *)o)));
	else if (t == "pw_multi_aff") u.p.push_back(func(c, (isl_pw_multi_aff *)o, isl_pw_multi_aff_get_space((isl_pw_multi_aff *)o)));
	else if (t == "multi_pw_aff") u.p.push_back(func(c, (isl_multi_pw_aff *)o, isl_multi_pw_aff_get_space((isl_multi_pw_aff *)o)));
	else if (t == "union_pw_multi_aff") {
		isl_union_pw_multi_aff_foreach_pw_multi_aff((isl_union_pw_multi_aff *)o, [](isl_pw_multi_aff *s, void *v) -> isl_stat { U *u = (U *)v; PMA h(s); u->p.push_back(func(u->c, h.g(), isl_pw_multi_aff_get_space(h.g()))); return isl_stat_ok; }, &u);
	} else if (t == "union_pw_aff") {
		isl_union_pw_aff_foreach_pw_aff((isl_union_pw_aff *)o, [](isl_pw_aff *s, void *v) -> isl_stat { U *u = (U *)v; PwAff h(s); u->p.push_back(func(u->c, h.g(), isl_pw_aff_get_space(h.g()))); return isl_stat_ok; }, &u);
	} else if (t == "pw_qpolynomial") { u.p.push_back(poly(c, (isl_pw_qpolynomial *)o)); qp = true; }
	else if (t == "union_pw_qpolynomial") {
		isl_union_pw_qpolynomial_foreach_pw_qpolynomial((isl_union_pw_qpolynomial *)o, [](isl_pw_qpolynomial *s, void *v) -> isl_stat { U *u = (U *)v; PWQ h(s); u->p.push_back(poly(u->c, h.g())); return isl_stat_ok; }, &u);
		qp = true;
	} else return false;
	out = u.p;
	return true;
}
static std::string strv(const std::vector<PV> &v) { if (v.empty()) return "undefined"; std::string r; for (auto &x : v) r += (r.empty() ? "" : ", ") + (x.k == 3 ? std::string("undefined") : str(x)); return r; }

// The object against the meaning of the text.
static bool compare(Case &c, const std::string &t, void *o, const std::string &text, const char *kind)
{
	std::vector<Part> lib;
	bool qp;
	if (text.find("rat:") != std::string::npos) { c.label("rational"); return false; }
	if (!library(c, t, o, lib, qp)) return false;
	if (t == "union_pw_multi_aff" && (text.find("{  ") != std::string::npos || text.find(";  ") != std::string::npos)) { c.label("params:" + t); return false; }
	nt::Obj ob;
	try { ob = nt::parse_obj(text, qp); }
	catch (nt::ParseEx &e) { c.fail(std::string(kind) + "-unreadable", t + ": text is not in the documented notation (" + e.msg + " at " + std::to_string(e.pos) + "): " + text); }
	bool is_union = t.compare(0, 6, "union_") == 0;
	// the range of an affine expression is a single anonymous dimension
	if (t == "aff" || t == "pw_aff") for (auto &p : lib) { size_t k = p.sig.rfind("[1]"); if (k && k != std::string::npos && p.sig[k - 1] != '>') { c.label("named-range:" + t); return false; } }
	for (auto &p : lib) if (std::set<std::string>(p.params.begin(), p.params.end()).size() != p.params.size()) { c.label("duplicate-params"); return false; }
	for (auto &p : lib) for (auto &x : p.params) if (x == "?") { c.label("unnamed-params"); return false; }
	for (auto &p : lib) {
		bool ok = p.params.size() == ob.params.size();
		for (size_t i = 0; ok && i < p.params.size(); ++i) ok = p.params[i] == ob.params[i].first;
		if (!ok) {
			std::string l; for (auto &x : p.params) l += x + " ";
			if (is_union) { c.label("union-params"); return false; }
			c.fail(std::string(kind) + "-params", t + ": parameters are " + l + "in the object, text is " + text);
		}
	}
	std::map<std::string, Part> bysig;
	for (auto &p : lib) bysig[p.sig] = p;
	std::map<std::string, std::vector<const nt::Disj *>> disj;
	for (auto &d : ob.d) disj[nt::sig(d)].push_back(&d);
	for (auto &k : disj) if (!bysig.count(k.first)) {
		if (!is_union) c.fail(std::string(kind) + "-space", t + ": text is in space " + k.first + ", object in " + (lib.empty() ? "none" : lib[0].sig) + ": " + text);
	}
	int nontriv = 0;
	std::set<std::string> sigs;
	for (auto &k : bysig) sigs.insert(k.first);
	for (auto &k : disj) sigs.insert(k.first);
	for (auto &sg : sigs) {
		auto &ds = disj[sg];
		bool in_lib = bysig.count(sg);
		Part p;
		if (in_lib) p = bysig[sg];
		else {
			const nt::Disj &d = *ds[0];
			p.np = ob.params.size();
			p.fun = p.qp = d.is_expr;
			p.ni = d.has_in ? nt::dim(d.in) : 0;
			p.no = d.has_out ? nt::dim(d.out) : 0;
			if (!lib.empty() && lib[0].fun && !p.fun) { if (!d.has_in) { } p.fun = true; }
			p.has = [](const Pt &) { return false; };
			bool q = p.qp;
			p.val = [q](const Pt &) { std::vector<PV> r; if (q) r.push_back(pval(0)); return r; };
		}
		int nv = p.np + p.ni + (p.fun ? 0 : p.no);
		if (nv > 9) { c.label("many-dims"); continue; }
		Window w = make_window(nv, 250);
		for (int r = 0; r < 30 && nv; ++r) { Pt x(nv); for (auto &v : x) v = c.t.range(-12, 12); w.pts.push_back(x); }
		for (auto &x : w.pts) {
			nt::Env env;
			bool dead = false;
			for (int i = 0; i < p.np; ++i) env[ob.params[i].first] = pval(mpq_class((long)x[i]));
			for (int i = 0; i < p.np; ++i) if (ob.params[i].second && nt::eval(ob.params[i].second, env) != env[ob.params[i].first]) dead = true;
			auto describe = [&]() { return t + " at " + str(x) + " (params, in, out) of " + sg; };
			try {
				if (!p.fun) {
					bool want = false;
					for (auto d : ds) {
						nt::Env e = env;
						int from = p.np;
						bool m = !dead;
						if (d->has_in && !nt::match(d->in, x, from, e)) m = false;
						if (d->has_out && !nt::match(d->out, x, from, e)) m = false;
						if (m && nt::eval(d->cond, e)) want = true;
					}
					bool got = p.has(x);
					if (got) nontriv |= 1; else nontriv |= 2;
					if (got != want) c.fail(kind, describe() + ": object says " + (got ? "in" : "not in") + ", the text says " + (want ? "in" : "not in") + "\ntext " + text);
				} else {
					std::vector<PV> got = p.val(x), want;
					bool hit = false;
					if (p.qp) want = {pval(0)};
					for (auto d : ds) {
						nt::Env e = env;
						int from = p.np;
						bool m = !dead;
						if (d->has_in && !nt::match(d->in, x, from, e)) m = false;
						if (!m || !nt::eval(d->cond, e)) continue;
						std::vector<PV> v;
						if (p.qp) v.push_back(nt::eval(d->e, e));
						else if (d->has_out) nt::values(d->out, e, v);
						bool und = false;
						for (auto &y : v) if (y.k == 3) und = true;
						if (und) continue;
						if (hit && v != want) { c.label("overlapping-pieces"); hit = false; want = got; break; }
						hit = true;
						want = v;
					}
					bool gu = false;
					for (auto &y : got) if (y.k == 3) gu = true;
					if (gu) got.clear();
					// a function of no values is defined or not
					if (!p.qp && p.no == 0) { continue; }
					nontriv |= got.empty() ? 2 : 3;
					if (got != want) c.fail(kind, describe() + ": object has value " + strv(got) + ", the text says " + strv(want) + "\ntext " + text);
				}
			} catch (nt::ParseEx &e) {
				c.fail(std::string(kind) + "-unreadable", t + ": " + e.msg + ": " + text);
			} catch (nt::Unsupported &e) { c.label("unsupported:" + e.why); return false; }
		}
		c.step();
	}
	c.label(std::string(kind) + ":" + t);
	if (nontriv == 3) c.nontrivial = true;
	return true;
}

// ---------------------------------------------------------------- objects
#include "reread.inc"
static void objects(Case &c)
{
	OCfg cfg;
	OProg P;
	P.seeds = gen_seeds(c);
	OState A(c.ctx);
	load_seeds(c, P, A);
	int n = c.t.below(8);
	for (size_t i = 0; i < P.seeds.size(); ++i) c.log << "$" << i << " = " << otypes[P.seeds[i].type].name << " " << P.seeds[i].s << "\n";
	for (int k = 0; k < n; ++k) {
		Step s;
		if (!gen_step(c, P, A, cfg, s)) break;
		const Op &op = all_ops[s.op];
		s.out = op.ret == 'o' ? (int)A.p.size() : -1;
		c.log << show(P, s) << "\n";
		void *r = exec(P, A, s);
		clear_error(c);
		if (s.failed || op.ret != 'o') continue;
		bool overlap = strstr(op.name, "gist") && strstr(op.name, "pw_");
		// drops dimensions that the function may depend on
		if (strstr(op.name, "qpolynomial") && strstr(op.name, "drop_dims")) overlap = true;
		// affine hulls do not keep the constraints on the existentials they mention
		if (strstr(op.name, "hull")) overlap = true;
		if (overlap || !well_typed(c.ctx, op.rtype, r)) { otypes[op.rtype].free(r); continue; }
		std::string rs = ostr(op.rtype, r);
		if (rs.size() > 700 || rs == "(no string)") { otypes[op.rtype].free(r); c.label("too-large"); continue; }
		c.log << "    " << rs << "\n";
		A.p.push_back(r);
		A.type.push_back(op.rtype);
		P.slot_type.push_back(op.rtype);
		P.steps.push_back(s);
	}
	for (size_t i = 0; i < A.p.size(); ++i) {
		if (!A.p[i] || A.type[i] < 0) continue;
		const char *t = otypes[A.type[i]].name;
		std::string text = ostr(A.type[i], A.p[i]);
		if (text == "?" || has_weird(text)) continue;
		isl_ctx_reset_operations(c.ctx);
		compare(c, t, A.p[i], text, "printed");
		reread(c, t, A.p[i], text);
	}
}

// ---------------------------------------------------------------- texts
#include "textgen.inc"
static void texts(Case &c)
{
	TG g{c};
	static const char *const types[] = {"set", "map", "union_set", "union_map", "basic_set", "pw_aff", "pw_multi_aff", "multi_pw_aff", "pw_qpolynomial", "aff", "multi_aff", "basic_map", "union_pw_multi_aff", "union_pw_qpolynomial"};
	std::string t = types[c.t.weighted({6, 6, 2, 2, 2, 3, 3, 2, 3, 1, 1, 1, 1, 1})];
	bool uni = t.compare(0, 6, "union_") == 0;
	int np = c.t.weighted({3, 3, 1});
	std::vector<std::string> ps;
	for (int i = 0; i < np; ++i) ps.push_back(i ? "M" : c.t.chance(1, 4) ? "n_1" : "n");
	std::string text;
	if (np || c.t.chance(1, 6)) {
		text = "[";
		for (int i = 0; i < np; ++i) text += (i ? "," + g.osp() : "") + ps[i];
		text += "]" + g.osp() + "->" + g.osp();
	}
	bool map = t == "map" || t == "basic_map" || t == "union_map", qp = t.find("qpoly") != std::string::npos, fun = t.find("aff") != std::string::npos;
	bool basic = t == "basic_set" || t == "basic_map", noc = t == "aff" || t == "multi_aff" || t == "multi_pw_aff";
	Sp sp = map || fun || qp ? gen_map_space(c, 0, 2, t == "aff" || t == "pw_aff" ? 1 : 2, true) : gen_set_space(c, 0, 3, true);
	if (t == "aff" || t == "pw_aff") { sp.out = mk_tup("", 1); }
	text += "{" + g.osp();
	int nd = noc || basic ? 1 : 1 + c.t.weighted({5, 3, 1});
	for (int k = 0; k < nd; ++k) {
		if (k) text += g.osp() + ";" + g.osp();
		g.vars = ps;
		g.cnt = c.t.below(3);
		Tup in = sp.in, out = sp.out;
		if (uni && c.t.chance(1, 2)) { in.name = in.sub.empty() ? "U" : in.name; out.name = map ? "V" : out.name; if (!map && !fun && !qp) out = mk_tup("W", 1 + c.t.below(2)); }
		if (uni && (fun || qp)) in = mk_tup("D" + std::to_string(k), c.t.below(3));
		bool params = !map && !fun && !qp && !uni && c.t.chance(1, 12) && nd == 1;
		if (params) {}
		else if (map || fun || qp) {
			text += g.tuple(in, qp || noc || (nd > 1 && fun)) + g.osp() + "->" + g.osp();
			if (map) text += g.tuple(out, false);
			else if (qp) {
				std::string e = g.term(1);
				int n = c.t.below(3);
				auto pw = [&]() { std::string v = g.var(); return isdigit((unsigned char)v[0]) ? v : v + (c.t.chance(1, 2) ? "^" + std::to_string(1 + c.t.below(3)) : ""); };
				for (int i = 0; i < n; ++i) e += (c.t.chance(1, 2) ? " + " : " - ") + (c.t.chance(1, 3) ? std::to_string(1 + c.t.below(4)) + "/" + std::to_string(1 + c.t.below(4)) + " * " : c.t.chance(1, 2) ? std::to_string(2 + c.t.below(4)) + " * " : "") + pw() + (c.t.chance(1, 2) ? " * " + pw() : "") + (c.t.chance(1, 4) ? " * floor((" + g.lin(0) + ")/" + g.pos() + ")" : "");
				text += e;
			} else {
				// outputs: expressions
				std::function<std::string(const Tup &)> ot = [&](const Tup &x) -> std::string {
					std::string r = x.name + "[";
					if (!x.sub.empty()) return r + ot(x.sub[0]) + " -> " + ot(x.sub[1]) + "]";
					for (int i = 0; i < x.n; ++i) {
						r += i ? "," + g.osp() : "";
						if (t == "multi_pw_aff" && c.t.chance(1, 3)) r += "((" + g.lin(1) + ") : " + g.form(0) + ")";
						else r += "(" + g.lin(2) + ")" + (c.t.chance(1, 6) && t != "multi_pw_aff" ? "/" + g.pos() : "");
					}
					return r + "]";
				};
				text += ot(out);
			}
		} else text += g.tuple(out, false);
		if (noc) continue;
		// pieces of a function on disjoint domains
		bool cond = params || c.t.chance(4, 5) || (nd > 1 && (fun || qp));
		if (!cond) continue;
		text += g.osp() + ":" + g.osp();
		if ((fun || qp) && nd > 1) {
			std::string v = g.vars.empty() ? "0" : g.vars[0];
			text += k == 0 ? v + " < -2" : k == 1 ? "-2 <= " + v + " <= 1" : v + " >= 2";
			if (c.t.chance(1, 2)) text += " and (" + g.form(1) + ")";
		} else if (basic) { text += g.cmp().c_str(); }
		else text += g.form(3);
	}
	text += g.osp() + "}";
	c.log << t << "\n" << text << "\n";
	int ty = type_of(t);
	void *o = otypes[ty].read(c.ctx, text.c_str());
	if (!o) {
		const char *m = isl_ctx_last_error_msg(c.ctx);
		std::string msg = m ? m : "";
		bool quota = isl_ctx_last_error(c.ctx) == isl_error_quota;
		clear_error(c);
		if (quota) c.discard("quota");
		c.label("rejected:" + msg);
		c.discard("rejected");
	}
	struct Fr { int ty; void *o; ~Fr() { otypes[ty].free(o); } } fr{ty, o};
	std::string pr = ostr(ty, o);
	c.log << "read as " << pr << "\n";
	compare(c, t, o, text, "read");
	isl_ctx_reset_operations(c.ctx);
	if (pr.size() < 3000) { compare(c, t, o, pr, "printed"); reread(c, t.c_str(), o, pr); }
	c.label("text:" + t);
}

// ---------------------------------------------------------------- PolyLib
static std::string take_file(Case &c, const std::function<void(isl_printer *&)> &f, int format)
{
	isl_printer *p = isl_printer_to_str(c.ctx);
	p = isl_printer_set_output_format(p, format);
	f(p);
	std::string r = take(isl_printer_get_str(p));
	isl_printer_free(p);
	return r;
}
static void polylib(Case &c)
{
	GenOpt o;
	Sp sp = c.t.chance(1, 2) ? gen_set_space(c, 2, 3) : gen_map_space(c, 2, 2, 2);
	sp.in.name = sp.out.name = "";
	bool ext = sp.is_map || c.t.chance(1, 2);
	Map m = sp.is_map ? gen_map(c, sp, o) : Map();
	Set s = sp.is_map ? Set() : gen_set(c, sp, o);
	std::string text = take_file(c, [&](isl_printer *&p) { p = sp.is_map ? isl_printer_print_map(p, m.g()) : isl_printer_print_set(p, s.g()); }, ext ? ISL_FORMAT_EXT_POLYLIB : ISL_FORMAT_POLYLIB);
	c.log << (sp.is_map ? S(m) : S(s)) << "\n" << text << "\n";
	MMap want = sp.is_map ? extract(c, m.g()) : extract(c, s.g());
	// own reading of the matrices
	std::istringstream in(text);
	std::vector<std::vector<long>> hdr;
	std::string line;
	std::vector<std::string> lines;
	while (std::getline(in, line)) { if (!line.empty()) lines.push_back(line); }
	auto nums = [](const std::string &l) { std::vector<mpz_class> v; std::istringstream is(l); std::string w; while (is >> w) { if (w[0] == '#') break; v.push_back(mpz_class(w)); } return v; };
	size_t at = 0;
	int nd = 1;
	size_t hw = ext ? 6 : 2;
	if (at < lines.size() && nums(lines[at]).size() == 1) nd = nums(lines[at++])[0].get_si();
	int np = sp.np(), ni = sp.ni(), no = sp.no();
	MMap got(np, ni, no);
	bool ok = true;
	for (int k = 0; k < nd && ok; ++k) {
		if (at >= lines.size()) { ok = false; break; }
		auto h = nums(lines[at++]);
		if (h.size() != hw) { ok = false; break; }
		int rows = h[0].get_si(), cols = h[1].get_si();
		int nex;
		if (ext) {
			if (h[2] != no || h[3] != ni || h[5] != np) c.fail("polylib-header", "dimensions in the header do not match the object:\n" + text);
			nex = h[4].get_si();
		} else nex = cols - 2 - np - ni - no;
		if (nex < 0 || cols != 2 + np + ni + no + nex) c.fail("polylib-header", "number of columns does not match:\n" + text);
		MBasic b;
		b.nvar = np + ni + no;
		b.divs.resize(nex);
		for (int r = 0; r < rows && ok; ++r) {
			if (at >= lines.size()) { ok = false; break; }
			auto v = nums(lines[at++]);
			if ((int)v.size() != cols) { ok = false; break; }
			ZRow row(1 + np + ni + no + nex);
			row[0] = v[cols - 1];
			for (int i = 0; i < np; ++i) row[1 + i] = v[1 + no + ni + nex + i];
			for (int i = 0; i < no; ++i) row[1 + np + ni + i] = v[1 + i];
			for (int i = 0; i < ni; ++i) row[1 + np + i] = v[1 + no + i];
			for (int i = 0; i < nex; ++i) row[1 + np + ni + no + i] = v[1 + no + ni + i];
			(v[0] == 0 ? b.eq : b.ineq).push_back(row);
		}
		got.d.push_back(b);
	}
	if (!ok) c.fail("polylib-format", "not in the documented format:\n" + text);
	Window w = make_window(np + ni + no, 300);
	same_on(c, w, "polylib", [&](const Pt &p) { return got.has(p); }, [&](const Pt &p) { return want.has(p); }, [&]() { return (sp.is_map ? S(m) : S(s)) + "\nprinted as\n" + text; });
	int in0 = 0;
	for (auto &p : w.pts) in0 += want.has(p);
	if (in0 && in0 < (int)w.pts.size()) c.nontrivial = true;
	// back
	bool reread_ok = ext || np == 0;    // PolyLib matrices do not tell parameters from dimensions
	if (reread_ok && nd > 0) {
		isl_set *s2 = nullptr;
		isl_map *m2 = nullptr;
		if (sp.is_map) m2 = isl_map_read_from_str(c.ctx, text.c_str()); else s2 = isl_set_read_from_str(c.ctx, text.c_str());
		// existentials cannot be told from dimensions either
		bool amb = false;
		if (!ext) for (auto &b : got.d) if (!b.divs.empty()) amb = true;
		Map hm(m2); Set hs(s2);
		if (amb) { clear_error(c); c.label("polylib-ambiguous"); return; }
		if (!hm && !hs) on_error(c, "read of PolyLib text");
		if (sp.is_map ? isl_map_dim(hm.g(), isl_dim_in) != ni || isl_map_dim(hm.g(), isl_dim_out) != no || isl_map_dim(hm.g(), isl_dim_param) != np : isl_set_dim(hs.g(), isl_dim_set) != no || isl_set_dim(hs.g(), isl_dim_param) != np)
			c.fail("polylib-space", "read back in another space: " + (sp.is_map ? S(hm) : S(hs)) + "\n" + text);
		MMap back = sp.is_map ? extract(c, hm.g()) : extract(c, hs.g());
		same_on(c, w, "polylib-reread", [&](const Pt &p) { return back.has(p); }, [&](const Pt &p) { return want.has(p); }, [&]() { return (sp.is_map ? S(m) : S(s)) + "\nprinted as\n" + text + "\nread as " + (sp.is_map ? S(hm) : S(hs)); });
		c.label(ext ? "ext-polylib-back" : "polylib-back");
	}
}
// values
static void vals(Case &c)
{
	mpz_class n = c.t.range(-200, 200), d = 1 + c.t.below(30);
	if (c.t.chance(1, 4)) n *= mpz_class("123456789012345678901");
	if (c.t.chance(1, 6)) d *= mpz_class("1000000000000000003");
	int k = c.t.weighted({10, 1, 1, 1});
	Val v;
	std::string want;
	mpq_class q(n, d);
	q.canonicalize();
	if (k == 0) { v = R_(mkrat(c.ctx, q)); want = q.get_str(); }
	else if (k == 1) { v = R_(isl_val_infty(c.ctx)); want = "infty"; }
	else if (k == 2) { v = R_(isl_val_neginfty(c.ctx)); want = "-infty"; }
	else { v = R_(isl_val_nan(c.ctx)); want = "NaN"; }
	std::string s = S(v);
	c.log << want << " " << s << "\n";
	if (s != want) c.fail("val", "value " + want + " is printed as " + s);
	std::string in = want;
	if (k == 0 && c.t.chance(1, 2)) { mpz_class f = 1 + c.t.below(9); in = mpz_class(n * f).get_str() + (c.t.chance(1, 2) ? " / " : "/") + mpz_class(d * f).get_str(); }
	Val b = R_(isl_val_read_from_str(c.ctx, in.c_str()));
	bool eq = k == 3 ? isl_val_is_nan(b.g()) == isl_bool_true : isl_val_eq(v.g(), b.g()) == isl_bool_true;
	if (!eq) c.fail("val", in + " is read as " + S(b));
	c.nontrivial = true;
}

namespace vp { extern thread_local isl_ctx *print_ctx; }
static void run(Case &c)
{
	vp::print_ctx = c.ctx;
	try {
		switch (c.t.weighted({40, 45, 12, 3})) {
		case 0: objects(c); break;
		case 1: texts(c); break;
		case 2: polylib(c); break;
		default: vals(c); break;
		}
	} catch (nt::Unsupported &e) { c.discard("unsupported: " + e.why); }
}
Prop vp::the_prop = {"C14", "objects reached by random programs over the public functions: the printed text is read by an independent reader and compared with the object at sampled points, and read back by the library; random texts in many spellings of the documented notation read by the library and by the independent reader; (extended) PolyLib matrices; non-trivial: points both in and out / defined and undefined",
	run, 40000, 800000, 100000};
