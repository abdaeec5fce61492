#include "notation.h"
#include <cstring>
namespace vp {
namespace nt {

struct Tok { char t; std::string s; size_t pos; };   // t: i ident, n number, s string, p punctuation, 0 end
static std::vector<Tok> lex(const std::string &s)
{
	std::vector<Tok> o;
	size_t i = 0;
	while (i < s.size()) {
		unsigned char ch = s[i];
		if (isspace(ch)) { ++i; continue; }
		if (ch == '#') { while (i < s.size() && s[i] != '\n') ++i; continue; }
		size_t b = i;
		if (isdigit(ch)) { while (i < s.size() && isdigit((unsigned char)s[i])) ++i; o.push_back({'n', s.substr(b, i - b), b}); continue; }
		if (isalpha(ch) || ch == '_') { while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_' || s[i] == '\'' || s[i] == '$')) ++i; o.push_back({'i', s.substr(b, i - b), b}); continue; }
		if (ch == '"') { ++i; while (i < s.size() && s[i] != '"') ++i; if (i >= s.size()) throw ParseEx{"unterminated string", b}; ++i; o.push_back({'i', s.substr(b + 1, i - b - 2), b}); continue; }
		static const char *const punct[] = {"<<=", ">>=", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "->", "**", ":=", "=>", nullptr};
		bool hit = false;
		for (int k = 0; punct[k]; ++k) if (!s.compare(i, strlen(punct[k]), punct[k])) { o.push_back({'p', punct[k], b}); i += strlen(punct[k]); hit = true; break; }
		if (hit) continue;
		o.push_back({'p', std::string(1, ch), b});
		++i;
	}
	o.push_back({0, "", s.size()});
	return o;
}

static E mk(Expr::K k, std::vector<E> ch = {}) { auto e = std::make_shared<Expr>(); e->k = k; e->ch = std::move(ch); return e; }
static E num(const mpq_class &q) { auto e = mk(Expr::NUM); e->q = q; return e; }
static F mkf(Form::K k, std::vector<F> ch = {}) { auto f = std::make_shared<Form>(); f->k = k; f->ch = std::move(ch); return f; }

static bool keyword(const std::string &s)
{
	static const std::set<std::string> k = {"exists", "and", "or", "not", "implies", "infty", "infinity", "NaN", "min", "max", "rat", "true", "false", "ceild", "floord", "mod", "ceil", "floor"};
	std::string l;
	for (char ch : s) l += tolower(ch);
	return k.count(l) || k.count(s);
}
static std::string low(const std::string &s) { std::string l; for (char ch : s) l += tolower(ch); return l; }

struct P {
	std::vector<Tok> t;
	size_t p = 0;
	bool is(const char *s, int k = 0) const { return t[p + k].t == 'p' && t[p + k].s == s; }
	bool kw(const char *s) const { return t[p].t == 'i' && low(t[p].s) == s; }
	bool eat(const char *s) { if (is(s)) { ++p; return true; } return false; }
	bool eatk(const char *s) { if (kw(s)) { ++p; return true; } return false; }
	[[noreturn]] void bad(const std::string &m) { throw ParseEx{m, t[p].pos}; }
	void want(const char *s) { if (!eat(s)) bad(std::string("expected ") + s); }
	std::string ident() { if (t[p].t != 'i') bad("expected identifier"); return t[p++].s; }

	// ---- expressions
	E sum()
	{
		E r;
		if (eat("-")) r = mk(Expr::NEG, {term()}); else { eat("+"); r = term(); }
		for (;;) {
			if (eat("+")) r = mk(Expr::ADD, {r, term()});
			else if (eat("-")) r = mk(Expr::SUB, {r, term()});
			else return r;
		}
	}
	bool starts_factor() const
	{
		if (t[p].t == 'n') return true;
		if (t[p].t == 'i') { std::string l = low(t[p].s); return !keyword(t[p].s) || l == "floor" || l == "floord" || l == "ceil" || l == "ceild" || l == "min" || l == "max"; }
		return is("(");
	}
	E term()
	{
		E r = unary();
		for (;;) {
			if (eat("*")) r = mk(Expr::MUL, {r, unary()});
			else if (eat("/")) r = mk(Expr::DIV, {r, unary()});
			else if (kw("mod") || is("%")) { ++p; r = mk(Expr::MOD, {r, unary()}); }
			else if (r->k == Expr::NUM && starts_factor() && t[p - 1].t == 'n') r = mk(Expr::MUL, {r, unary()});
			else return r;
		}
	}
	E unary()
	{
		if (eat("-")) return mk(Expr::NEG, {unary()});
		E r = primary();
		while (is("^") || is("**")) {
			++p;
			if (t[p].t != 'n') bad("exponent");
			r = mk(Expr::POW, {r, num(mpq_class(t[p].s))});
			++p;
		}
		return r;
	}
	E primary()
	{
		if (t[p].t == 'n') return num(mpq_class(t[p++].s));
		if (t[p].t == 'i') {
			std::string l = low(t[p].s);
			if (l == "floor" || l == "ceil") {
				++p; want("("); E e = sum(); want(")");
				return mk(l == "floor" ? Expr::FLOOR : Expr::CEIL, {e});
			}
			if (l == "floord" || l == "ceild") {
				++p; want("("); E a = sum(); want(","); E b = sum(); want(")");
				return mk(l == "floord" ? Expr::FLOOR : Expr::CEIL, {mk(Expr::DIV, {a, b})});
			}
			if (l == "min" || l == "max") {
				++p; want("(");
				std::vector<E> v; v.push_back(ternary());
				while (eat(",")) v.push_back(ternary());
				want(")");
				return mk(l == "min" ? Expr::MIN : Expr::MAX, v);
			}
			if (l == "infty" || l == "infinity") { ++p; return mk(Expr::INFTY); }
			if (t[p].s == "NaN" || l == "nan") { ++p; return mk(Expr::NAN_); }
			if (keyword(t[p].s)) bad("unexpected keyword");
			E e = mk(Expr::VAR); e->name = t[p++].s;
			return e;
		}
		if (eat("[")) { E e = sum(); want("]"); return mk(Expr::FLOOR, {e}); }
		if (eat("(")) {
			E e = ternary();
			if (is(":") || is(";")) {
				E r = mk(Expr::PIECES);
				r->ch.push_back(e);
				for (;;) {
					r->fs.push_back(eat(":") ? formula() : mkf(Form::TRUE_));
					if (!eat(";")) break;
					r->ch.push_back(ternary());
				}
				want(")");
				return r;
			}
			want(")");
			return e;
		}
		bad("expected expression");
	}
	E ternary()
	{
		size_t b = p;
		try {
			F f = formula();
			if (eat("?")) {
				E x = ternary(); want(":"); E y = ternary();
				E r = mk(Expr::COND, {x, y}); r->fs.push_back(f);
				return r;
			}
		} catch (ParseEx &) {}
		p = b;
		return sum();
	}

	// ---- formulas
	F formula()
	{
		F l = disj();
		if (eatk("implies") || eat("=>")) { F r = formula(); return mkf(Form::IMPL, {l, r}); }
		return l;
	}
	F disj() { F r = conj(); while (eatk("or") || eat("||")) r = mkf(Form::OR, {r, conj()}); return r; }
	F conj() { F r = fprim(); while (eatk("and") || eat("&&")) r = mkf(Form::AND, {r, fprim()}); return r; }
	bool cmpop() const
	{
		if (t[p].t != 'p') return false;
		static const std::set<std::string> o = {"<=", ">=", "<", ">", "=", "==", "!=", "<<", "<<=", ">>", ">>="};
		return o.count(t[p].s);
	}
	F chain()
	{
		std::vector<std::vector<E>> l;
		std::vector<std::string> ops;
		auto list = [&]() { std::vector<E> v; v.push_back(sum()); while (eat(",")) v.push_back(sum()); return v; };
		l.push_back(list());
		if (!cmpop()) bad("expected comparison");
		F r;
		while (cmpop()) {
			std::string op = t[p++].s;
			auto n = list();
			F f;
			if (op == "<<" || op == "<<=" || op == ">>" || op == ">>=") {
				f = mkf(Form::LEX); f->op = op; f->a = l.back(); f->b = n;
			} else for (auto &x : l.back()) for (auto &y : n) {
				F g = mkf(Form::CMP); g->op = op == "==" ? "=" : op; g->a = {x}; g->b = {y};
				f = f ? mkf(Form::AND, {f, g}) : g;
			}
			r = r ? mkf(Form::AND, {r, f}) : f;
			l.push_back(n);
		}
		return r;
	}
	F fprim()
	{
		if (eatk("true")) return mkf(Form::TRUE_);
		if (eatk("false")) return mkf(Form::FALSE_);
		if (eatk("not") || eat("!")) return mkf(Form::NOT, {fprim()});
		if (eatk("exists")) {
			bool par = eat("(");
			F f = mkf(Form::EXISTS);
			for (;;) {
				std::string n = ident();
				E e;
				if (eat("=")) e = sum();
				f->ex.push_back({n, e});
				if (!eat(",")) break;
			}
			want(":");
			f->ch.push_back(formula());
			if (par) want(")");
			return f;
		}
		size_t b = p, far = 0;
		std::string msg;
		try { return chain(); } catch (ParseEx &e) { far = e.pos; msg = e.msg; }
		p = b;
		if (eat("(")) { F f = formula(); want(")"); return f; }
		throw ParseEx{msg, far};
	}

	// ---- tuples
	void entries(Tuple &u)
	{
		if (eat("]")) return;
		for (;;) {
			Entry en;
			if (eat("*")) en.star = true;
			else {
				if (t[p].t == 'i' && !keyword(t[p].s) && is("=", 1)) { en.name = ident(); ++p; }
				else if (t[p].t == 'i' && !keyword(t[p].s) && is(":=", 1)) { en.name = ident(); ++p; }
				en.e = ternary();
			}
			u.en.push_back(en);
			if (!eat(",")) break;
		}
		want("]");
	}
	Tuple tuple()
	{
		Tuple u;
		if (t[p].t == 'i') { u.name = ident(); }
		want("[");
		// nested?
		bool nested = is("[") || (t[p].t == 'i' && is("[", 1));
		if (nested) {
			size_t b = p;
			try {
				Tuple a = tuple();
				want("->");
				Tuple c = tuple();
				want("]");
				u.sub = {a, c};
				return u;
			} catch (ParseEx &) { p = b; }
		}
		entries(u);
		return u;
	}
	bool tuple_start() const { return is("[") || (t[p].t == 'i' && is("[", 1)); }
	Disj disjunct(bool qpoly)
	{
		Disj d;
		if (eat(":")) { if (!is(";") && !is("}")) d.cond = formula(); return d; }
		if (qpoly) {
			size_t b = p;
			if (tuple_start()) {
				try { d.in = tuple(); d.has_in = true; if (is("->") && tuple_start_at(p + 1)) { ++p; Tuple r = tuple(); Tuple w; w.sub = {d.in, r}; d.in = w; } want("->"); }
				catch (ParseEx &) { p = b; d.in = Tuple(); d.has_in = false; }
			}
			d.is_expr = true;
			d.e = sum();
		} else {
			Tuple a = tuple();
			if (eat("->")) { d.has_in = true; d.in = a; d.out = tuple(); } else d.out = a;
			d.has_out = true;
		}
		if (eat(":") && !is(";") && !is("}")) d.cond = formula();
		return d;
	}
	bool tuple_start_at(size_t q) const { return (t[q].t == 'p' && t[q].s == "[") || (t[q].t == 'i' && t[q + 1].t == 'p' && t[q + 1].s == "["); }
	Obj obj(bool qpoly)
	{
		Obj o;
		if (is("[")) {
			++p;
			if (!eat("]")) {
				for (;;) {
					std::string n = ident();
					E e;
					if (eat("=")) e = sum();
					o.params.push_back({n, e});
					if (!eat(",")) break;
				}
				want("]");
			}
			want("->");
		}
		want("{");
		if (!eat("}")) {
			for (;;) {
				o.d.push_back(disjunct(qpoly));
				if (!eat(";")) break;
			}
			want("}");
		}
		if (t[p].t) bad("trailing text");
		return o;
	}
};

Obj parse_obj(const std::string &s, bool qpoly) { P p; p.t = lex(s); p.t.push_back({0, "", s.size()}); p.t.push_back({0, "", s.size()}); return p.obj(qpoly); }

static PV undef() { return pspec(3); }
PV eval(const E &e, const Env &env)
{
	switch (e->k) {
	case Expr::NUM: return pval(e->q);
	case Expr::VAR: { auto i = env.find(e->name); if (i == env.end()) throw ParseEx{"unknown identifier " + e->name, 0}; return i->second; }
	case Expr::INFTY: return pspec(1);
	case Expr::NAN_: return pspec(2);
	case Expr::COND: return eval(e->ch[eval(e->fs[0], env) ? 0 : 1], env);
	case Expr::PIECES: {
		for (size_t i = 0; i < e->ch.size(); ++i) if (eval(e->fs[i], env)) return eval(e->ch[i], env);
		return undef();
	}
	default: break;
	}
	std::vector<PV> v;
	for (auto &x : e->ch) { v.push_back(eval(x, env)); if (v.back().k == 3) return undef(); }
	switch (e->k) {
	case Expr::ADD: return v[0] + v[1];
	case Expr::SUB: return v[0] + neg(v[1]);
	case Expr::NEG: return neg(v[0]);
	case Expr::MUL: return v[0] * v[1];
	case Expr::DIV: if (v[1].k || v[1].v == 0 || v[0].k) throw Unsupported{"division"}; return pval(mpq_class(v[0].v / v[1].v));
	case Expr::FLOOR: if (v[0].k) throw Unsupported{"floor"}; return pval(mpq_class(fdiv(v[0].v.get_num(), v[0].v.get_den())));
	case Expr::CEIL: if (v[0].k) throw Unsupported{"ceil"}; return pval(mpq_class(cdiv(v[0].v.get_num(), v[0].v.get_den())));
	case Expr::MOD: {
		if (v[0].k || v[1].k || v[1].v <= 0) throw Unsupported{"mod"};
		mpq_class q = v[0].v / v[1].v;
		return pval(mpq_class(v[0].v - v[1].v * mpq_class(fdiv(q.get_num(), q.get_den()))));
	}
	case Expr::MIN: { PV r = v[0]; for (auto &x : v) { if (r.k == 2 || x.k == 2) return pspec(2); if (pless(x, r)) r = x; } return r; }
	case Expr::MAX: { PV r = v[0]; for (auto &x : v) { if (r.k == 2 || x.k == 2) return pspec(2); if (pless(r, x)) r = x; } return r; }
	case Expr::POW: { PV r = pval(1); for (int i = 0; i < e->ch[1]->q.get_num().get_si(); ++i) r = r * v[0]; return r; }
	default: break;
	}
	throw Unsupported{"expression"};
}
static int cmp(const PV &a, const PV &b) { if (a.k >= 2 || b.k >= 2) throw Unsupported{"comparison"}; return pless(a, b) ? -1 : pless(b, a) ? 1 : 0; }
static bool holds(const std::string &op, int s)
{
	if (op == "=") return s == 0;
	if (op == "!=") return s != 0;
	if (op == "<=" || op == "<<=") return s <= 0;
	if (op == ">=" || op == ">>=") return s >= 0;
	if (op == "<" || op == "<<") return s < 0;
	return s > 0;
}

// ---- satisfiability of a formula in unknowns, with known values substituted
struct Lin { mpq_class c; std::map<int, mpq_class> x; };
struct Conj { std::vector<Lin> eq, ge; };
typedef std::vector<Conj> DNF;
struct Comp {
	const Env &env;
	std::map<std::string, Lin> scope;
	int n = 0;
	Conj side;
	Comp(const Env &e) : env(e) {}
	Lin lin(const E &e)
	{
		Lin r;
		switch (e->k) {
		case Expr::NUM: r.c = e->q; return r;
		case Expr::VAR: {
			auto i = scope.find(e->name);
			if (i != scope.end()) return i->second;
			PV v = eval(e, env);
			if (v.k) throw Unsupported{"special value"};
			r.c = v.v;
			return r;
		}
		case Expr::ADD: case Expr::SUB: {
			r = lin(e->ch[0]); Lin b = lin(e->ch[1]);
			int s = e->k == Expr::ADD ? 1 : -1;
			r.c += s * b.c;
			for (auto &k : b.x) { r.x[k.first] += s * k.second; }
			return r;
		}
		case Expr::NEG: return scale(lin(e->ch[0]), -1);
		case Expr::MUL: {
			Lin a = lin(e->ch[0]), b = lin(e->ch[1]);
			if (cst(a)) return scale(b, a.c);
			if (cst(b)) return scale(a, b.c);
			throw Unsupported{"product"};
		}
		case Expr::DIV: { Lin a = lin(e->ch[0]), b = lin(e->ch[1]); if (!cst(b) || b.c == 0) throw Unsupported{"division"}; return scale(a, mpq_class(1 / b.c)); }
		case Expr::FLOOR: return fl(lin(e->ch[0]));
		case Expr::CEIL: return scale(fl(scale(lin(e->ch[0]), -1)), -1);
		case Expr::MOD: {
			Lin a = lin(e->ch[0]), b = lin(e->ch[1]);
			if (!cst(b) || b.c <= 0) throw Unsupported{"mod"};
			Lin q = scale(fl(scale(a, mpq_class(1 / b.c))), -b.c);
			q.c += a.c;
			for (auto &k : a.x) q.x[k.first] += k.second;
			return q;
		}
		default: throw Unsupported{"piecewise expression in exists"};
		}
	}
	bool cst(const Lin &l) { for (auto &k : l.x) if (k.second != 0) return false; return true; }
	Lin scale(Lin l, const mpq_class &f) { l.c *= f; for (auto &k : l.x) k.second *= f; return l; }
	Lin fl(Lin a)
	{
		Lin r;
		if (cst(a)) { r.c = mpq_class(fdiv(a.c.get_num(), a.c.get_den())); return r; }
		mpz_class d = a.c.get_den();
		for (auto &k : a.x) { mpz_class g; mpz_lcm(g.get_mpz_t(), d.get_mpz_t(), k.second.get_den().get_mpz_t()); d = g; }
		int q = n++;
		r.x[q] = 1;
		// 0 <= d a - d q <= d - 1
		Lin lo = scale(a, mpq_class(d));
		lo.x[q] -= mpq_class(d);
		Lin hi = scale(lo, -1);
		hi.c += mpq_class(d) - 1;
		side.ge.push_back(lo);
		side.ge.push_back(hi);
		return r;
	}
	Lin diff(const E &a, const E &b) { return lin(mk(Expr::SUB, {a, b})); }
	static DNF both(const DNF &a, const DNF &b)
	{
		DNF r;
		for (auto &x : a) for (auto &y : b) {
			Conj z = x;
			z.eq.insert(z.eq.end(), y.eq.begin(), y.eq.end());
			z.ge.insert(z.ge.end(), y.ge.begin(), y.ge.end());
			r.push_back(z);
		}
		if (r.size() > 64) throw Unsupported{"too many disjuncts"};
		return r;
	}
	static DNF either(DNF a, const DNF &b) { a.insert(a.end(), b.begin(), b.end()); if (a.size() > 64) throw Unsupported{"too many disjuncts"}; return a; }
	// integrality-based strictness: expressions in constraints are scaled to integers
	Lin integer(Lin a)
	{
		mpz_class d = a.c.get_den();
		for (auto &k : a.x) { mpz_class g; mpz_lcm(g.get_mpz_t(), d.get_mpz_t(), k.second.get_den().get_mpz_t()); d = g; }
		return scale(a, mpq_class(d));
	}
	DNF form(const F &f, bool neg)
	{
		switch (f->k) {
		case Form::TRUE_: return neg ? DNF{} : DNF{Conj()};
		case Form::FALSE_: return neg ? DNF{Conj()} : DNF{};
		case Form::NOT: return form(f->ch[0], !neg);
		case Form::AND: { DNF a = form(f->ch[0], neg), b = form(f->ch[1], neg); return neg ? either(a, b) : both(a, b); }
		case Form::OR: { DNF a = form(f->ch[0], neg), b = form(f->ch[1], neg); return neg ? both(a, b) : either(a, b); }
		case Form::IMPL: { DNF a = form(f->ch[0], !neg), b = form(f->ch[1], neg); return neg ? both(a, b) : either(a, b); }
		case Form::EXISTS: {
			if (neg) throw Unsupported{"negated exists"};
			auto save = scope;
			std::vector<Lin> defs;
			DNF r{Conj()};
			for (auto &x : f->ex) { Lin l; l.x[n++] = 1; scope[x.first] = l; }
			size_t i = 0;
			for (auto &x : f->ex) {
				(void)i;
				if (!x.second) continue;
				Lin d = lin(x.second), v = scope[x.first];
				d.c -= v.c;
				for (auto &k : v.x) d.x[k.first] -= k.second;
				Conj z; z.eq.push_back(integer(d));
				r = both(r, DNF{z});
			}
			r = both(r, form(f->ch[0], false));
			scope = save;
			return r;
		}
		case Form::CMP: {
			Lin d = integer(diff(f->a[0], f->b[0]));       // a - b
			std::string op = f->op;
			if (neg) { static const std::map<std::string, std::string> inv = {{"=", "!="}, {"!=", "="}, {"<=", ">"}, {">", "<="}, {"<", ">="}, {">=", "<"}}; op = inv.at(op); }
			auto ge = [&](Lin l, int c) { l.c += c; Conj z; z.ge.push_back(l); return z; };
			if (op == "=") { Conj z; z.eq.push_back(d); return {z}; }
			if (op == ">=") return {ge(d, 0)};
			if (op == ">") return {ge(d, -1)};
			if (op == "<=") return {ge(scale(d, -1), 0)};
			if (op == "<") return {ge(scale(d, -1), -1)};
			return {ge(d, -1), ge(scale(d, -1), -1)};
		}
		default: throw Unsupported{"formula in exists"};
		}
	}
	bool sat(const Conj &z)
	{
		std::vector<ZRow> eq, ge;
		auto row = [&](const Lin &l0) {
			Lin l = integer(l0);
			ZRow r(n + 1);
			r[0] = l.c.get_num();
			for (auto &k : l.x) r[1 + k.first] = k.second.get_num();
			return r;
		};
		for (auto &l : z.eq) eq.push_back(row(l));
		for (auto &l : z.ge) ge.push_back(row(l));
		for (auto &l : side.ge) ge.push_back(row(l));
		return omega_sat(n, eq, ge);
	}
};

bool eval(const F &f, const Env &env)
{
	if (!f) return true;
	switch (f->k) {
	case Form::TRUE_: return true;
	case Form::FALSE_: return false;
	case Form::NOT: return !eval(f->ch[0], env);
	case Form::AND: return eval(f->ch[0], env) && eval(f->ch[1], env);
	case Form::OR: return eval(f->ch[0], env) || eval(f->ch[1], env);
	case Form::IMPL: return !eval(f->ch[0], env) || eval(f->ch[1], env);
	case Form::CMP: {
		PV a = eval(f->a[0], env), b = eval(f->b[0], env);
		if (a.k == 3 || b.k == 3) return false;
		return holds(f->op, cmp(a, b));
	}
	case Form::LEX: {
		int s = 0;
		if (f->a.size() != f->b.size()) throw Unsupported{"lex sizes"};
		for (size_t i = 0; i < f->a.size() && !s; ++i) s = cmp(eval(f->a[i], env), eval(f->b[i], env));
		return holds(f->op, s);
	}
	case Form::EXISTS: {
		bool all = true;
		for (auto &x : f->ex) if (!x.second) all = false;
		if (all) {
			Env e2 = env;
			for (auto &x : f->ex) {
				PV v = eval(x.second, e2);
				if (v.k) throw Unsupported{"special value"};
				if (v.v.get_den() != 1) return false;
				e2[x.first] = v;
			}
			return eval(f->ch[0], e2);
		}
		Comp cp(env);
		DNF d = cp.form(f, false);
		for (auto &z : d) if (cp.sat(z)) return true;
		return false;
	}
	}
	return false;
}

int dim(const Tuple &t) { return t.sub.empty() ? (int)t.en.size() : dim(t.sub[0]) + dim(t.sub[1]); }
std::string sig(const Tuple &t)
{
	if (t.sub.empty()) return t.name + "[" + std::to_string(t.en.size()) + "]";
	return t.name + "[" + sig(t.sub[0]) + "->" + sig(t.sub[1]) + "]";
}
std::string sig(const Disj &d)
{
	if (d.is_expr) return d.has_in ? sig(d.in) : ":";
	if (!d.has_out) return ":";
	return (d.has_in ? sig(d.in) + "->" : "") + sig(d.out);
}
bool match(const Tuple &t, const Pt &v, int &from, Env &env)
{
	if (!t.sub.empty()) { bool a = match(t.sub[0], v, from, env), b = match(t.sub[1], v, from, env); return a && b; }
	bool ok = true;
	for (auto &en : t.en) {
		PV x = pval(mpq_class((long)v[from++]));
		if (en.star) continue;
		if (en.name.empty() && en.e->k == Expr::VAR && !env.count(en.e->name)) { env[en.e->name] = x; continue; }
		if (!en.name.empty()) { if (env.count(en.name)) throw Unsupported{"redefined name"}; env[en.name] = x; }
		PV y = eval(en.e, env);
		if (y.k == 3 || y != x) ok = false;
	}
	return ok;
}
void values(const Tuple &t, const Env &env, std::vector<PV> &out)
{
	if (!t.sub.empty()) { values(t.sub[0], env, out); values(t.sub[1], env, out); return; }
	for (auto &en : t.en) { if (en.star || !en.e) throw Unsupported{"output without value"}; out.push_back(eval(en.e, env)); }
}

} // namespace nt
} // namespace vp
