#include "ast.h"
#define R_(e) R(c, e, #e)
namespace vp {
std::string S(isl_ast_expr *p) { return take_str(isl_ast_expr_to_C_str(p)); }
std::string S(isl_ast_node *p) { return take_str(isl_ast_node_to_C_str(p)); }
static const char *opn(int o)
{
	switch (o) {
	case isl_ast_expr_op_and: return "and"; case isl_ast_expr_op_and_then: return "and_then"; case isl_ast_expr_op_or: return "or"; case isl_ast_expr_op_or_else: return "or_else";
	case isl_ast_expr_op_max: return "max"; case isl_ast_expr_op_min: return "min"; case isl_ast_expr_op_minus: return "minus"; case isl_ast_expr_op_add: return "add"; case isl_ast_expr_op_sub: return "sub";
	case isl_ast_expr_op_mul: return "mul"; case isl_ast_expr_op_div: return "div"; case isl_ast_expr_op_fdiv_q: return "fdiv_q"; case isl_ast_expr_op_pdiv_q: return "pdiv_q"; case isl_ast_expr_op_pdiv_r: return "pdiv_r";
	case isl_ast_expr_op_zdiv_r: return "zdiv_r"; case isl_ast_expr_op_cond: return "cond"; case isl_ast_expr_op_select: return "select"; case isl_ast_expr_op_eq: return "eq"; case isl_ast_expr_op_le: return "le"; case isl_ast_expr_op_lt: return "lt";
	case isl_ast_expr_op_ge: return "ge"; case isl_ast_expr_op_gt: return "gt"; case isl_ast_expr_op_call: return "call"; case isl_ast_expr_op_access: return "access"; case isl_ast_expr_op_member: return "member"; case isl_ast_expr_op_address_of: return "address_of";
	default: return "?";
	}
}
std::string AEx::str() const
{
	if (k == ID) return id;
	if (k == INT) return v.get_str();
	std::string s = opn(op); s += "(";
	for (size_t i = 0; i < a.size(); ++i) s += (i ? ", " : "") + a[i].str();
	return s + ")";
}
bool AEx::mentions(const std::string &n) const { if (k == ID) return id == n; for (auto &x : a) if (x.mentions(n)) return true; return false; }
static std::string id_name(isl_id *id) { const char *n = id ? isl_id_get_name(id) : nullptr; std::string s = n ? n : ""; isl_id_free(id); return s; }
AEx read_expr(Case &c, isl_ast_expr *e)
{
	AEx r; if (!e) on_error(c, "read_expr");
	switch (isl_ast_expr_get_type(e)) {
	case isl_ast_expr_id: r.k = AEx::ID; r.id = id_name(isl_ast_expr_id_get_id(e)); break;
	case isl_ast_expr_int: r.k = AEx::INT; r.v = take_int(c, isl_ast_expr_int_get_val(e)); break;
	case isl_ast_expr_op: {
		r.k = AEx::OP; r.op = isl_ast_expr_op_get_type(e);
		int n = N(c, isl_ast_expr_op_get_n_arg(e), "isl_ast_expr_op_get_n_arg");
		for (int i = 0; i < n; ++i) { AExpr x = R_(isl_ast_expr_op_get_arg(e, i)); r.a.push_back(read_expr(c, x.g())); }
		break; }
	default: on_error(c, "isl_ast_expr_get_type");
	}
	return r;
}
ANode read_node(Case &c, isl_ast_node *n)
{
	ANode r; if (!n) on_error(c, "read_node");
	r.type = isl_ast_node_get_type(n);
	isl_id *an = isl_ast_node_get_annotation(n); if (an) r.note = id_name(an); else clear_error(c);
	auto ex = [&](isl_ast_expr *e) { AExpr h = R(c, e, "isl_ast_node expression"); return read_expr(c, h.g()); };
	auto sub = [&](isl_ast_node *e) { ANode_ h = R(c, e, "isl_ast_node child"); r.ch.push_back(read_node(c, h.g())); };
	switch (r.type) {
	case isl_ast_node_for:
		r.it = ex(isl_ast_node_for_get_iterator(n)); r.init = ex(isl_ast_node_for_get_init(n)); r.cond = ex(isl_ast_node_for_get_cond(n)); r.inc = ex(isl_ast_node_for_get_inc(n));
		r.degenerate = B(c, isl_ast_node_for_is_degenerate(n), "isl_ast_node_for_is_degenerate"); sub(isl_ast_node_for_get_body(n)); break;
	case isl_ast_node_if: r.cond = ex(isl_ast_node_if_get_cond(n)); sub(isl_ast_node_if_get_then_node(n)); if (B(c, isl_ast_node_if_has_else_node(n), "isl_ast_node_if_has_else_node")) sub(isl_ast_node_if_get_else_node(n)); break;
	case isl_ast_node_block: {
		isl_ast_node_list *l = isl_ast_node_block_get_children(n); int k = N(c, isl_ast_node_list_size(l), "isl_ast_node_list_size");
		for (int i = 0; i < k; ++i) sub(isl_ast_node_list_get_at(l, i));
		isl_ast_node_list_free(l); break; }
	case isl_ast_node_mark: r.mark = id_name(isl_ast_node_mark_get_id(n)); sub(isl_ast_node_mark_get_node(n)); break;
	case isl_ast_node_user: r.e = ex(isl_ast_node_user_get_expr(n)); break;
	default: on_error(c, "isl_ast_node_get_type");
	}
	return r;
}
static AZ efdiv(const AZ &a, const AZ &b) { AZ q; mpz_fdiv_q(q.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return q; }
// A value; bad: an operation was applied outside its documented domain. Such
// a value may be computed in an argument that does not influence the result
// (the other argument of a select, an and with a false argument), but not used.
bool c_division = false; long c_division_used = 0;
struct EV_ { AZ v; std::string bad; };
static EV_ ev(const AEx &e, const Env &env)
{
	if (e.k == AEx::INT) return {e.v, ""};
	if (e.k == AEx::ID) { auto it = env.find(e.id); if (it == env.end()) throw EvalErr{"unbound identifier " + e.id}; return {it->second, ""}; }
	auto A = [&](int i) { return ev(e.a[i], env); };
	auto need = [&](size_t n) { if (e.a.size() != n) throw EvalErr{"number of arguments of " + e.str()}; };
	auto B = [&](bool b) { return EV_{AZ(b ? 1 : 0), ""}; };
	switch (e.op) {
	case isl_ast_expr_op_and: { need(2); EV_ x = A(0), y = A(1); if (x.bad.empty() && x.v == 0) return B(false); if (y.bad.empty() && y.v == 0) return B(false); if (!x.bad.empty()) return x; if (!y.bad.empty()) return y; return B(true); }
	case isl_ast_expr_op_or: { need(2); EV_ x = A(0), y = A(1); if (x.bad.empty() && x.v != 0) return B(true); if (y.bad.empty() && y.v != 0) return B(true); if (!x.bad.empty()) return x; if (!y.bad.empty()) return y; return B(false); }
	case isl_ast_expr_op_and_then: { need(2); EV_ x = A(0); if (!x.bad.empty()) return x; if (x.v == 0) return B(false); EV_ y = A(1); if (!y.bad.empty()) return y; return B(y.v != 0); }
	case isl_ast_expr_op_or_else: { need(2); EV_ x = A(0); if (!x.bad.empty()) return x; if (x.v != 0) return B(true); EV_ y = A(1); if (!y.bad.empty()) return y; return B(y.v != 0); }
	case isl_ast_expr_op_cond: { need(3); EV_ x = A(0); if (!x.bad.empty()) return x; return x.v != 0 ? A(1) : A(2); }
	case isl_ast_expr_op_select: { need(3); EV_ x = A(0), y = A(1), z = A(2); if (!x.bad.empty()) return x; return x.v != 0 ? y : z; }
	default: break;
	}
	std::vector<AZ> a; for (size_t i = 0; i < e.a.size(); ++i) { EV_ x = A(i); if (!x.bad.empty()) return x; a.push_back(x.v); }
	auto bad = [&](const char *w) { return EV_{0, std::string(w) + ": " + e.str()}; };
	switch (e.op) {
	case isl_ast_expr_op_max: case isl_ast_expr_op_min: {
		if (a.size() < 2) throw EvalErr{"number of arguments of " + e.str()};
		AZ r = a[0]; for (auto &x : a) if (e.op == isl_ast_expr_op_max ? x > r : x < r) r = x; return {r, ""}; }
	case isl_ast_expr_op_minus: need(1); return EV_{AZ(-a[0]), ""};
	default: need(2);
	}
	const AZ &x = a[0], &y = a[1];
	switch (e.op) {
	case isl_ast_expr_op_add: return EV_{AZ(x + y), ""};
	case isl_ast_expr_op_sub: return EV_{AZ(x - y), ""};
	case isl_ast_expr_op_mul: return EV_{AZ(x * y), ""};
	case isl_ast_expr_op_div: if (y == 0) return bad("division by zero"); if (x % y != 0) { if (!c_division) return bad("inexact exact division"); c_division_used++; } return EV_{AZ(x / y), ""};
	case isl_ast_expr_op_fdiv_q: if (y <= 0) return bad("non-positive divisor"); return {efdiv(x, y), ""};
	case isl_ast_expr_op_pdiv_q: case isl_ast_expr_op_pdiv_r: if (y <= 0) return bad("non-positive divisor"); if (x < 0) { if (!c_division) return bad("negative dividend"); c_division_used++; } if (e.op == isl_ast_expr_op_pdiv_q) return EV_{AZ(x / y), ""}; return EV_{AZ(x % y), ""};
	case isl_ast_expr_op_zdiv_r: if (y == 0 || (y < 0 && !c_division)) return bad("non-positive divisor"); return EV_{AZ(x % y), ""};
	case isl_ast_expr_op_eq: return B(x == y);
	case isl_ast_expr_op_le: return B(x <= y);
	case isl_ast_expr_op_lt: return B(x < y);
	case isl_ast_expr_op_ge: return B(x >= y);
	case isl_ast_expr_op_gt: return B(x > y);
	default: throw EvalErr{"no value: " + e.str()};
	}
}
AZ eval(const AEx &e, const Env &env) { EV_ r = ev(e, env); if (!r.bad.empty()) throw EvalErr{r.bad}; return r.v; }
Call eval_call(const AEx &e, const Env &env)
{
	Call r; if (e.k != AEx::OP || (e.op != isl_ast_expr_op_call && e.op != isl_ast_expr_op_access) || e.a.empty() || e.a[0].k != AEx::ID) throw EvalErr{"not a call: " + e.str()};
	r.name = e.a[0].id; for (size_t i = 1; i < e.a.size(); ++i) { AZ v = eval(e.a[i], env); if (!v.fits_slong_p()) throw EvalErr{"huge argument"}; r.x.push_back(v.get_si()); };
	return r;
}
void Interp::run(const ANode &n, Env &env)
{
	if (++steps > limit) throw EvalErr{"too many steps"};
	switch (n.type) {
	case isl_ast_node_for: {
		if (n.it.k != AEx::ID) throw EvalErr{"iterator is not an identifier"};
		if (env.count(n.it.id)) throw EvalErr{"iterator " + n.it.id + " hides another identifier"};
		AZ v = eval(n.init, env), inc; long cnt = 0;
		for (;;) {
			env[n.it.id] = v;
			if (eval(n.cond, env) == 0) break;
			++cnt; run(n.ch[0], env);
			env[n.it.id] = v; inc = eval(n.inc, env); if (inc <= 0) throw EvalErr{"increment of " + n.it.id + " is not positive"};
			v += inc;
			if (++steps > limit) throw EvalErr{"too many steps"};
		}
		env.erase(n.it.id);
		if (n.degenerate && cnt != 1) throw EvalErr{"degenerate loop over " + n.it.id + " executed " + std::to_string(cnt) + " times"};
		break; }
	case isl_ast_node_if: if (eval(n.cond, env) != 0) run(n.ch[0], env); else if (n.ch.size() > 1) run(n.ch[1], env); break;
	case isl_ast_node_block: for (auto &x : n.ch) run(x, env); break;
	case isl_ast_node_mark: marks.push_back(n.mark); run(n.ch[0], env); marks.pop_back(); break;
	case isl_ast_node_user: visit(n, env); break;
	default: throw EvalErr{"unknown node"};
	}
}

// ---- parser for the C form ----
namespace {
struct Tok { char k; std::string s; };   // k: i number, n name, o operator, e end, p pragma/mark comment
struct Lex {
	std::vector<Tok> t; size_t p = 0;
	explicit Lex(const std::string &s)
	{
		size_t i = 0;
		while (i < s.size()) {
			char ch = s[i];
			if (isspace((unsigned char)ch)) { ++i; continue; }
			if (isdigit((unsigned char)ch)) { size_t j = i; while (j < s.size() && isdigit((unsigned char)s[j])) ++j; t.push_back({'i', s.substr(i, j - i)}); i = j; continue; }
			if (isalpha((unsigned char)ch) || ch == '_') { size_t j = i; while (j < s.size() && (isalnum((unsigned char)s[j]) || s[j] == '_' || s[j] == '\'')) ++j; t.push_back({'n', s.substr(i, j - i)}); i = j; continue; }
			if (ch == '/' && i + 1 < s.size() && s[i + 1] == '/') { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); size_t b = i + 2; while (b < j && s[b] == ' ') ++b; t.push_back({'p', s.substr(b, j - b)}); i = j; continue; }
			static const char *two[] = {"<=", ">=", "==", "&&", "||", "+=", "->"};
			bool f = false; for (auto w : two) if (s.compare(i, 2, w) == 0) { t.push_back({'o', w}); i += 2; f = true; break; }
			if (f) continue;
			t.push_back({'o', std::string(1, ch)}); ++i;
		}
		t.push_back({'e', ""});
	}
	const Tok &cur() { return t[p]; }
	bool is(const char *s) { return t[p].k != 'e' && t[p].k != 'p' && t[p].s == s; }
	bool eat(const char *s) { if (!is(s)) return false; ++p; return true; }
	void need(const char *s) { if (!eat(s)) throw EvalErr{std::string("expected ") + s + " at token " + std::to_string(p) + " '" + t[p].s + "'"}; }
};
AEx mk(enum isl_ast_expr_op_type o, std::vector<AEx> a) { AEx r; r.k = AEx::OP; r.op = o; r.a = std::move(a); return r; }
struct CP {
	Lex l; explicit CP(const std::string &s) : l(s) {}
	AEx expr()
	{
		AEx x = lor(); if (!l.eat("?")) return x;
		AEx y = expr(); l.need(":"); AEx z = expr();
		return mk(isl_ast_expr_op_cond, {x, y, z});
	}
	AEx lor() { AEx x = land(); while (l.eat("||")) x = mk(isl_ast_expr_op_or_else, {x, land()}); return x; }
	AEx land() { AEx x = eq(); while (l.eat("&&")) x = mk(isl_ast_expr_op_and_then, {x, eq()}); return x; }
	AEx eq() { AEx x = rel(); while (l.eat("==")) x = mk(isl_ast_expr_op_eq, {x, rel()}); return x; }
	AEx rel()
	{
		AEx x = add();
		for (;;) {
			if (l.eat("<=")) x = mk(isl_ast_expr_op_le, {x, add()}); else if (l.eat(">=")) x = mk(isl_ast_expr_op_ge, {x, add()});
			else if (l.eat("<")) x = mk(isl_ast_expr_op_lt, {x, add()}); else if (l.eat(">")) x = mk(isl_ast_expr_op_gt, {x, add()}); else return x;
		}
	}
	AEx add() { AEx x = mul(); for (;;) { if (l.eat("+")) x = mk(isl_ast_expr_op_add, {x, mul()}); else if (l.eat("-")) x = mk(isl_ast_expr_op_sub, {x, mul()}); else return x; } }
	// C division truncates: represented by pdiv_q / pdiv_r / div at evaluation through ctrunc
	AEx mul()
	{
		AEx x = un();
		for (;;) {
			if (l.eat("*")) x = mk(isl_ast_expr_op_mul, {x, un()});
			else if (l.eat("/")) { AEx y = un(); x = trunc(x, y, true); }
			else if (l.eat("%")) { AEx y = un(); x = trunc(x, y, false); }
			else return x;
		}
	}
	AEx trunc(const AEx &x, const AEx &y, bool q)
	{
		return mk(q ? isl_ast_expr_op_div : isl_ast_expr_op_zdiv_r, {x, y});   // with c_division: the C operators
	}
	AEx un() { if (l.eat("-")) return mk(isl_ast_expr_op_minus, {un()}); if (l.eat("&")) return mk(isl_ast_expr_op_address_of, {un()}); return post(); }
	AEx post()
	{
		AEx x = prim();
		for (;;) {
			if (l.eat("(")) {
				std::vector<AEx> a; if (!l.eat(")")) { do a.push_back(expr()); while (l.eat(",")); l.need(")"); }
				if (x.k == AEx::ID && a.size() == 2 && x.id == "floord") x = mk(isl_ast_expr_op_fdiv_q, a);
				else if (x.k == AEx::ID && a.size() == 2 && x.id == "min") x = mk(isl_ast_expr_op_min, a);
				else if (x.k == AEx::ID && a.size() == 2 && x.id == "max") x = mk(isl_ast_expr_op_max, a);
				else { a.insert(a.begin(), x); x = mk(isl_ast_expr_op_call, a); }
			} else if (l.is("[")) {
				std::vector<AEx> a{x}; while (l.eat("[")) { a.push_back(expr()); l.need("]"); }
				x = mk(isl_ast_expr_op_access, a);
			} else if (l.eat(".")) { AEx m = prim(); x = mk(isl_ast_expr_op_member, {x, m}); }
			else return x;
		}
	}
	AEx prim()
	{
		if (l.eat("(")) {
			if (l.eat(")")) { AEx e; e.k = AEx::ID; return e; }
			AEx x = expr();
			if (l.is(",")) { AEx nm; nm.k = AEx::ID; std::vector<AEx> a{nm, x}; while (l.eat(",")) a.push_back(expr()); l.need(")"); return mk(isl_ast_expr_op_call, a); }
			l.need(")"); return x; }
		AEx r;
		if (l.cur().k == 'i') { r.v = AZ(l.cur().s); l.p++; return r; }
		if (l.cur().k == 'n') { r.k = AEx::ID; r.id = l.cur().s; l.p++; return r; }
		throw EvalErr{"unexpected token '" + l.cur().s + "'"};
	}
	// statements up to the given token (or the end); a declaration is a loop with a single iteration over the rest
	std::vector<ANode> rest(const char *stop)
	{
		std::vector<ANode> r;
		for (;;) {
			if (stop ? l.eat(stop) : l.cur().k == 'e') return r;
			if (stop && l.cur().k == 'e') throw EvalErr{"unexpected end"};
			if (l.eat("int")) {
				ANode n; n.type = isl_ast_node_for; n.it = prim(); l.need("="); n.init = expr(); l.need(";");
				n.degenerate = true; n.cond = mk(isl_ast_expr_op_eq, {n.it, n.init}); n.inc.v = 1;
				ANode b; b.type = isl_ast_node_block; b.ch = rest(stop); n.ch.push_back(b); r.push_back(n);
				return r;
			}
			r.push_back(stmt());
		}
	}
	ANode stmt()
	{
		ANode n;
		if (l.cur().k == 'p') { n.type = isl_ast_node_mark; n.mark = l.cur().s; l.p++; n.ch.push_back(stmt()); return n; }
		if (l.eat("{")) { n.type = isl_ast_node_block; n.ch = rest("}"); return n; }
		if (l.eat("for")) {
			n.type = isl_ast_node_for; l.need("("); l.need("int"); n.it = prim(); l.need("="); n.init = expr(); l.need(";"); n.cond = expr(); l.need(";");
			AEx it2 = prim(); if (it2.id != n.it.id) throw EvalErr{"increment of another variable"}; l.need("+="); n.inc = expr(); l.need(")");
			n.ch.push_back(stmt()); return n;
		}
		if (l.eat("if")) {
			n.type = isl_ast_node_if; l.need("("); n.cond = expr(); l.need(")"); n.ch.push_back(stmt());
			if (l.eat("else")) n.ch.push_back(stmt());
			return n;
		}
		n.type = isl_ast_node_user; n.e = expr(); l.need(";"); return n;
	}
};
} // namespace
AEx parse_c_expr(const std::string &s) { CP p(s); AEx r = p.expr(); if (p.l.cur().k != 'e') throw EvalErr{"trailing text '" + p.l.cur().s + "'"}; return r; }
ANode parse_c_node(const std::string &s)
{
	CP p(s); ANode b; b.type = isl_ast_node_block;
	b.ch = p.rest(nullptr);
	return b;
}
} // namespace vp
