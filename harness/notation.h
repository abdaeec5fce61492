// Independent reader of the documented textual notation, evaluated at points.
#pragma once
#include "poly.h"

namespace vp {
namespace nt {

struct ParseEx { std::string msg; size_t pos; };
struct Unsupported { std::string why; };

struct Expr; struct Form;
typedef std::shared_ptr<Expr> E;
typedef std::shared_ptr<Form> F;
struct Expr {
	enum K { NUM, VAR, ADD, SUB, MUL, NEG, DIV, FLOOR, CEIL, MOD, MIN, MAX, POW, COND, INFTY, NAN_, PIECES } k;
	mpq_class q;
	std::string name;
	std::vector<E> ch;
	std::vector<F> fs;                 // COND: fs[0] ? ch[0] : ch[1]; PIECES: fs[i] -> ch[i]
};
struct Form {
	enum K { TRUE_, FALSE_, CMP, LEX, AND, OR, NOT, IMPL, EXISTS } k;
	std::string op;
	std::vector<E> a, b;               // CMP: one each; LEX: lists
	std::vector<F> ch;
	std::vector<std::pair<std::string, E>> ex;
};
struct Entry { std::string name; E e; bool star = false; };
struct Tuple { std::string name; std::vector<Entry> en; std::vector<Tuple> sub; bool paren = false; };
struct Disj {
	bool has_in = false, has_out = false, is_expr = false;
	Tuple in, out;
	E e;                               // quasi-polynomial
	F cond;                            // null: true
};
struct Obj {
	std::vector<std::pair<std::string, E>> params;
	std::vector<Disj> d;
};
typedef std::map<std::string, PV> Env;

Obj parse_obj(const std::string &s, bool qpoly);
PV eval(const E &e, const Env &env);     // k == 3: undefined
bool eval(const F &f, const Env &env);
std::string sig(const Tuple &t);
std::string sig(const Disj &d);          // of the whole (set/map) or domain -> range
int dim(const Tuple &t);
// Binds / checks the entries of a tuple against the values v[from..]; false: no match
bool match(const Tuple &t, const Pt &v, int &from, Env &env);
// the values of the entries
void values(const Tuple &t, const Env &env, std::vector<PV> &out);

} // namespace nt
} // namespace vp
