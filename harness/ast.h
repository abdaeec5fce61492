// AST expressions and nodes: read through the public interface into a model
// with its own interpreter; a parser for the printed C form.
#pragma once
#include "prog.h"
#include <isl/ast.h>
#include <isl/ast_build.h>

namespace vp {
VP_TRAIT(isl_ast_expr)
VP_TRAIT(isl_ast_node)
VP_TRAIT(isl_ast_build)
VP_TRAIT(isl_ast_node_list)
VP_TRAIT(isl_ast_expr_list)
typedef H<isl_ast_expr> AExpr;
typedef H<isl_ast_node> ANode_;
typedef H<isl_ast_build> ABuild;
std::string S(isl_ast_expr *p);
std::string S(isl_ast_node *p);

typedef mpz_class AZ;
struct AEx {
	enum K { OP, ID, INT } k = INT;
	enum isl_ast_expr_op_type op = isl_ast_expr_op_error;
	std::vector<AEx> a;
	std::string id;
	AZ v;
	std::string str() const;
	bool mentions(const std::string &n) const;
	void ops(std::set<int> &s) const { if (k == OP) s.insert(op); for (auto &x : a) x.ops(s); }
};
AEx read_expr(Case &c, isl_ast_expr *e);     // kept
struct ANode {
	enum isl_ast_node_type type = isl_ast_node_error;
	AEx it, init, cond, inc, e;
	bool degenerate = false;
	std::vector<ANode> ch;
	std::string mark, note;                   // note: annotation
};
ANode read_node(Case &c, isl_ast_node *n);   // kept
typedef std::map<std::string, AZ> Env;
struct EvalErr { std::string what; };
// evaluation; throws EvalErr when a documented precondition of an operation does not hold
AZ eval(const AEx &e, const Env &env);
// set: divisions outside their documented domain get the value of the C operator and are counted
extern bool c_division; extern long c_division_used;
struct Interp {
	long steps = 0, limit = 200000;
	std::function<void(const ANode &, const Env &)> visit;      // user nodes
	void run(const ANode &n, Env &env);
	std::vector<std::string> marks;           // active marks
};
// a call expression as an instance: name, arguments
struct Call { std::string name; Pt x; };
Call eval_call(const AEx &e, const Env &env);
// parser for the C form; throws EvalErr on unexpected text. macros floord, min, max are known.
AEx parse_c_expr(const std::string &s);
ANode parse_c_node(const std::string &s);
} // namespace vp
