// Generic engine: random straight-line programs over (nearly) all public
// library functions and object types, from the generated table ops_table.inc.
#pragma once
#include "core.h"
#include "islx.h"

namespace vp {

struct OType {
	const char *name;
	void *(*copy)(void *);
	void (*free)(void *);
	char *(*str)(void *);
	int (*eq)(void *, void *);
	int eqkind;                       // 1 is_equal, 2 plain_is_equal, 3 eq
	int (*dim)(void *, int);
	void *(*read)(isl_ctx *, const char *);
	isl_space *(*space)(void *);
	int (*size)(void *);
};
struct OpArg { char kind; int type; };
struct Op {
	const char *name;
	char ret;                         // o object, b bool, z size, i int, s/S string
	int rtype;
	std::vector<OpArg> args;
	void *(*call)(isl_ctx *, void **, const long *, const char **, long *);
};
extern const std::vector<OType> otypes;
extern const std::vector<Op> all_ops;
int type_of(const std::string &name);
const std::vector<int> &ops_on(int type);    // usable operations with first object argument of the type
const std::vector<int> &ctor_ops();

struct Seed { int type; std::string s; };
struct Step {
	int op = -1;
	std::vector<int> obj;             // slots of the object arguments
	std::vector<long> n;
	std::vector<std::string> s;
	bool valid = true;                // no deliberately invalid argument
	// outcome of the recording run
	int out = -1;                     // slot of the result object
	bool failed = false;
	int err = 0;
	long r = 0;
	std::string str;                  // printed form / string result
};
struct OProg {
	std::vector<Seed> seeds;
	std::vector<Step> steps;
	int nslots = 0;
	std::vector<int> slot_type;
};
std::string show(const OProg &, const Step &);
std::string show(const OProg &);

struct OCfg {
	int min_steps = 4, max_steps = 14;
	int invalid_pct = 0;              // probability of an out-of-range number
	unsigned long ops = 20000;        // operation limit per call
	size_t max_str = 1500;            // larger objects are not kept
	bool (*allow)(const Op &) = nullptr;
	// called around every recorded step with all live objects
	std::function<void(OProg &, const Step &, std::vector<void *> &)> after;
};
// Live objects by slot; nullptr for absent ones.
struct OState {
	isl_ctx *ctx;
	std::vector<void *> p;
	std::vector<int> type;
	explicit OState(isl_ctx *c) : ctx(c) {}
	~OState() { clear(); }
	void clear() { for (size_t i = 0; i < p.size(); ++i) if (p[i]) otypes[type[i]].free(p[i]); p.clear(); type.clear(); }
};
std::string ostr(int type, void *p);
std::vector<Seed> gen_seeds(Case &c, int np = -1);   // np: number of parameters (-1: random)
// reads the seeds into the first slots
void load_seeds(Case &c, OProg &P, OState &st);
// Generates one step applicable to the live objects (false: none found).
bool gen_step(Case &c, const OProg &P, const OState &st, const OCfg &cfg, Step &s);
// Executes a step; object arguments that are taken are copied unless
// sole[k] is set, in which case the slot's own reference is given away
// (and the slot cleared).
void *exec(const OProg &P, OState &st, Step &s, const std::vector<char> *sole = nullptr, bool *failed = nullptr);
// interruption of the executed call
struct ExecCtl { unsigned long limit = 0; bool abort = false; };
extern ExecCtl exec_ctl;
// 1 equal, 0 different, -1 cannot tell
int oequal(isl_ctx *ctx, int type, void *p, void *q);

// whether the value of p is the one printed as str; same results
bool repr_op(const Op &op);
bool well_typed(isl_ctx *ctx, int type, void *p);
int value_is(isl_ctx *ctx, int type, void *p, const std::string &str);

} // namespace vp
