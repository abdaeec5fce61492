// C28: no sequence of valid calls corrupts or leaks memory.
// Run under AddressSanitizer and UndefinedBehaviorSanitizer, with a census of
// the library's memory blocks after everything has been released.
#include "ops.h"

using namespace vp;

static void run(Case &c)
{
	OCfg cfg;
	OProg P;
	P.seeds = gen_seeds(c);
	isl_ctx_set_max_operations(c.ctx, 30000);
	OState A(c.ctx);
	load_seeds(c, P, A);
	for (size_t i = 0; i < A.p.size(); ++i) c.log << "$" << i << ": " << otypes[A.type[i]].name << " " << P.seeds[i].s << "\n";
	int n = 5 + c.t.below(14), done = 0;
	for (int k = 0; k < n; ++k) {
		Step s;
		if (!gen_step(c, P, A, cfg, s)) break;
		const Op &op = all_ops[s.op];
		s.out = op.ret == 'o' ? (int)A.p.size() : -1;
		// some of the arguments are given away
		std::vector<char> sole(s.obj.size(), 0);
		int oi = 0;
		for (auto &x : op.args) if (x.kind == 't' || x.kind == 'k') {
			int uses = std::count(s.obj.begin(), s.obj.end(), s.obj[oi]);
			if (x.kind == 't' && uses == 1 && c.t.chance(1, 3)) sole[oi] = 1;
			oi++;
		}
		c.log << show(P, s);
		for (size_t z = 0; z < sole.size(); ++z) if (sole[z]) c.log << " takes $" << s.obj[z];
		c.log << "\n";
		void *r = exec(P, A, s, &sole);
		if (s.failed) {
			c.label(s.err == isl_error_quota ? "failed:quota" : "failed:invalid");
			if (s.err == isl_error_internal && !strstr(isl_ctx_last_error_msg(c.ctx), "root node not a domain node")) c.fail("internal", std::string(op.name) + " failed: " + isl_ctx_last_error_msg(c.ctx));
			if (op.ret == 'o') s.out = -1;
			continue;
		}
		c.label(std::string("op:") + op.name);
		c.step();
		done++;
		if (op.ret != 'o') continue;
		bool overlap = strstr(op.name, "gist") && strstr(op.name, "pw_");
		if (overlap || !well_typed(c.ctx, op.rtype, r)) { otypes[op.rtype].free(r); c.log << "    (ill-typed)\n"; continue; }
		std::string rs = ostr(op.rtype, r);
		c.log << "    " << rs << "\n";
		if (rs.size() > cfg.max_str || rs == "(no string)") { otypes[op.rtype].free(r); c.label("too-large"); continue; }
		A.p.push_back(r);
		A.type.push_back(op.rtype);
		P.slot_type.push_back(op.rtype);
	}
	if (done >= 4) c.nontrivial = true;
	// release in a generated order
	std::vector<int> rest;
	for (size_t i = 0; i < A.p.size(); ++i) rest.push_back(i);
	while (!rest.empty()) {
		int k = c.t.below(rest.size());
		int i = rest[k];
		rest.erase(rest.begin() + k);
		if (A.p[i]) otypes[A.type[i]].free(A.p[i]);
		A.p[i] = nullptr;
	}
}

Prop vp::the_prop = {"C28", "random straight-line programs of 5-18 calls over ~2200 public functions and all object types, under AddressSanitizer/UBSan with a leak census; non-trivial: at least 4 calls succeeded",
	run, 30000, 2000000, 0};
static struct Init { Init() { vp::the_prop.leak_check = true; } } init_;
