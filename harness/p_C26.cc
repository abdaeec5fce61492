// C26: operations never change the objects they do not own.
#include "ops.h"

using namespace vp;

// Printed form and, where it can be parsed back, the value of a held object.
struct Held { std::string str; };

static void run(Case &c)
{
	OCfg cfg;
	OProg P;
	P.seeds = gen_seeds(c);
	isl_ctx_set_max_operations(c.ctx, 30000);
	OState A(c.ctx);
	load_seeds(c, P, A);
	std::vector<std::string> str;
	for (size_t i = 0; i < A.p.size(); ++i) { str.push_back(ostr(A.type[i], A.p[i])); c.log << "$" << i << ": " << otypes[A.type[i]].name << " " << P.seeds[i].s << "\n"; }
	int n = 4 + c.t.below(10), done = 0;
	for (int k = 0; k < n; ++k) {
		Step s;
		if (!gen_step(c, P, A, cfg, s)) break;
		const Op &op = all_ops[s.op];
		s.out = op.ret == 'o' ? (int)A.p.size() : -1;
		c.log << show(P, s) << "\n";
		void *r = exec(P, A, s);
		if (s.failed) {
			c.label(s.err == isl_error_quota ? "failed:quota" : "failed:invalid");
			if (s.err == isl_error_none) c.fail("no-error", std::string(op.name) + " failed without reporting an error");
			if (s.err == isl_error_internal && !strstr(isl_ctx_last_error_msg(c.ctx), "root node not a domain node")) c.fail("internal", std::string(op.name) + " failed: " + (isl_ctx_last_error_msg(c.ctx) ? isl_ctx_last_error_msg(c.ctx) : ""));
			s.out = -1;
		} else {
			c.label(std::string("op:") + op.name);
			c.step();
			done++;
		}
		// held objects
		for (size_t i = 0; i < A.p.size(); ++i) {
			if (!A.p[i]) continue;
			std::string now = ostr(A.type[i], A.p[i]);
			if (now == str[i]) continue;
			// the representation may be improved in place, the value may not change
			const OType &t = otypes[A.type[i]];
			c.label(std::string("reformatted:") + op.name);
			int e = value_is(c.ctx, A.type[i], A.p[i], str[i]);
			if (e == 0) c.fail("changed", std::string(op.name) + " changed $" + std::to_string(i) + "\nfrom " + str[i] + "\nto   " + now);
			str[i] = now;
		}
		if (s.failed) continue;
		if (op.ret == 'o') {
			// the pieces of a gist may overlap outside the context
			bool overlap = strstr(op.name, "gist") && strstr(op.name, "pw_");
			if (overlap || !well_typed(c.ctx, op.rtype, r)) { otypes[op.rtype].free(r); c.label(std::string("ill-typed:") + op.name); c.log << "    (ill-typed)\n"; continue; }
			std::string rs = ostr(op.rtype, r);
			c.log << "    " << rs << "\n";
			if (rs.size() > cfg.max_str || rs == "(no string)") { otypes[op.rtype].free(r); c.label("too-large"); continue; }
			A.p.push_back(r);
			A.type.push_back(op.rtype);
			P.slot_type.push_back(op.rtype);
			str.push_back(rs);
		} else c.log << "    " << s.r << " " << s.str << "\n";
		P.steps.push_back(s);
	}
	if (done >= 3) c.nontrivial = true;
	// replay: every object is given away at its last use
	OProg Q = P;
	Q.slot_type.clear();
	OState Bs(c.ctx);
	load_seeds(c, Q, Bs);
	std::vector<int> last(A.p.size(), -1);
	for (size_t k = 0; k < P.steps.size(); ++k) for (int o : P.steps[k].obj) last[o] = k;
	for (size_t i = 0; i < Bs.p.size(); ++i) if (last[i] < 0) { otypes[Bs.type[i]].free(Bs.p[i]); Bs.p[i] = nullptr; }
	for (size_t k = 0; k < P.steps.size(); ++k) {
		Step s = P.steps[k];
		const Op &op = all_ops[s.op];
		std::vector<char> sole(s.obj.size(), 0);
		int q = 0, oi = 0;
		(void)q;
		std::vector<int> freeme;
		for (auto &x : op.args) if (x.kind == 't' || x.kind == 'k') {
			int o = s.obj[oi];
			bool lastuse = last[o] == (int)k;
			for (size_t z = oi + 1; z < s.obj.size(); ++z) if (s.obj[z] == o) lastuse = false;
			for (int z = 0; z < oi; ++z) if (s.obj[z] == o) lastuse = lastuse && true;
			if (last[o] == (int)k && x.kind == 'k') freeme.push_back(o);
			if (lastuse && x.kind == 't') {
				// also kept by another argument?
				int z = 0; bool kept = false;
				for (auto &y : op.args) if (y.kind == 't' || y.kind == 'k') { if (z != oi && s.obj[z] == o && y.kind == 'k') kept = true; z++; }
				if (!kept) sole[oi] = 1; else freeme.push_back(o);
			}
			oi++;
		}
		Step s0 = s;
		void *r = exec(Q, Bs, s, &sole);
		if (s.failed && s.err == isl_error_quota) c.discard("quota in replay");
		if (s.failed && repr_op(op)) c.discard("depends on the representation");
		if (s.failed) c.fail("sole-failed", show(P, s0) + " fails when it gets the only copy: " + (isl_ctx_last_error_msg(c.ctx) ? isl_ctx_last_error_msg(c.ctx) : ""));
		if (op.ret == 'o') {
			Bs.p.push_back(r);
			Bs.type.push_back(op.rtype);
			std::string rs = ostr(op.rtype, r);
			if (rs != str[s0.out]) {
				c.label(std::string("other-form:") + op.name);
				int e = oequal(c.ctx, op.rtype, A.p[s0.out], r);
				if (e == 0)
					if (!repr_op(op)) c.fail("sole", show(P, s0) + " differs when it gets the only copy:\nshared " + str[s0.out] + "\nsole   " + rs);
				// continue from the same value
				otypes[op.rtype].free(r);
				isl_ctx_reset_operations(c.ctx);
				Bs.p.back() = otypes[op.rtype].copy(A.p[s0.out]);
			}
			if (last[s0.out] < 0) { otypes[op.rtype].free(Bs.p.back()); Bs.p.back() = nullptr; }
		} else if ((s.r != s0.r || s.str != s0.str) && !repr_op(op))
			c.fail("sole", show(P, s0) + " differs when it gets the only copy: shared " + std::to_string(s0.r) + s0.str + " sole " + std::to_string(s.r) + s.str);
		for (int o : freeme) if (Bs.p[o]) { otypes[Bs.type[o]].free(Bs.p[o]); Bs.p[o] = nullptr; }
	}
	// release in a generated order, checking those still held
	std::vector<int> rest;
	for (size_t i = 0; i < A.p.size(); ++i) rest.push_back(i);
	while (!rest.empty()) {
		int k = c.t.below(rest.size());
		int i = rest[k];
		rest.erase(rest.begin() + k);
		std::string now = ostr(A.type[i], A.p[i]);
		if (now != str[i]) {
			int e = value_is(c.ctx, A.type[i], A.p[i], str[i]);
			if (e == 0) c.fail("changed", "replay with sole copies changed $" + std::to_string(i) + "\nfrom " + str[i] + "\nto   " + now);
		}
		otypes[A.type[i]].free(A.p[i]);
		A.p[i] = nullptr;
	}
}

Prop vp::the_prop = {"C26", "random straight-line programs of 4-13 calls over ~2200 public functions and all object types; non-trivial: at least 3 calls succeeded",
	run, 60000, 1000000, 0};
