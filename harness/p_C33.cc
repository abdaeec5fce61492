// C33: threads that each use their own context do not interfere.
// Random programs over the public functions are recorded; every program is
// run alone and then by several threads at the same time, each in a context
// of its own.  The outputs have to be the same, and no memory may be shared
// without synchronisation (thread sanitizer).
#include "ops.h"
#include <thread>
#include <atomic>

using namespace vp;

static bool det_op(const Op &op)
{
	return true;
}

struct Trace { std::vector<std::string> out; };

// Runs the program in a context of its own.
static Trace run_prog(const OProg &P0, int rounds, std::atomic<int> *gate)
{
	Trace tr;
	if (gate) { gate->fetch_sub(1); while (gate->load() > 0) std::this_thread::yield(); }
	for (int rd = 0; rd < rounds; ++rd) {
		isl_ctx *ctx = isl_ctx_alloc();
		isl_options_set_on_error(ctx, ISL_ON_ERROR_CONTINUE);
		isl_ctx_set_max_operations(ctx, 30000);
		{
			OProg P = P0;
			OState st(ctx);
			for (auto &s : P.seeds) {
				isl_ctx_reset_operations(ctx);
				void *p = otypes[s.type].read(ctx, s.s.c_str());
				st.p.push_back(p);
				st.type.push_back(s.type);
				tr.out.push_back(p ? ostr(s.type, p) : "(null)");
			}
			for (auto s : P.steps) {
				const Op &op = all_ops[s.op];
				bool ok = true;
				for (int o : s.obj) if (o >= (int)st.p.size() || !st.p[o]) ok = false;
				void *r = nullptr;
				int out = s.out;
				if (ok) {
					r = exec(P, st, s);
					tr.out.push_back(std::string(op.name) + (s.failed ? " failed " + std::to_string(s.err) : " " + std::to_string(op.ret == 'o' ? 0 : s.r) + s.str));
				}
				if (out >= 0) {
					st.p.push_back(r);
					st.type.push_back(op.rtype);
					isl_ctx_reset_operations(ctx);
					if (r) tr.out.push_back(ostr(op.rtype, r));
				} else if (r) otypes[op.rtype].free(r);
			}
		}
		isl_ctx_free(ctx);
	}
	return tr;
}

static OProg record(Case &c, int n)
{
	OCfg cfg;
	cfg.allow = det_op;
	OProg P;
	P.seeds = gen_seeds(c);
	isl_ctx_set_max_operations(c.ctx, 30000);
	OState A(c.ctx);
	load_seeds(c, P, A);
	for (int k = 0; k < n; ++k) {
		Step s;
		if (!gen_step(c, P, A, cfg, s)) break;
		const Op &op = all_ops[s.op];
		s.out = op.ret == 'o' ? (int)A.p.size() : -1;
		void *r = exec(P, A, s);
		if (s.failed && s.err == isl_error_none) continue;
		if (s.failed) s.out = -1;
		else if (op.ret == 'o') {
			std::string rs = well_typed(c.ctx, op.rtype, r) ? ostr(op.rtype, r) : "(no string)";
			if (rs.size() > cfg.max_str || rs == "(no string)" || (strstr(op.name, "gist") && strstr(op.name, "pw_"))) { otypes[op.rtype].free(r); continue; }
			A.p.push_back(r);
			A.type.push_back(op.rtype);
			P.slot_type.push_back(op.rtype);
		}
		c.label(std::string("op:") + op.name);
		c.step();
		P.steps.push_back(s);
	}
	for (auto &s : P.seeds) c.log << "seed " << otypes[s.type].name << " " << s.s << "\n";
	for (auto &s : P.steps) c.log << show(P, s) << "\n";
	return P;
}

static void run(Case &c)
{
	int np = 1 + c.t.below(3), nt = 3 + c.t.below(4), rounds = 1 + c.t.below(2);
	std::vector<OProg> P;
	size_t total = 0;
	for (int i = 0; i < np; ++i) { P.push_back(record(c, 6 + c.t.below(12))); total += P.back().steps.size(); c.log << "--\n"; }
	c.nontrivial = total >= 4;
	c.log << nt << " threads, " << rounds << " rounds\n";
	std::vector<Trace> ref, got(nt);
	for (auto &p : P) ref.push_back(run_prog(p, rounds, nullptr));
	std::atomic<int> gate(nt);
	std::vector<std::thread> th;
	for (int i = 0; i < nt; ++i) th.emplace_back([&, i] { got[i] = run_prog(P[i % np], rounds, &gate); });
	for (auto &t : th) t.join();
	for (int i = 0; i < nt; ++i) {
		auto &a = ref[i % np].out, &b = got[i].out;
		for (size_t k = 0; k < a.size() || k < b.size(); ++k) {
			std::string x = k < a.size() ? a[k] : "(nothing)", y = k < b.size() ? b[k] : "(nothing)";
			if (x != y) c.fail("differs", "thread " + std::to_string(i) + " computes\n" + y + "\nalone:\n" + x);
		}
	}
}

Prop vp::the_prop = {"C33", "1-3 random programs over the public functions, run alone and by 3-6 concurrent threads with contexts of their own under the thread sanitizer; non-trivial: at least 4 calls in the programs",
	run, 1600, 40000, 0};
