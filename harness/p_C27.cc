// C27: interrupted and invalid calls fail cleanly and leave everything usable.
#include "ops.h"

using namespace vp;

static bool internal_ok(isl_ctx *ctx)
{
	const char *m = isl_ctx_last_error_msg(ctx);
	return m && strstr(m, "root node not a domain node");
}

static void run(Case &c)
{
	OCfg cfg;
	cfg.invalid_pct = 4;
	OProg P;
	P.seeds = gen_seeds(c);
	const unsigned long full = 30000;
	isl_ctx_set_max_operations(c.ctx, full);
	OState A(c.ctx);
	load_seeds(c, P, A);
	std::vector<std::string> str;
	for (size_t i = 0; i < A.p.size(); ++i) { str.push_back(ostr(A.type[i], A.p[i])); c.log << "$" << i << ": " << otypes[A.type[i]].name << " " << P.seeds[i].s << "\n"; }
	int n = 2 + c.t.below(4), cut = 0;
	auto unchanged = [&](const Op &op, const char *how) {
		for (size_t i = 0; i < A.p.size(); ++i) {
			if (!A.p[i]) continue;
			std::string now = ostr(A.type[i], A.p[i]);
			if (now == str[i]) continue;
			int e = now == "(no string)" ? 0 : value_is(c.ctx, A.type[i], A.p[i], str[i]);
			if (e == 0) c.fail("changed", std::string(op.name) + " (" + how + ") changed $" + std::to_string(i) + "\nfrom " + str[i] + "\nto   " + now);
			str[i] = now;
		}
	};
	for (int k = 0; k < n; ++k) {
		Step s;
		if (!gen_step(c, P, A, cfg, s)) break;
		const Op &op = all_ops[s.op];
		c.log << show(P, s) << (s.valid ? "" : " (invalid)") << "\n";
		// interrupted runs first, so that nothing cached helps them
		struct Part { std::string how; bool failed; int err; void *r; long rv; std::string rstr; };
		std::vector<Part> parts;
		int m = 1 + c.t.below(4);
		unsigned long lims[6] = {0};
		for (int z = 0; z < m; ++z) {
			int e = c.t.below(13);
			lims[z] = e == 12 ? 0 : 1 + c.t.below(1ul << e);
		}
		for (int z = 0; z < m; ++z) {
			Step t = s;
			t.out = -1;
			std::string how = lims[z] ? "limit " + std::to_string(lims[z]) : "abort";
			exec_ctl.limit = lims[z];
			exec_ctl.abort = !lims[z];
			c.log << "  " << how << ": ";
			void *r = exec(P, A, t);
			exec_ctl = ExecCtl();
			c.log << (t.failed ? "failed " + std::to_string(t.err) : std::string("done")) << "\n";
			// functions returning an int report errors in different ways
			if (op.ret == 'i' && !t.failed && (t.err == isl_error_quota || t.err == isl_error_abort) && t.r < 0) t.failed = true;
			if (t.failed) {
				if (t.err == isl_error_none) c.fail("no-error", std::string(op.name) + " (" + how + ") failed without reporting an error");
				if (t.err == isl_error_internal && !internal_ok(c.ctx)) c.fail("internal", std::string(op.name) + " (" + how + ") failed: " + isl_ctx_last_error_msg(c.ctx));
				if (t.err == isl_error_quota || t.err == isl_error_abort) { cut++; c.label(std::string("cut:") + op.name); c.label(lims[z] ? "cut by limit" : "cut by abort"); }
			}
			parts.push_back({how, t.failed, t.err, r, t.r, t.str});
			unchanged(op, how.c_str());
		}
		s.out = op.ret == 'o' ? (int)A.p.size() : -1;
		void *r = exec(P, A, s);
		unchanged(op, "full");
		c.log << "  full: " << (s.failed ? "failed " + std::to_string(s.err) : std::string("done")) << "\n";
		if (s.failed) {
			if (s.err == isl_error_none) c.fail("no-error", std::string(op.name) + " failed without reporting an error");
			if (s.err == isl_error_internal && !internal_ok(c.ctx)) c.fail("internal", std::string(op.name) + " failed: " + isl_ctx_last_error_msg(c.ctx));
			c.label(!s.valid ? "invalid argument rejected" : s.err == isl_error_quota ? "failed:quota" : "failed:invalid");
		} else c.step();
		bool overlap = strstr(op.name, "gist") && strstr(op.name, "pw_");
		bool bad = op.ret == 'o' && !s.failed && (!s.valid || overlap || !well_typed(c.ctx, op.rtype, r));
		for (auto &p : parts) {
			if (p.failed) {
				// an uninterrupted call that fails does so for its arguments
				continue;
			}
			if (s.failed) {
				if (s.err != isl_error_quota) c.fail("interrupted-success", std::string(op.name) + " (" + p.how + ") succeeds, but fails without interruption");
				if (op.ret == 'o') otypes[op.rtype].free(p.r);
				continue;
			}
			if (op.ret == 'o') {
				int e = bad ? -1 : oequal(c.ctx, op.rtype, p.r, r);
				std::string a = e == 0 ? ostr(op.rtype, p.r) : "";
				if (e == 0 && !repr_op(op)) c.fail("interrupted-result", std::string(op.name) + " (" + p.how + ") gives\n" + a + "\ninstead of\n" + ostr(op.rtype, r));
				otypes[op.rtype].free(p.r);
			} else if ((p.rv != s.r || p.rstr != s.str) && !repr_op(op))
				c.fail("interrupted-result", std::string(op.name) + " (" + p.how + ") gives " + std::to_string(p.rv) + p.rstr + " instead of " + std::to_string(s.r) + s.str);
		}
		if (s.failed || op.ret != 'o') continue;
		if (bad) { otypes[op.rtype].free(r); continue; }
		std::string rs = ostr(op.rtype, r);
		c.log << "    " << rs << "\n";
		if (rs.size() > cfg.max_str || rs == "(no string)") { otypes[op.rtype].free(r); c.label("too-large"); continue; }
		A.p.push_back(r);
		A.type.push_back(op.rtype);
		P.slot_type.push_back(op.rtype);
		str.push_back(rs);
	}
	if (cut) c.nontrivial = true;
}

Prop vp::the_prop = {"C27", "every call of a random program is cut off 1-4 times by an operation limit (log-uniform in 1..2048) or an abort request before it is run to completion, some with invalid numbers; non-trivial: at least one call was cut off",
	run, 20000, 1000000, 0};
static struct Init { Init() { vp::the_prop.leak_check = true; } } init_;
