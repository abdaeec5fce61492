// shared by C14 and C15: reading printed objects back
static bool has_weird(const std::string &s) { return s.find('?') != std::string::npos || s.find("#none") != std::string::npos; }
static void reread(Case &c, const char *t, void *o, const std::string &text)
{
	int ty = type_of(t);
	const OType &ot = otypes[ty];
	if (!ot.read) return;
	if (text.find("rat:") != std::string::npos) { c.label("rational"); return; }
	isl_ctx_reset_error(c.ctx);
	isl_ctx_reset_operations(c.ctx);
	void *q = ot.read(c.ctx, text.c_str());
	std::string n = t;
	if (!q) {
		if (isl_ctx_last_error(c.ctx) == isl_error_quota) { clear_error(c); return; }
		// a syntax error may hide an exhausted budget
		if (unsigned long mx = isl_ctx_get_max_operations(c.ctx)) {
			clear_error(c);
			isl_ctx_set_max_operations(c.ctx, 100 * mx);
			isl_ctx_reset_operations(c.ctx);
			void *q2 = ot.read(c.ctx, text.c_str());
			bool quota = isl_ctx_last_error(c.ctx) == isl_error_quota;
			isl_ctx_set_max_operations(c.ctx, mx);
			isl_ctx_reset_operations(c.ctx);
			if (q2 || quota) { if (q2) ot.free(q2); clear_error(c); c.label("quota"); return; }
		}
		const char *m = isl_ctx_last_error_msg(c.ctx);
		std::string msg = m ? m : "";
		clear_error(c);
		if (n == "pw_multi_aff_list" && msg.find("single space") != std::string::npos) { c.label("known:pma-read-empty"); return; }
		if (n == "pw_multi_aff" && msg.find("single space") != std::string::npos && isl_pw_multi_aff_involves_nan((isl_pw_multi_aff *)o) == isl_bool_false) {
			isl_set *d = isl_pw_multi_aff_domain(isl_pw_multi_aff_copy((isl_pw_multi_aff *)o));
			bool e = isl_set_is_empty(d) == isl_bool_true;
			isl_set_free(d);
			if (e) { c.label("known:pma-read-empty"); return; }
		}
		// functions on no tuple at all
		if (n == "multi_pw_aff" || n == "pw_multi_aff" || n == "multi_union_pw_aff" || n == "union_pw_multi_aff" || n == "union_pw_multi_aff_list" || n == "pw_multi_aff_list") {
			if (text.find("{  : ") != std::string::npos || text.find(";  ") != std::string::npos) { c.label("params:" + n); return; }
			if (!ot.space) c.fail("reread-rejected", n + " printed as " + text + "\nis not read back: " + msg);
			isl_space *sp = ot.space(o);
			bool params = isl_space_is_params(sp) == isl_bool_true;
			isl_space_free(sp);
			if (params) { c.label("params:" + n); return; }
		}
		// objects of an invalid kind
		if (n == "union_map" && text.find("->", text.find('{') == std::string::npos ? 0 : text.find('{')) == std::string::npos) { c.label("ill-typed:" + n); return; }
		// an empty piecewise tuple has no piece to carry its space
		if (((text.find("{  }") != std::string::npos || text.find("{ }") != std::string::npos))) { c.label("spaceless:" + n); return; }
		c.fail("reread-rejected", n + " printed as " + text + "\nis not read back: " + msg);
	}
	// same space
	bool same = true;
	if (ot.space) {
		isl_space *a = ot.space(o), *b = ot.space(q);
		bool unnamed = false;
		if (a) for (auto &x : pnames(a)) if (x == "?") unnamed = true;
		// the range of an affine expression is a single anonymous dimension
		if (n == "pw_aff" || n == "aff") { if (a) a = isl_space_domain(a); if (b) b = isl_space_domain(b); }
		if (!unnamed && a && b && strncmp(t, "union", 5) && n != "multi_union_pw_aff" && n != "schedule") {
			bool infos = text.find("-> 0 }") != std::string::npos || text.find("{ 0 }") != std::string::npos || text.find("{  }") != std::string::npos || text.find("{ }") != std::string::npos;
			if (!infos) same = sig_of(isl_space_copy(a)) == sig_of(isl_space_copy(b)) && pnames(a) == pnames(b);
			else { c.label("spaceless:" + n); isl_space_free(a); isl_space_free(b); ot.free(q); return; }
		}
		isl_space_free(a);
		isl_space_free(b);
		isl_ctx_reset_error(c.ctx);
	}
	int e = oequal(c.ctx, ty, o, q);
	if (n == "schedule_constraints" && e != 1) {
		typedef isl_schedule_constraints SC;
		SC *x = (SC *)o, *y = (SC *)q;
		USet dx(isl_schedule_constraints_get_domain(x)), dy(isl_schedule_constraints_get_domain(y));
		e = isl_union_set_is_equal(dx.g(), dy.g());
		for (auto f : {isl_schedule_constraints_get_validity, isl_schedule_constraints_get_coincidence, isl_schedule_constraints_get_proximity, isl_schedule_constraints_get_conditional_validity, isl_schedule_constraints_get_conditional_validity_condition}) {
			UMap mx(f(x)), my(f(y));
			if (isl_union_map_is_equal(mx.g(), my.g()) == isl_bool_false) e = 0;
		}
	}
	std::string qs = ostr(ty, q);
	ot.free(q);
	if (!same) c.fail("reread-space", n + " " + text + "\nis read back in another space: " + qs);
	// schedules are integer valued
	if (e == 0 && n == "schedule" && text.find(")/") != std::string::npos) { c.label("rational:" + n); return; }
	if (e == 0) c.fail("reread", n + " " + text + "\nis read back as a different object: " + qs);
	if (e == 1) c.label("reread:" + n);
	else c.label("reread-undecided:" + n);
	clear_error(c);
}
