// signatures of tuple spaces
static std::string tname(isl_space *sp, isl_dim_type t) { const char *n = isl_space_has_tuple_name(sp, t) == isl_bool_true ? isl_space_get_tuple_name(sp, t) : nullptr; return n ? n : ""; }
static std::string sig_set(isl_space *sp);   // takes; set space
static std::string sig_map(isl_space *sp)    // takes; map space
{
	std::string r = sig_set(isl_space_domain(isl_space_copy(sp))) + "->" + sig_set(isl_space_range(isl_space_copy(sp)));
	isl_space_free(sp);
	return r;
}
static std::string sig_set(isl_space *sp)
{
	std::string r;
	if (isl_space_is_params(sp) == isl_bool_true) r = ":";
	else if (isl_space_is_wrapping(sp) == isl_bool_true) {
		std::string n = tname(sp, isl_dim_set);
		r = n + "[" + sig_map(isl_space_unwrap(isl_space_copy(sp))) + "]";
	} else r = tname(sp, isl_dim_set) + "[" + std::to_string(isl_space_dim(sp, isl_dim_set)) + "]";
	isl_space_free(sp);
	return r;
}
static std::string sig_of(isl_space *sp) { if (isl_space_is_map(sp) == isl_bool_true) return sig_map(sp); return sig_set(sp); }

static std::vector<std::string> pnames(isl_space *sp)
{
	std::vector<std::string> v;
	int n = isl_space_dim(sp, isl_dim_param);
	for (int i = 0; i < n; ++i) { const char *s = isl_space_get_dim_name(sp, isl_dim_param, i); v.push_back(s ? s : "?"); }
	return v;
}
