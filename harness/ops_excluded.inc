	// sizes exponential in the value
	"isl_val_2exp", "isl_val_pow2",
	// precondition on the arguments (disjoint domains) that is not checked
	"isl_pw_qpolynomial_add_disjoint", "isl_pw_qpolynomial_fold_add_disjoint", "isl_pw_multi_aff_add_disjoint", "isl_pw_aff_add_disjoint",
	// need bounded domains
	"isl_set_count_val", "isl_basic_set_count_val",
	"isl_pw_qpolynomial_min", "isl_pw_qpolynomial_max", "isl_pw_qpolynomial_fold_min", "isl_pw_qpolynomial_fold_max",
	// all elements have to live in the same space, not checked
	"isl_set_unshifted_simple_hull_from_set_list", "isl_map_unshifted_simple_hull_from_map_list",
	// replace the space by one of another structure, not checked
	"isl_set_reset_space", "isl_map_reset_space", "isl_basic_set_reset_space", "isl_basic_map_reset_space", "isl_pw_*_reset_space",
	"isl_pw_aff_reset_domain_space", "isl_pw_multi_aff_reset_domain_space", "isl_pw_qpolynomial_reset_domain_space", "isl_pw_qpolynomial_fold_reset_domain_space",
	"isl_aff_reset_domain_space", "isl_multi_aff_reset_domain_space", "isl_multi_*_reset_domain_space", "isl_qpolynomial_reset_domain_space",
	// need a relation space with domain and range of the given dimensions, not checked
	"isl_basic_map_equal", "isl_basic_map_less_at", "isl_basic_map_more_at", "isl_map_lex_lt_first", "isl_map_lex_le_first", "isl_map_lex_gt_first", "isl_map_lex_ge_first",
	// low-level comparison of two sets in the same space at an existing position
	"isl_basic_set_compare_at", "isl_set_compare_at",
	// assumes that the expression does not depend on the domain dimensions (pieces would overlap)
	"*_project_domain_on_params",
