// generated by tools/mkops.py from the public headers
#ifdef OPS_TYPES
{"aff",[](void *p) -> void * { return isl_aff_copy((isl_aff *)p); },[](void *p) { isl_aff_free((isl_aff *)p); },[](void *p) -> char * { return isl_aff_to_str((isl_aff *)p); },[](void *p, void *q) -> int { return isl_aff_plain_is_equal((isl_aff *)p, (isl_aff *)q); },2,[](void *p, int d) -> int { return isl_aff_dim((isl_aff *)p, (enum isl_dim_type)d); },[](isl_ctx *c, const char *s) -> void * { return isl_aff_read_from_str(c, s); },[](void *p) -> isl_space * { return isl_aff_get_space((isl_aff *)p); },nullptr},
{"aff_list",[](void *p) -> void * { return isl_aff_list_copy((isl_aff_list *)p); },[](void *p) { isl_aff_list_free((isl_aff_list *)p); },[](void *p) -> char * { return isl_aff_list_to_str((isl_aff_list *)p); },nullptr,0,nullptr,[](isl_ctx *c, const char *s) -> void * { return isl_aff_list_read_from_str(c, s); },nullptr,[](void *p) -> int { return isl_aff_list_size((isl_aff_list *)p); }},
{"basic_map",[](void *p) -> void * { return isl_basic_map_copy((isl_basic_map *)p); },[](void *p) { isl_basic_map_free((isl_basic_map *)p); },[](void *p) -> char * { return isl_basic_map_to_str((isl_basic_map *)p); },[](void *p, void *q) -> int { return isl_basic_map_is_equal((isl_basic_map *)p, (isl_basic_map *)q); },1,[](void *p, int d) -> int { return isl_basic_map_dim((isl_basic_map *)p, (enum isl_dim_type)d); },[](isl_ctx *c, const char *s) -> void * { return isl_basic_map_read_from_str(c, s); },[](void *p) -> isl_space * { return isl_basic_map_get_space((isl_basic_map *)p); },nullptr},
{"basic_map_list",[](void *p) -> void * { return isl_basic_map_list_copy((isl_basic_map_list *)p); },[](void *p) { isl_basic_map_list_free((isl_basic_map_list *)p); },[](void *p) -> char * { return isl_basic_map_list_to_str((isl_basic_map_list *)p); },nullptr,0,nullptr,nullptr,nullptr,[](void *p) -> int { return isl_basic_map_list_size((isl_basic_map_list *)p); }},
{"basic_set",[](void *p) -> void * { return isl_basic_set_copy((isl_basic_set *)p); },[](void *p) { isl_basic_set_free((isl_basic_set *)p); },[](void *p) -> char * { return isl_basic_set_to_str((isl_basic_set *)p); },[](void *p, void *q) -> int { return isl_basic_set_is_equal((isl_basic_set *)p, (isl_basic_set *)q); },1,[](void *p, int d) -> int { return isl_basic_set_dim((isl_basic_set *)p, (enum isl_dim_type)d); },[](isl_ctx *c, const char *s) -> void * { return isl_basic_set_read_from_str(c, s); },[](void *p) -> isl_space * { return isl_basic_set_get_space((isl_basic_set *)p); },nullptr},
{"basic_set_list",[](void *p) -> void * { return isl_basic_set_list_copy((isl_basic_set_list *)p); },[](void *p) { isl_basic_set_list_free((isl_basic_set_list *)p); },[](void *p) -> char * { return isl_basic_set_list_to_str((isl_basic_set_list *)p); },nullptr,0,nullptr,nullptr,nullptr,[](void *p) -> int { return isl_basic_set_list_size((isl_basic_set_list *)p); }},
{"constraint",[](void *p) -> void * { return isl_constraint_copy((isl_constraint *)p); },[](void *p) { isl_constraint_free((isl_constraint *)p); },nullptr,[](void *p, void *q) -> int { return isl_constraint_is_equal((isl_constraint *)p, (isl_constraint *)q); },1,[](void *p, int d) -> int { return isl_constraint_dim((isl_constraint *)p, (enum isl_dim_type)d); },nullptr,[](void *p) -> isl_space * { return isl_constraint_get_space((isl_constraint *)p); },nullptr},
{"constraint_list",[](void *p) -> void * { return isl_constraint_list_copy((isl_constraint_list *)p); },[](void *p) { isl_constraint_list_free((isl_constraint_list *)p); },[](void *p) -> char * { return isl_constraint_list_to_str((isl_constraint_list *)p); },nullptr,0,nullptr,nullptr,nullptr,[](void *p) -> int { return isl_constraint_list_size((isl_constraint_list *)p); }},
{"fixed_box",[](void *p) -> void * { return isl_fixed_box_copy((isl_fixed_box *)p); },[](void *p) { isl_fixed_box_free((isl_fixed_box *)p); },[](void *p) -> char * { return isl_fixed_box_to_str((isl_fixed_box *)p); },nullptr,0,nullptr,nullptr,[](void *p) -> isl_space * { return isl_fixed_box_get_space((isl_fixed_box *)p); },nullptr},
{"id",[](void *p) -> void * { return isl_id_copy((isl_id *)p); },[](void *p) { isl_id_free((isl_id *)p); },[](void *p) -> char * { return isl_id_to_str((isl_id *)p); },nullptr,0,nullptr,[](isl_ctx *c, const char *s) -> void * { return isl_id_read_from_str(c, s); },nullptr,nullptr},
{"id_list",[](void *p) -> void * { return isl_id_list_copy((isl_id_list *)p); },[](void *p) { isl_id_list_free((isl_id_list *)p); },[](void *p) -> char * { return isl_id_list_to_str((isl_id_list *)p); },nullptr,0,nullptr,[](isl_ctx *c, const char *s) -> void * { return isl_id_list_read_from_str(c, s); },nullptr,[](void *p) -> int { return isl_id_list_size((isl_id_list *)p); }},
{"local_space",[](void *p) -> void * { return isl_local_space_copy((isl_local_space *)p); },[](void *p) { isl_local_space_free((isl_local_space *)p); },nullptr,[](void *p, void *q) -> int { return isl_local_space_is_equal((isl_local_space *)p, (isl_local_space *)q); },1,[](void *p, int d) -> int { return isl_local_space_dim((isl_local_space *)p, (enum isl_dim_type)d); },nullptr,[](void *p) -> isl_space * { return isl_local_space_get_space((isl_local_space *)p); },nullptr},
{"map",[](void *p) -> void * { return isl_map_copy((isl_map *)p); },[](void *p) { isl_map_free((isl_map *)p); },[](void *p) -> char * { return isl_map_to_str((isl_map *)p); },[](void *p, void *q) -> int { return isl_map_is_equal((isl_map *)p, (isl_map *)q); },1,[](void *p, int d) -> int { return isl_map_dim((isl_map *)p, (enum isl_dim_type)d); },[](isl_ctx *c, const char *s) -> void * { return isl_map_read_from_str(c, s); },[](void *p) -> isl_space * { return isl_map_get_space((isl_map *)p); },nullptr},
{"map_list",[](void *p) -> void * { return isl_map_list_copy((isl_map_list *)p); },[](void *p) { isl_map_list_free((isl_map_list *)p); },[](void *p) -> char * { return isl_map_list_to_str((isl_map_list *)p); },nullptr,0,nullptr,[](isl_ctx *c, const char *s) -> void * { return isl_map_list_read_from_str(c, s); },nullptr,[](void *p) -> int { return isl_map_list_size((isl_map_list *)p); }},
{"multi_aff",[](void *p) -> void * { return isl_multi_aff_copy((isl_multi_aff *)p); },[](void *p) { isl_multi_aff_free((isl_multi_aff *)p); },[](void *p) -> char * { return isl_multi_aff_to_str((isl_multi_aff *)p); },[](void *p, void *q) -> int { return isl_multi_aff_plain_is_equal((isl_multi_aff *)p, (isl_multi_aff *)q); },2,[](void *p, int d) -> int { return isl_multi_aff_dim((isl_multi_aff *)p, (enum isl_dim_type)d); },[](isl_ctx *c, const char *s) -> void * { return isl_multi_aff_read_from_str(c, s); },[](void *p) -> isl_space * { return isl_multi_aff_get_space((isl_multi_aff *)p); },[](void *p) -> int { return isl_multi_aff_size((isl_multi_aff *)p); }},
{"multi_id",[](void *p) -> void * { return isl_multi_id_copy((isl_multi_id *)p); },[](void *p) { isl_multi_id_free((isl_multi_id *)p); },[](void *p) -> char * { return isl_multi_id_to_str((isl_multi_id *)p); },[](void *p, void *q) -> int { return isl_multi_id_plain_is_equal((isl_multi_id *)p, (isl_multi_id *)q); },2,nullptr,[](isl_ctx *c, const char *s) -> void * { return isl_multi_id_read_from_str(c, s); },[](void *p) -> isl_space * { return isl_multi_id_get_space((isl_multi_id *)p); },[](void *p) -> int { return isl_multi_id_size((isl_multi_id *)p); }},
{"multi_pw_aff",[](void *p) -> void * { return isl_multi_pw_aff_copy((isl_multi_pw_aff *)p); },[](void *p) { isl_multi_pw_aff_free((isl_multi_pw_aff *)p); },[](void *p) -> char * { return isl_multi_pw_aff_to_str((isl_multi_pw_aff *)p); },[](void *p, void *q) -> int { return isl_multi_pw_aff_is_equal((isl_multi_pw_aff *)p, (isl_multi_pw_aff *)q); },1,[](void *p, int d) -> int { return isl_multi_pw_aff_dim((isl_multi_pw_aff *)p, (enum isl_dim_type)d); },[](isl_ctx *c, const char *s) -> void * { return isl_multi_pw_aff_read_from_str(c, s); },[](void *p) -> isl_space * { return isl_multi_pw_aff_get_space((isl_multi_pw_aff *)p); },[](void *p) -> int { return isl_multi_pw_aff_size((isl_multi_pw_aff *)p); }},
{"multi_union_pw_aff",[](void *p) -> void * { return isl_multi_union_pw_aff_copy((isl_multi_union_pw_aff *)p); },[](void *p) { isl_multi_union_pw_aff_free((isl_multi_union_pw_aff *)p); },[](void *p) -> char * { return isl_multi_union_pw_aff_to_str((isl_multi_union_pw_aff *)p); },[](void *p, void *q) -> int { return isl_multi_union_pw_aff_plain_is_equal((isl_multi_union_pw_aff *)p, (isl_multi_union_pw_aff *)q); },2,[](void *p, int d) -> int { return isl_multi_union_pw_aff_dim((isl_multi_union_pw_aff *)p, (enum isl_dim_type)d); },[](isl_ctx *c, const char *s) -> void * { return isl_multi_union_pw_aff_read_from_str(c, s); },[](void *p) -> isl_space * { return isl_multi_union_pw_aff_get_space((isl_multi_union_pw_aff *)p); },[](void *p) -> int { return isl_multi_union_pw_aff_size((isl_multi_union_pw_aff *)p); }},
{"multi_val",[](void *p) -> void * { return isl_multi_val_copy((isl_multi_val *)p); },[](void *p) { isl_multi_val_free((isl_multi_val *)p); },[](void *p) -> char * { return isl_multi_val_to_str((isl_multi_val *)p); },[](void *p, void *q) -> int { return isl_multi_val_plain_is_equal((isl_multi_val *)p, (isl_multi_val *)q); },2,[](void *p, int d) -> int { return isl_multi_val_dim((isl_multi_val *)p, (enum isl_dim_type)d); },[](isl_ctx *c, const char *s) -> void * { return isl_multi_val_read_from_str(c, s); },[](void *p) -> isl_space * { return isl_multi_val_get_space((isl_multi_val *)p); },[](void *p) -> int { return isl_multi_val_size((isl_multi_val *)p); }},
{"point",[](void *p) -> void * { return isl_point_copy((isl_point *)p); },[](void *p) { isl_point_free((isl_point *)p); },[](void *p) -> char * { return isl_point_to_str((isl_point *)p); },nullptr,0,nullptr,nullptr,[](void *p) -> isl_space * { return isl_point_get_space((isl_point *)p); },nullptr},
{"pw_aff",[](void *p) -> void * { return isl_pw_aff_copy((isl_pw_aff *)p); },[](void *p) { isl_pw_aff_free((isl_pw_aff *)p); },[](void *p) -> char * { return isl_pw_aff_to_str((isl_pw_aff *)p); },[](void *p, void *q) -> int { return isl_pw_aff_is_equal((isl_pw_aff *)p, (isl_pw_aff *)q); },1,[](void *p, int d) -> int { return isl_pw_aff_dim((isl_pw_aff *)p, (enum isl_dim_type)d); },[](isl_ctx *c, const char *s) -> void * { return isl_pw_aff_read_from_str(c, s); },[](void *p) -> isl_space * { return isl_pw_aff_get_space((isl_pw_aff *)p); },nullptr},
{"pw_aff_list",[](void *p) -> void * { return isl_pw_aff_list_copy((isl_pw_aff_list *)p); },[](void *p) { isl_pw_aff_list_free((isl_pw_aff_list *)p); },[](void *p) -> char * { return isl_pw_aff_list_to_str((isl_pw_aff_list *)p); },nullptr,0,nullptr,[](isl_ctx *c, const char *s) -> void * { return isl_pw_aff_list_read_from_str(c, s); },nullptr,[](void *p) -> int { return isl_pw_aff_list_size((isl_pw_aff_list *)p); }},
{"pw_multi_aff",[](void *p) -> void * { return isl_pw_multi_aff_copy((isl_pw_multi_aff *)p); },[](void *p) { isl_pw_multi_aff_free((isl_pw_multi_aff *)p); },[](void *p) -> char * { return isl_pw_multi_aff_to_str((isl_pw_multi_aff *)p); },[](void *p, void *q) -> int { return isl_pw_multi_aff_is_equal((isl_pw_multi_aff *)p, (isl_pw_multi_aff *)q); },1,[](void *p, int d) -> int { return isl_pw_multi_aff_dim((isl_pw_multi_aff *)p, (enum isl_dim_type)d); },[](isl_ctx *c, const char *s) -> void * { return isl_pw_multi_aff_read_from_str(c, s); },[](void *p) -> isl_space * { return isl_pw_multi_aff_get_space((isl_pw_multi_aff *)p); },nullptr},
{"pw_multi_aff_list",[](void *p) -> void * { return isl_pw_multi_aff_list_copy((isl_pw_multi_aff_list *)p); },[](void *p) { isl_pw_multi_aff_list_free((isl_pw_multi_aff_list *)p); },[](void *p) -> char * { return isl_pw_multi_aff_list_to_str((isl_pw_multi_aff_list *)p); },nullptr,0,nullptr,[](isl_ctx *c, const char *s) -> void * { return isl_pw_multi_aff_list_read_from_str(c, s); },nullptr,[](void *p) -> int { return isl_pw_multi_aff_list_size((isl_pw_multi_aff_list *)p); }},
{"pw_qpolynomial",[](void *p) -> void * { return isl_pw_qpolynomial_copy((isl_pw_qpolynomial *)p); },[](void *p) { isl_pw_qpolynomial_free((isl_pw_qpolynomial *)p); },[](void *p) -> char * { return isl_pw_qpolynomial_to_str((isl_pw_qpolynomial *)p); },[](void *p, void *q) -> int { return isl_pw_qpolynomial_plain_is_equal((isl_pw_qpolynomial *)p, (isl_pw_qpolynomial *)q); },2,[](void *p, int d) -> int { return isl_pw_qpolynomial_dim((isl_pw_qpolynomial *)p, (enum isl_dim_type)d); },[](isl_ctx *c, const char *s) -> void * { return isl_pw_qpolynomial_read_from_str(c, s); },[](void *p) -> isl_space * { return isl_pw_qpolynomial_get_space((isl_pw_qpolynomial *)p); },nullptr},
{"pw_qpolynomial_fold",[](void *p) -> void * { return isl_pw_qpolynomial_fold_copy((isl_pw_qpolynomial_fold *)p); },[](void *p) { isl_pw_qpolynomial_fold_free((isl_pw_qpolynomial_fold *)p); },nullptr,[](void *p, void *q) -> int { return isl_pw_qpolynomial_fold_plain_is_equal((isl_pw_qpolynomial_fold *)p, (isl_pw_qpolynomial_fold *)q); },2,[](void *p, int d) -> int { return isl_pw_qpolynomial_fold_dim((isl_pw_qpolynomial_fold *)p, (enum isl_dim_type)d); },[](isl_ctx *c, const char *s) -> void * { return isl_pw_qpolynomial_fold_read_from_str(c, s); },[](void *p) -> isl_space * { return isl_pw_qpolynomial_fold_get_space((isl_pw_qpolynomial_fold *)p); },[](void *p) -> int { return isl_pw_qpolynomial_fold_size((isl_pw_qpolynomial_fold *)p); }},
{"pw_qpolynomial_fold_list",[](void *p) -> void * { return isl_pw_qpolynomial_fold_list_copy((isl_pw_qpolynomial_fold_list *)p); },[](void *p) { isl_pw_qpolynomial_fold_list_free((isl_pw_qpolynomial_fold_list *)p); },[](void *p) -> char * { return isl_pw_qpolynomial_fold_list_to_str((isl_pw_qpolynomial_fold_list *)p); },nullptr,0,nullptr,nullptr,nullptr,[](void *p) -> int { return isl_pw_qpolynomial_fold_list_size((isl_pw_qpolynomial_fold_list *)p); }},
{"pw_qpolynomial_list",[](void *p) -> void * { return isl_pw_qpolynomial_list_copy((isl_pw_qpolynomial_list *)p); },[](void *p) { isl_pw_qpolynomial_list_free((isl_pw_qpolynomial_list *)p); },[](void *p) -> char * { return isl_pw_qpolynomial_list_to_str((isl_pw_qpolynomial_list *)p); },nullptr,0,nullptr,nullptr,nullptr,[](void *p) -> int { return isl_pw_qpolynomial_list_size((isl_pw_qpolynomial_list *)p); }},
{"qpolynomial",[](void *p) -> void * { return isl_qpolynomial_copy((isl_qpolynomial *)p); },[](void *p) { isl_qpolynomial_free((isl_qpolynomial *)p); },nullptr,[](void *p, void *q) -> int { return isl_qpolynomial_plain_is_equal((isl_qpolynomial *)p, (isl_qpolynomial *)q); },2,[](void *p, int d) -> int { return isl_qpolynomial_dim((isl_qpolynomial *)p, (enum isl_dim_type)d); },nullptr,[](void *p) -> isl_space * { return isl_qpolynomial_get_space((isl_qpolynomial *)p); },nullptr},
{"qpolynomial_fold",[](void *p) -> void * { return isl_qpolynomial_fold_copy((isl_qpolynomial_fold *)p); },[](void *p) { isl_qpolynomial_fold_free((isl_qpolynomial_fold *)p); },nullptr,[](void *p, void *q) -> int { return isl_qpolynomial_fold_plain_is_equal((isl_qpolynomial_fold *)p, (isl_qpolynomial_fold *)q); },2,nullptr,nullptr,[](void *p) -> isl_space * { return isl_qpolynomial_fold_get_space((isl_qpolynomial_fold *)p); },nullptr},
{"qpolynomial_list",[](void *p) -> void * { return isl_qpolynomial_list_copy((isl_qpolynomial_list *)p); },[](void *p) { isl_qpolynomial_list_free((isl_qpolynomial_list *)p); },[](void *p) -> char * { return isl_qpolynomial_list_to_str((isl_qpolynomial_list *)p); },nullptr,0,nullptr,nullptr,nullptr,[](void *p) -> int { return isl_qpolynomial_list_size((isl_qpolynomial_list *)p); }},
{"schedule",[](void *p) -> void * { return isl_schedule_copy((isl_schedule *)p); },[](void *p) { isl_schedule_free((isl_schedule *)p); },[](void *p) -> char * { return isl_schedule_to_str((isl_schedule *)p); },[](void *p, void *q) -> int { return isl_schedule_plain_is_equal((isl_schedule *)p, (isl_schedule *)q); },2,nullptr,[](isl_ctx *c, const char *s) -> void * { return isl_schedule_read_from_str(c, s); },nullptr,nullptr},
{"schedule_constraints",[](void *p) -> void * { return isl_schedule_constraints_copy((isl_schedule_constraints *)p); },[](void *p) { isl_schedule_constraints_free((isl_schedule_constraints *)p); },[](void *p) -> char * { return isl_schedule_constraints_to_str((isl_schedule_constraints *)p); },nullptr,0,nullptr,[](isl_ctx *c, const char *s) -> void * { return isl_schedule_constraints_read_from_str(c, s); },nullptr,nullptr},
{"schedule_node",[](void *p) -> void * { return isl_schedule_node_copy((isl_schedule_node *)p); },[](void *p) { isl_schedule_node_free((isl_schedule_node *)p); },[](void *p) -> char * { return isl_schedule_node_to_str((isl_schedule_node *)p); },[](void *p, void *q) -> int { return isl_schedule_node_is_equal((isl_schedule_node *)p, (isl_schedule_node *)q); },1,nullptr,nullptr,nullptr,nullptr},
{"set",[](void *p) -> void * { return isl_set_copy((isl_set *)p); },[](void *p) { isl_set_free((isl_set *)p); },[](void *p) -> char * { return isl_set_to_str((isl_set *)p); },[](void *p, void *q) -> int { return isl_set_is_equal((isl_set *)p, (isl_set *)q); },1,[](void *p, int d) -> int { return isl_set_dim((isl_set *)p, (enum isl_dim_type)d); },[](isl_ctx *c, const char *s) -> void * { return isl_set_read_from_str(c, s); },[](void *p) -> isl_space * { return isl_set_get_space((isl_set *)p); },[](void *p) -> int { return isl_set_size((isl_set *)p); }},
{"set_list",[](void *p) -> void * { return isl_set_list_copy((isl_set_list *)p); },[](void *p) { isl_set_list_free((isl_set_list *)p); },[](void *p) -> char * { return isl_set_list_to_str((isl_set_list *)p); },nullptr,0,nullptr,[](isl_ctx *c, const char *s) -> void * { return isl_set_list_read_from_str(c, s); },nullptr,[](void *p) -> int { return isl_set_list_size((isl_set_list *)p); }},
{"space",[](void *p) -> void * { return isl_space_copy((isl_space *)p); },[](void *p) { isl_space_free((isl_space *)p); },[](void *p) -> char * { return isl_space_to_str((isl_space *)p); },[](void *p, void *q) -> int { return isl_space_is_equal((isl_space *)p, (isl_space *)q); },1,[](void *p, int d) -> int { return isl_space_dim((isl_space *)p, (enum isl_dim_type)d); },[](isl_ctx *c, const char *s) -> void * { return isl_space_read_from_str(c, s); },nullptr,nullptr},
{"stride_info",[](void *p) -> void * { return isl_stride_info_copy((isl_stride_info *)p); },[](void *p) { isl_stride_info_free((isl_stride_info *)p); },nullptr,nullptr,0,nullptr,nullptr,nullptr,nullptr},
{"term",[](void *p) -> void * { return isl_term_copy((isl_term *)p); },[](void *p) { isl_term_free((isl_term *)p); },nullptr,nullptr,0,[](void *p, int d) -> int { return isl_term_dim((isl_term *)p, (enum isl_dim_type)d); },nullptr,nullptr,nullptr},
{"union_access_info",[](void *p) -> void * { return isl_union_access_info_copy((isl_union_access_info *)p); },[](void *p) { isl_union_access_info_free((isl_union_access_info *)p); },[](void *p) -> char * { return isl_union_access_info_to_str((isl_union_access_info *)p); },nullptr,0,nullptr,nullptr,nullptr,nullptr},
{"union_flow",[](void *p) -> void * { return isl_union_flow_copy((isl_union_flow *)p); },[](void *p) { isl_union_flow_free((isl_union_flow *)p); },[](void *p) -> char * { return isl_union_flow_to_str((isl_union_flow *)p); },nullptr,0,nullptr,nullptr,nullptr,nullptr},
{"union_map",[](void *p) -> void * { return isl_union_map_copy((isl_union_map *)p); },[](void *p) { isl_union_map_free((isl_union_map *)p); },[](void *p) -> char * { return isl_union_map_to_str((isl_union_map *)p); },[](void *p, void *q) -> int { return isl_union_map_is_equal((isl_union_map *)p, (isl_union_map *)q); },1,[](void *p, int d) -> int { return isl_union_map_dim((isl_union_map *)p, (enum isl_dim_type)d); },[](isl_ctx *c, const char *s) -> void * { return isl_union_map_read_from_str(c, s); },[](void *p) -> isl_space * { return isl_union_map_get_space((isl_union_map *)p); },nullptr},
{"union_map_list",[](void *p) -> void * { return isl_union_map_list_copy((isl_union_map_list *)p); },[](void *p) { isl_union_map_list_free((isl_union_map_list *)p); },[](void *p) -> char * { return isl_union_map_list_to_str((isl_union_map_list *)p); },nullptr,0,nullptr,nullptr,nullptr,[](void *p) -> int { return isl_union_map_list_size((isl_union_map_list *)p); }},
{"union_pw_aff",[](void *p) -> void * { return isl_union_pw_aff_copy((isl_union_pw_aff *)p); },[](void *p) { isl_union_pw_aff_free((isl_union_pw_aff *)p); },[](void *p) -> char * { return isl_union_pw_aff_to_str((isl_union_pw_aff *)p); },[](void *p, void *q) -> int { return isl_union_pw_aff_plain_is_equal((isl_union_pw_aff *)p, (isl_union_pw_aff *)q); },2,[](void *p, int d) -> int { return isl_union_pw_aff_dim((isl_union_pw_aff *)p, (enum isl_dim_type)d); },[](isl_ctx *c, const char *s) -> void * { return isl_union_pw_aff_read_from_str(c, s); },[](void *p) -> isl_space * { return isl_union_pw_aff_get_space((isl_union_pw_aff *)p); },nullptr},
{"union_pw_aff_list",[](void *p) -> void * { return isl_union_pw_aff_list_copy((isl_union_pw_aff_list *)p); },[](void *p) { isl_union_pw_aff_list_free((isl_union_pw_aff_list *)p); },[](void *p) -> char * { return isl_union_pw_aff_list_to_str((isl_union_pw_aff_list *)p); },nullptr,0,nullptr,[](isl_ctx *c, const char *s) -> void * { return isl_union_pw_aff_list_read_from_str(c, s); },nullptr,[](void *p) -> int { return isl_union_pw_aff_list_size((isl_union_pw_aff_list *)p); }},
{"union_pw_multi_aff",[](void *p) -> void * { return isl_union_pw_multi_aff_copy((isl_union_pw_multi_aff *)p); },[](void *p) { isl_union_pw_multi_aff_free((isl_union_pw_multi_aff *)p); },[](void *p) -> char * { return isl_union_pw_multi_aff_to_str((isl_union_pw_multi_aff *)p); },[](void *p, void *q) -> int { return isl_union_pw_multi_aff_plain_is_equal((isl_union_pw_multi_aff *)p, (isl_union_pw_multi_aff *)q); },2,[](void *p, int d) -> int { return isl_union_pw_multi_aff_dim((isl_union_pw_multi_aff *)p, (enum isl_dim_type)d); },[](isl_ctx *c, const char *s) -> void * { return isl_union_pw_multi_aff_read_from_str(c, s); },[](void *p) -> isl_space * { return isl_union_pw_multi_aff_get_space((isl_union_pw_multi_aff *)p); },nullptr},
{"union_pw_multi_aff_list",[](void *p) -> void * { return isl_union_pw_multi_aff_list_copy((isl_union_pw_multi_aff_list *)p); },[](void *p) { isl_union_pw_multi_aff_list_free((isl_union_pw_multi_aff_list *)p); },[](void *p) -> char * { return isl_union_pw_multi_aff_list_to_str((isl_union_pw_multi_aff_list *)p); },nullptr,0,nullptr,nullptr,nullptr,[](void *p) -> int { return isl_union_pw_multi_aff_list_size((isl_union_pw_multi_aff_list *)p); }},
{"union_pw_qpolynomial",[](void *p) -> void * { return isl_union_pw_qpolynomial_copy((isl_union_pw_qpolynomial *)p); },[](void *p) { isl_union_pw_qpolynomial_free((isl_union_pw_qpolynomial *)p); },[](void *p) -> char * { return isl_union_pw_qpolynomial_to_str((isl_union_pw_qpolynomial *)p); },[](void *p, void *q) -> int { return isl_union_pw_qpolynomial_plain_is_equal((isl_union_pw_qpolynomial *)p, (isl_union_pw_qpolynomial *)q); },2,[](void *p, int d) -> int { return isl_union_pw_qpolynomial_dim((isl_union_pw_qpolynomial *)p, (enum isl_dim_type)d); },[](isl_ctx *c, const char *s) -> void * { return isl_union_pw_qpolynomial_read_from_str(c, s); },[](void *p) -> isl_space * { return isl_union_pw_qpolynomial_get_space((isl_union_pw_qpolynomial *)p); },nullptr},
{"union_pw_qpolynomial_fold",[](void *p) -> void * { return isl_union_pw_qpolynomial_fold_copy((isl_union_pw_qpolynomial_fold *)p); },[](void *p) { isl_union_pw_qpolynomial_fold_free((isl_union_pw_qpolynomial_fold *)p); },nullptr,[](void *p, void *q) -> int { return isl_union_pw_qpolynomial_fold_plain_is_equal((isl_union_pw_qpolynomial_fold *)p, (isl_union_pw_qpolynomial_fold *)q); },2,[](void *p, int d) -> int { return isl_union_pw_qpolynomial_fold_dim((isl_union_pw_qpolynomial_fold *)p, (enum isl_dim_type)d); },nullptr,[](void *p) -> isl_space * { return isl_union_pw_qpolynomial_fold_get_space((isl_union_pw_qpolynomial_fold *)p); },nullptr},
{"union_set",[](void *p) -> void * { return isl_union_set_copy((isl_union_set *)p); },[](void *p) { isl_union_set_free((isl_union_set *)p); },[](void *p) -> char * { return isl_union_set_to_str((isl_union_set *)p); },[](void *p, void *q) -> int { return isl_union_set_is_equal((isl_union_set *)p, (isl_union_set *)q); },1,[](void *p, int d) -> int { return isl_union_set_dim((isl_union_set *)p, (enum isl_dim_type)d); },[](isl_ctx *c, const char *s) -> void * { return isl_union_set_read_from_str(c, s); },[](void *p) -> isl_space * { return isl_union_set_get_space((isl_union_set *)p); },nullptr},
{"union_set_list",[](void *p) -> void * { return isl_union_set_list_copy((isl_union_set_list *)p); },[](void *p) { isl_union_set_list_free((isl_union_set_list *)p); },[](void *p) -> char * { return isl_union_set_list_to_str((isl_union_set_list *)p); },nullptr,0,nullptr,[](isl_ctx *c, const char *s) -> void * { return isl_union_set_list_read_from_str(c, s); },nullptr,[](void *p) -> int { return isl_union_set_list_size((isl_union_set_list *)p); }},
{"val",[](void *p) -> void * { return isl_val_copy((isl_val *)p); },[](void *p) { isl_val_free((isl_val *)p); },[](void *p) -> char * { return isl_val_to_str((isl_val *)p); },[](void *p, void *q) -> int { return isl_val_eq((isl_val *)p, (isl_val *)q); },3,nullptr,[](isl_ctx *c, const char *s) -> void * { return isl_val_read_from_str(c, s); },nullptr,nullptr},
{"val_list",[](void *p) -> void * { return isl_val_list_copy((isl_val_list *)p); },[](void *p) { isl_val_list_free((isl_val_list *)p); },[](void *p) -> char * { return isl_val_list_to_str((isl_val_list *)p); },nullptr,0,nullptr,[](isl_ctx *c, const char *s) -> void * { return isl_val_list_read_from_str(c, s); },nullptr,[](void *p) -> int { return isl_val_list_size((isl_val_list *)p); }},
#endif
#ifdef OPS_OPS
{"isl_aff_add",'o',0,{{'t',0},{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_add((isl_aff *)a[0], (isl_aff *)a[1]); }},
{"isl_aff_add_coefficient_si",'o',0,{{'t',0},{'d',0},{'p',0},{'i',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_add_coefficient_si((isl_aff *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_aff_add_coefficient_val",'o',0,{{'t',0},{'d',0},{'p',0},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_add_coefficient_val((isl_aff *)a[0], (enum isl_dim_type)n[0], n[1], (isl_val *)a[1]); }},
{"isl_aff_add_constant_num_si",'o',0,{{'t',0},{'i',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_add_constant_num_si((isl_aff *)a[0], n[0]); }},
{"isl_aff_add_constant_si",'o',0,{{'t',0},{'i',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_add_constant_si((isl_aff *)a[0], n[0]); }},
{"isl_aff_add_constant_val",'o',0,{{'t',0},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_add_constant_val((isl_aff *)a[0], (isl_val *)a[1]); }},
{"isl_aff_add_dims",'o',0,{{'t',0},{'d',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_add_dims((isl_aff *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_aff_align_params",'o',0,{{'t',0},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_align_params((isl_aff *)a[0], (isl_space *)a[1]); }},
{"isl_aff_bind_id",'o',4,{{'t',0},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_bind_id((isl_aff *)a[0], (isl_id *)a[1]); }},
{"isl_aff_ceil",'o',0,{{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_ceil((isl_aff *)a[0]); }},
{"isl_aff_coefficient_sgn",'i',-1,{{'k',0},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_aff_coefficient_sgn((isl_aff *)a[0], (enum isl_dim_type)n[0], n[1]); return nullptr; }},
{"isl_aff_dim",'z',-1,{{'k',0},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_aff_dim((isl_aff *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_aff_div",'o',0,{{'t',0},{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_div((isl_aff *)a[0], (isl_aff *)a[1]); }},
{"isl_aff_drop_dims",'o',0,{{'t',0},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_drop_dims((isl_aff *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_aff_eq_basic_set",'o',4,{{'t',0},{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_eq_basic_set((isl_aff *)a[0], (isl_aff *)a[1]); }},
{"isl_aff_eq_set",'o',34,{{'t',0},{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_eq_set((isl_aff *)a[0], (isl_aff *)a[1]); }},
{"isl_aff_eval",'o',51,{{'t',0},{'t',19}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_eval((isl_aff *)a[0], (isl_point *)a[1]); }},
{"isl_aff_find_dim_by_name",'i',-1,{{'k',0},{'d',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_aff_find_dim_by_name((isl_aff *)a[0], (enum isl_dim_type)n[0], s[0]); return nullptr; }},
{"isl_aff_floor",'o',0,{{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_floor((isl_aff *)a[0]); }},
{"isl_aff_from_range",'o',0,{{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_from_range((isl_aff *)a[0]); }},
{"isl_aff_ge_basic_set",'o',4,{{'t',0},{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_ge_basic_set((isl_aff *)a[0], (isl_aff *)a[1]); }},
{"isl_aff_ge_set",'o',34,{{'t',0},{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_ge_set((isl_aff *)a[0], (isl_aff *)a[1]); }},
{"isl_aff_get_coefficient_val",'o',51,{{'k',0},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_get_coefficient_val((isl_aff *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_aff_get_constant_val",'o',51,{{'k',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_get_constant_val((isl_aff *)a[0]); }},
{"isl_aff_get_denominator_val",'o',51,{{'k',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_get_denominator_val((isl_aff *)a[0]); }},
{"isl_aff_get_dim_name",'s',-1,{{'k',0},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return (void *)isl_aff_get_dim_name((isl_aff *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_aff_get_div",'o',0,{{'k',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_get_div((isl_aff *)a[0], n[0]); }},
{"isl_aff_get_domain_local_space",'o',11,{{'k',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_get_domain_local_space((isl_aff *)a[0]); }},
{"isl_aff_get_domain_space",'o',36,{{'k',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_get_domain_space((isl_aff *)a[0]); }},
{"isl_aff_get_local_space",'o',11,{{'k',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_get_local_space((isl_aff *)a[0]); }},
{"isl_aff_get_space",'o',36,{{'k',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_get_space((isl_aff *)a[0]); }},
{"isl_aff_gist",'o',0,{{'t',0},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_gist((isl_aff *)a[0], (isl_set *)a[1]); }},
{"isl_aff_gist_params",'o',0,{{'t',0},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_gist_params((isl_aff *)a[0], (isl_set *)a[1]); }},
{"isl_aff_gt_basic_set",'o',4,{{'t',0},{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_gt_basic_set((isl_aff *)a[0], (isl_aff *)a[1]); }},
{"isl_aff_gt_set",'o',34,{{'t',0},{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_gt_set((isl_aff *)a[0], (isl_aff *)a[1]); }},
{"isl_aff_insert_dims",'o',0,{{'t',0},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_insert_dims((isl_aff *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_aff_involves_dims",'b',-1,{{'k',0},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_aff_involves_dims((isl_aff *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); return nullptr; }},
{"isl_aff_involves_locals",'b',-1,{{'k',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_aff_involves_locals((isl_aff *)a[0]); return nullptr; }},
{"isl_aff_is_cst",'b',-1,{{'k',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_aff_is_cst((isl_aff *)a[0]); return nullptr; }},
{"isl_aff_is_nan",'b',-1,{{'k',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_aff_is_nan((isl_aff *)a[0]); return nullptr; }},
{"isl_aff_le_basic_set",'o',4,{{'t',0},{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_le_basic_set((isl_aff *)a[0], (isl_aff *)a[1]); }},
{"isl_aff_le_set",'o',34,{{'t',0},{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_le_set((isl_aff *)a[0], (isl_aff *)a[1]); }},
{"isl_aff_list_add",'o',1,{{'t',1},{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_list_add((isl_aff_list *)a[0], (isl_aff *)a[1]); }},
{"isl_aff_list_alloc",'o',1,{{'c',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_list_alloc(ctx, n[0]); }},
{"isl_aff_list_clear",'o',1,{{'t',1}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_list_clear((isl_aff_list *)a[0]); }},
{"isl_aff_list_concat",'o',1,{{'t',1},{'t',1}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_list_concat((isl_aff_list *)a[0], (isl_aff_list *)a[1]); }},
{"isl_aff_list_drop",'o',1,{{'t',1},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_list_drop((isl_aff_list *)a[0], n[0], n[1]); }},
{"isl_aff_list_from_aff",'o',1,{{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_list_from_aff((isl_aff *)a[0]); }},
{"isl_aff_list_get_aff",'o',0,{{'k',1},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_list_get_aff((isl_aff_list *)a[0], n[0]); }},
{"isl_aff_list_get_at",'o',0,{{'k',1},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_list_get_at((isl_aff_list *)a[0], n[0]); }},
{"isl_aff_list_insert",'o',1,{{'t',1},{'p',0},{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_list_insert((isl_aff_list *)a[0], n[0], (isl_aff *)a[1]); }},
{"isl_aff_list_n_aff",'z',-1,{{'k',1}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_aff_list_n_aff((isl_aff_list *)a[0]); return nullptr; }},
{"isl_aff_list_reverse",'o',1,{{'t',1}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_list_reverse((isl_aff_list *)a[0]); }},
{"isl_aff_list_set_aff",'o',1,{{'t',1},{'p',0},{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_list_set_aff((isl_aff_list *)a[0], n[0], (isl_aff *)a[1]); }},
{"isl_aff_list_size",'z',-1,{{'k',1}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_aff_list_size((isl_aff_list *)a[0]); return nullptr; }},
{"isl_aff_list_swap",'o',1,{{'t',1},{'p',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_list_swap((isl_aff_list *)a[0], n[0], n[1]); }},
{"isl_aff_lt_basic_set",'o',4,{{'t',0},{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_lt_basic_set((isl_aff *)a[0], (isl_aff *)a[1]); }},
{"isl_aff_lt_set",'o',34,{{'t',0},{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_lt_set((isl_aff *)a[0], (isl_aff *)a[1]); }},
{"isl_aff_mod_val",'o',0,{{'t',0},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_mod_val((isl_aff *)a[0], (isl_val *)a[1]); }},
{"isl_aff_move_dims",'o',0,{{'t',0},{'d',0},{'p',0},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_move_dims((isl_aff *)a[0], (enum isl_dim_type)n[0], n[1], (enum isl_dim_type)n[2], n[3], n[4]); }},
{"isl_aff_mul",'o',0,{{'t',0},{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_mul((isl_aff *)a[0], (isl_aff *)a[1]); }},
{"isl_aff_nan_on_domain",'o',0,{{'t',11}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_nan_on_domain((isl_local_space *)a[0]); }},
{"isl_aff_nan_on_domain_space",'o',0,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_nan_on_domain_space((isl_space *)a[0]); }},
{"isl_aff_ne_set",'o',34,{{'t',0},{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_ne_set((isl_aff *)a[0], (isl_aff *)a[1]); }},
{"isl_aff_neg",'o',0,{{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_neg((isl_aff *)a[0]); }},
{"isl_aff_neg_basic_set",'o',4,{{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_neg_basic_set((isl_aff *)a[0]); }},
{"isl_aff_param_on_domain_space_id",'o',0,{{'t',36},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_param_on_domain_space_id((isl_space *)a[0], (isl_id *)a[1]); }},
{"isl_aff_plain_is_equal",'b',-1,{{'k',0},{'k',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_aff_plain_is_equal((isl_aff *)a[0], (isl_aff *)a[1]); return nullptr; }},
{"isl_aff_plain_is_zero",'b',-1,{{'k',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_aff_plain_is_zero((isl_aff *)a[0]); return nullptr; }},
{"isl_aff_project_domain_on_params",'o',0,{{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_project_domain_on_params((isl_aff *)a[0]); }},
{"isl_aff_pullback_aff",'o',0,{{'t',0},{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_pullback_aff((isl_aff *)a[0], (isl_aff *)a[1]); }},
{"isl_aff_pullback_multi_aff",'o',0,{{'t',0},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_pullback_multi_aff((isl_aff *)a[0], (isl_multi_aff *)a[1]); }},
{"isl_aff_scale_down_ui",'o',0,{{'t',0},{'u',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_scale_down_ui((isl_aff *)a[0], n[0]); }},
{"isl_aff_scale_down_val",'o',0,{{'t',0},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_scale_down_val((isl_aff *)a[0], (isl_val *)a[1]); }},
{"isl_aff_scale_val",'o',0,{{'t',0},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_scale_val((isl_aff *)a[0], (isl_val *)a[1]); }},
{"isl_aff_set_coefficient_si",'o',0,{{'t',0},{'d',0},{'p',0},{'i',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_set_coefficient_si((isl_aff *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_aff_set_coefficient_val",'o',0,{{'t',0},{'d',0},{'p',0},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_set_coefficient_val((isl_aff *)a[0], (enum isl_dim_type)n[0], n[1], (isl_val *)a[1]); }},
{"isl_aff_set_constant_si",'o',0,{{'t',0},{'i',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_set_constant_si((isl_aff *)a[0], n[0]); }},
{"isl_aff_set_constant_val",'o',0,{{'t',0},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_set_constant_val((isl_aff *)a[0], (isl_val *)a[1]); }},
{"isl_aff_set_dim_id",'o',0,{{'t',0},{'d',0},{'p',0},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_set_dim_id((isl_aff *)a[0], (enum isl_dim_type)n[0], n[1], (isl_id *)a[1]); }},
{"isl_aff_set_dim_name",'o',0,{{'t',0},{'d',0},{'p',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_set_dim_name((isl_aff *)a[0], (enum isl_dim_type)n[0], n[1], s[0]); }},
{"isl_aff_set_tuple_id",'o',0,{{'t',0},{'d',0},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_set_tuple_id((isl_aff *)a[0], (enum isl_dim_type)n[0], (isl_id *)a[1]); }},
{"isl_aff_sub",'o',0,{{'t',0},{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_sub((isl_aff *)a[0], (isl_aff *)a[1]); }},
{"isl_aff_to_list",'o',1,{{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_to_list((isl_aff *)a[0]); }},
{"isl_aff_unbind_params_insert_domain",'o',0,{{'t',0},{'t',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_unbind_params_insert_domain((isl_aff *)a[0], (isl_multi_id *)a[1]); }},
{"isl_aff_val_on_domain",'o',0,{{'t',11},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_val_on_domain((isl_local_space *)a[0], (isl_val *)a[1]); }},
{"isl_aff_val_on_domain_space",'o',0,{{'t',36},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_val_on_domain_space((isl_space *)a[0], (isl_val *)a[1]); }},
{"isl_aff_var_on_domain",'o',0,{{'t',11},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_var_on_domain((isl_local_space *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_aff_zero_basic_set",'o',4,{{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_zero_basic_set((isl_aff *)a[0]); }},
{"isl_aff_zero_on_domain",'o',0,{{'t',11}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_zero_on_domain((isl_local_space *)a[0]); }},
{"isl_aff_zero_on_domain_space",'o',0,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_aff_zero_on_domain_space((isl_space *)a[0]); }},
{"isl_basic_map_add_constraint",'o',2,{{'t',2},{'t',6}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_add_constraint((isl_basic_map *)a[0], (isl_constraint *)a[1]); }},
{"isl_basic_map_add_dims",'o',2,{{'t',2},{'d',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_add_dims((isl_basic_map *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_basic_map_affine_hull",'o',2,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_affine_hull((isl_basic_map *)a[0]); }},
{"isl_basic_map_align_params",'o',2,{{'t',2},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_align_params((isl_basic_map *)a[0], (isl_space *)a[1]); }},
{"isl_basic_map_apply_domain",'o',2,{{'t',2},{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_apply_domain((isl_basic_map *)a[0], (isl_basic_map *)a[1]); }},
{"isl_basic_map_apply_range",'o',2,{{'t',2},{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_apply_range((isl_basic_map *)a[0], (isl_basic_map *)a[1]); }},
{"isl_basic_map_can_curry",'b',-1,{{'k',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_map_can_curry((isl_basic_map *)a[0]); return nullptr; }},
{"isl_basic_map_can_uncurry",'b',-1,{{'k',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_map_can_uncurry((isl_basic_map *)a[0]); return nullptr; }},
{"isl_basic_map_can_zip",'b',-1,{{'k',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_map_can_zip((isl_basic_map *)a[0]); return nullptr; }},
{"isl_basic_map_compute_divs",'o',12,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_compute_divs((isl_basic_map *)a[0]); }},
{"isl_basic_map_curry",'o',2,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_curry((isl_basic_map *)a[0]); }},
{"isl_basic_map_deltas",'o',4,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_deltas((isl_basic_map *)a[0]); }},
{"isl_basic_map_deltas_map",'o',2,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_deltas_map((isl_basic_map *)a[0]); }},
{"isl_basic_map_detect_equalities",'o',2,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_detect_equalities((isl_basic_map *)a[0]); }},
{"isl_basic_map_dim",'z',-1,{{'k',2},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_map_dim((isl_basic_map *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_basic_map_domain",'o',4,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_domain((isl_basic_map *)a[0]); }},
{"isl_basic_map_domain_map",'o',2,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_domain_map((isl_basic_map *)a[0]); }},
{"isl_basic_map_domain_product",'o',2,{{'t',2},{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_domain_product((isl_basic_map *)a[0], (isl_basic_map *)a[1]); }},
{"isl_basic_map_drop_constraints_involving_dims",'o',2,{{'t',2},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_drop_constraints_involving_dims((isl_basic_map *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_basic_map_drop_constraints_not_involving_dims",'o',2,{{'t',2},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_drop_constraints_not_involving_dims((isl_basic_map *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_basic_map_drop_unused_params",'o',2,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_drop_unused_params((isl_basic_map *)a[0]); }},
{"isl_basic_map_eliminate",'o',2,{{'t',2},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_eliminate((isl_basic_map *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_basic_map_empty",'o',2,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_empty((isl_space *)a[0]); }},
{"isl_basic_map_equal",'o',2,{{'t',36},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_equal((isl_space *)a[0], n[0]); }},
{"isl_basic_map_equate",'o',2,{{'t',2},{'d',0},{'p',0},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_equate((isl_basic_map *)a[0], (enum isl_dim_type)n[0], n[1], (enum isl_dim_type)n[2], n[3]); }},
{"isl_basic_map_find_dim_by_name",'i',-1,{{'k',2},{'d',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_map_find_dim_by_name((isl_basic_map *)a[0], (enum isl_dim_type)n[0], s[0]); return nullptr; }},
{"isl_basic_map_fix_si",'o',2,{{'t',2},{'d',0},{'p',0},{'i',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_fix_si((isl_basic_map *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_basic_map_fix_val",'o',2,{{'t',2},{'d',0},{'p',0},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_fix_val((isl_basic_map *)a[0], (enum isl_dim_type)n[0], n[1], (isl_val *)a[1]); }},
{"isl_basic_map_flat_product",'o',2,{{'t',2},{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_flat_product((isl_basic_map *)a[0], (isl_basic_map *)a[1]); }},
{"isl_basic_map_flat_range_product",'o',2,{{'t',2},{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_flat_range_product((isl_basic_map *)a[0], (isl_basic_map *)a[1]); }},
{"isl_basic_map_flatten",'o',2,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_flatten((isl_basic_map *)a[0]); }},
{"isl_basic_map_flatten_domain",'o',2,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_flatten_domain((isl_basic_map *)a[0]); }},
{"isl_basic_map_flatten_range",'o',2,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_flatten_range((isl_basic_map *)a[0]); }},
{"isl_basic_map_from_aff",'o',2,{{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_from_aff((isl_aff *)a[0]); }},
{"isl_basic_map_from_aff_list",'o',2,{{'t',36},{'t',1}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_from_aff_list((isl_space *)a[0], (isl_aff_list *)a[1]); }},
{"isl_basic_map_from_constraint",'o',2,{{'t',6}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_from_constraint((isl_constraint *)a[0]); }},
{"isl_basic_map_from_domain",'o',2,{{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_from_domain((isl_basic_set *)a[0]); }},
{"isl_basic_map_from_domain_and_range",'o',2,{{'t',4},{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_from_domain_and_range((isl_basic_set *)a[0], (isl_basic_set *)a[1]); }},
{"isl_basic_map_from_multi_aff",'o',2,{{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_from_multi_aff((isl_multi_aff *)a[0]); }},
{"isl_basic_map_from_qpolynomial",'o',2,{{'t',28}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_from_qpolynomial((isl_qpolynomial *)a[0]); }},
{"isl_basic_map_from_range",'o',2,{{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_from_range((isl_basic_set *)a[0]); }},
{"isl_basic_map_get_constraint_list",'o',7,{{'k',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_get_constraint_list((isl_basic_map *)a[0]); }},
{"isl_basic_map_get_dim_name",'s',-1,{{'k',2},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return (void *)isl_basic_map_get_dim_name((isl_basic_map *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_basic_map_get_div",'o',0,{{'k',2},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_get_div((isl_basic_map *)a[0], n[0]); }},
{"isl_basic_map_get_local_space",'o',11,{{'k',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_get_local_space((isl_basic_map *)a[0]); }},
{"isl_basic_map_get_space",'o',36,{{'k',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_get_space((isl_basic_map *)a[0]); }},
{"isl_basic_map_get_tuple_name",'s',-1,{{'k',2},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return (void *)isl_basic_map_get_tuple_name((isl_basic_map *)a[0], (enum isl_dim_type)n[0]); }},
{"isl_basic_map_gist",'o',2,{{'t',2},{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_gist((isl_basic_map *)a[0], (isl_basic_map *)a[1]); }},
{"isl_basic_map_gist_domain",'o',2,{{'t',2},{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_gist_domain((isl_basic_map *)a[0], (isl_basic_set *)a[1]); }},
{"isl_basic_map_has_dim_id",'b',-1,{{'k',2},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_map_has_dim_id((isl_basic_map *)a[0], (enum isl_dim_type)n[0], n[1]); return nullptr; }},
{"isl_basic_map_identity",'o',2,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_identity((isl_space *)a[0]); }},
{"isl_basic_map_image_is_bounded",'b',-1,{{'k',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_map_image_is_bounded((isl_basic_map *)a[0]); return nullptr; }},
{"isl_basic_map_insert_dims",'o',2,{{'t',2},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_insert_dims((isl_basic_map *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_basic_map_intersect",'o',2,{{'t',2},{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_intersect((isl_basic_map *)a[0], (isl_basic_map *)a[1]); }},
{"isl_basic_map_intersect_domain",'o',2,{{'t',2},{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_intersect_domain((isl_basic_map *)a[0], (isl_basic_set *)a[1]); }},
{"isl_basic_map_intersect_range",'o',2,{{'t',2},{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_intersect_range((isl_basic_map *)a[0], (isl_basic_set *)a[1]); }},
{"isl_basic_map_involves_dims",'b',-1,{{'k',2},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_map_involves_dims((isl_basic_map *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); return nullptr; }},
{"isl_basic_map_is_disjoint",'b',-1,{{'k',2},{'k',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_map_is_disjoint((isl_basic_map *)a[0], (isl_basic_map *)a[1]); return nullptr; }},
{"isl_basic_map_is_empty",'b',-1,{{'k',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_map_is_empty((isl_basic_map *)a[0]); return nullptr; }},
{"isl_basic_map_is_equal",'b',-1,{{'k',2},{'k',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_map_is_equal((isl_basic_map *)a[0], (isl_basic_map *)a[1]); return nullptr; }},
{"isl_basic_map_is_rational",'b',-1,{{'k',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_map_is_rational((isl_basic_map *)a[0]); return nullptr; }},
{"isl_basic_map_is_single_valued",'b',-1,{{'k',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_map_is_single_valued((isl_basic_map *)a[0]); return nullptr; }},
{"isl_basic_map_is_strict_subset",'b',-1,{{'k',2},{'k',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_map_is_strict_subset((isl_basic_map *)a[0], (isl_basic_map *)a[1]); return nullptr; }},
{"isl_basic_map_is_subset",'b',-1,{{'k',2},{'k',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_map_is_subset((isl_basic_map *)a[0], (isl_basic_map *)a[1]); return nullptr; }},
{"isl_basic_map_is_universe",'b',-1,{{'k',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_map_is_universe((isl_basic_map *)a[0]); return nullptr; }},
{"isl_basic_map_less_at",'o',2,{{'t',36},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_less_at((isl_space *)a[0], n[0]); }},
{"isl_basic_map_lexmax",'o',12,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_lexmax((isl_basic_map *)a[0]); }},
{"isl_basic_map_lexmin",'o',12,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_lexmin((isl_basic_map *)a[0]); }},
{"isl_basic_map_lexmin_pw_multi_aff",'o',22,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_lexmin_pw_multi_aff((isl_basic_map *)a[0]); }},
{"isl_basic_map_list_add",'o',3,{{'t',3},{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_list_add((isl_basic_map_list *)a[0], (isl_basic_map *)a[1]); }},
{"isl_basic_map_list_alloc",'o',3,{{'c',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_list_alloc(ctx, n[0]); }},
{"isl_basic_map_list_clear",'o',3,{{'t',3}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_list_clear((isl_basic_map_list *)a[0]); }},
{"isl_basic_map_list_concat",'o',3,{{'t',3},{'t',3}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_list_concat((isl_basic_map_list *)a[0], (isl_basic_map_list *)a[1]); }},
{"isl_basic_map_list_drop",'o',3,{{'t',3},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_list_drop((isl_basic_map_list *)a[0], n[0], n[1]); }},
{"isl_basic_map_list_from_basic_map",'o',3,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_list_from_basic_map((isl_basic_map *)a[0]); }},
{"isl_basic_map_list_get_at",'o',2,{{'k',3},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_list_get_at((isl_basic_map_list *)a[0], n[0]); }},
{"isl_basic_map_list_get_basic_map",'o',2,{{'k',3},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_list_get_basic_map((isl_basic_map_list *)a[0], n[0]); }},
{"isl_basic_map_list_insert",'o',3,{{'t',3},{'p',0},{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_list_insert((isl_basic_map_list *)a[0], n[0], (isl_basic_map *)a[1]); }},
{"isl_basic_map_list_intersect",'o',2,{{'t',3}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_list_intersect((isl_basic_map_list *)a[0]); }},
{"isl_basic_map_list_n_basic_map",'z',-1,{{'k',3}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_map_list_n_basic_map((isl_basic_map_list *)a[0]); return nullptr; }},
{"isl_basic_map_list_reverse",'o',3,{{'t',3}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_list_reverse((isl_basic_map_list *)a[0]); }},
{"isl_basic_map_list_set_basic_map",'o',3,{{'t',3},{'p',0},{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_list_set_basic_map((isl_basic_map_list *)a[0], n[0], (isl_basic_map *)a[1]); }},
{"isl_basic_map_list_size",'z',-1,{{'k',3}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_map_list_size((isl_basic_map_list *)a[0]); return nullptr; }},
{"isl_basic_map_list_swap",'o',3,{{'t',3},{'p',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_list_swap((isl_basic_map_list *)a[0], n[0], n[1]); }},
{"isl_basic_map_lower_bound_si",'o',2,{{'t',2},{'d',0},{'p',0},{'i',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_lower_bound_si((isl_basic_map *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_basic_map_more_at",'o',2,{{'t',36},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_more_at((isl_space *)a[0], n[0]); }},
{"isl_basic_map_move_dims",'o',2,{{'t',2},{'d',0},{'p',0},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_move_dims((isl_basic_map *)a[0], (enum isl_dim_type)n[0], n[1], (enum isl_dim_type)n[2], n[3], n[4]); }},
{"isl_basic_map_n_constraint",'z',-1,{{'k',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_map_n_constraint((isl_basic_map *)a[0]); return nullptr; }},
{"isl_basic_map_nat_universe",'o',2,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_nat_universe((isl_space *)a[0]); }},
{"isl_basic_map_neg",'o',2,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_neg((isl_basic_map *)a[0]); }},
{"isl_basic_map_order_ge",'o',2,{{'t',2},{'d',0},{'p',0},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_order_ge((isl_basic_map *)a[0], (enum isl_dim_type)n[0], n[1], (enum isl_dim_type)n[2], n[3]); }},
{"isl_basic_map_order_gt",'o',2,{{'t',2},{'d',0},{'p',0},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_order_gt((isl_basic_map *)a[0], (enum isl_dim_type)n[0], n[1], (enum isl_dim_type)n[2], n[3]); }},
{"isl_basic_map_plain_get_val_if_fixed",'o',51,{{'k',2},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_plain_get_val_if_fixed((isl_basic_map *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_basic_map_plain_is_empty",'b',-1,{{'k',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_map_plain_is_empty((isl_basic_map *)a[0]); return nullptr; }},
{"isl_basic_map_plain_is_universe",'b',-1,{{'k',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_map_plain_is_universe((isl_basic_map *)a[0]); return nullptr; }},
{"isl_basic_map_preimage_domain_multi_aff",'o',2,{{'t',2},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_preimage_domain_multi_aff((isl_basic_map *)a[0], (isl_multi_aff *)a[1]); }},
{"isl_basic_map_preimage_range_multi_aff",'o',2,{{'t',2},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_preimage_range_multi_aff((isl_basic_map *)a[0], (isl_multi_aff *)a[1]); }},
{"isl_basic_map_product",'o',2,{{'t',2},{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_product((isl_basic_map *)a[0], (isl_basic_map *)a[1]); }},
{"isl_basic_map_project_out",'o',2,{{'t',2},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_project_out((isl_basic_map *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_basic_map_range",'o',4,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_range((isl_basic_map *)a[0]); }},
{"isl_basic_map_range_map",'o',2,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_range_map((isl_basic_map *)a[0]); }},
{"isl_basic_map_range_product",'o',2,{{'t',2},{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_range_product((isl_basic_map *)a[0], (isl_basic_map *)a[1]); }},
{"isl_basic_map_remove_dims",'o',2,{{'t',2},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_remove_dims((isl_basic_map *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_basic_map_remove_divs",'o',2,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_remove_divs((isl_basic_map *)a[0]); }},
{"isl_basic_map_remove_divs_involving_dims",'o',2,{{'t',2},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_remove_divs_involving_dims((isl_basic_map *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_basic_map_remove_redundancies",'o',2,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_remove_redundancies((isl_basic_map *)a[0]); }},
{"isl_basic_map_reverse",'o',2,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_reverse((isl_basic_map *)a[0]); }},
{"isl_basic_map_sample",'o',2,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_sample((isl_basic_map *)a[0]); }},
{"isl_basic_map_set_dim_name",'o',2,{{'t',2},{'d',0},{'p',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_set_dim_name((isl_basic_map *)a[0], (enum isl_dim_type)n[0], n[1], s[0]); }},
{"isl_basic_map_set_tuple_id",'o',2,{{'t',2},{'d',0},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_set_tuple_id((isl_basic_map *)a[0], (enum isl_dim_type)n[0], (isl_id *)a[1]); }},
{"isl_basic_map_set_tuple_name",'o',2,{{'t',2},{'d',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_set_tuple_name((isl_basic_map *)a[0], (enum isl_dim_type)n[0], s[0]); }},
{"isl_basic_map_sum",'o',2,{{'t',2},{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_sum((isl_basic_map *)a[0], (isl_basic_map *)a[1]); }},
{"isl_basic_map_to_list",'o',3,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_to_list((isl_basic_map *)a[0]); }},
{"isl_basic_map_total_dim",'z',-1,{{'k',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_map_total_dim((isl_basic_map *)a[0]); return nullptr; }},
{"isl_basic_map_uncurry",'o',2,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_uncurry((isl_basic_map *)a[0]); }},
{"isl_basic_map_union",'o',12,{{'t',2},{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_union((isl_basic_map *)a[0], (isl_basic_map *)a[1]); }},
{"isl_basic_map_universe",'o',2,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_universe((isl_space *)a[0]); }},
{"isl_basic_map_upper_bound_si",'o',2,{{'t',2},{'d',0},{'p',0},{'i',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_upper_bound_si((isl_basic_map *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_basic_map_wrap",'o',4,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_wrap((isl_basic_map *)a[0]); }},
{"isl_basic_map_zip",'o',2,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_map_zip((isl_basic_map *)a[0]); }},
{"isl_basic_set_add_constraint",'o',4,{{'t',4},{'t',6}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_add_constraint((isl_basic_set *)a[0], (isl_constraint *)a[1]); }},
{"isl_basic_set_add_dims",'o',4,{{'t',4},{'d',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_add_dims((isl_basic_set *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_basic_set_affine_hull",'o',4,{{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_affine_hull((isl_basic_set *)a[0]); }},
{"isl_basic_set_align_params",'o',4,{{'t',4},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_align_params((isl_basic_set *)a[0], (isl_space *)a[1]); }},
{"isl_basic_set_apply",'o',4,{{'t',4},{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_apply((isl_basic_set *)a[0], (isl_basic_map *)a[1]); }},
{"isl_basic_set_box_from_points",'o',4,{{'t',19},{'t',19}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_box_from_points((isl_point *)a[0], (isl_point *)a[1]); }},
{"isl_basic_set_coefficients",'o',4,{{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_coefficients((isl_basic_set *)a[0]); }},
{"isl_basic_set_compare_at",'i',-1,{{'k',4},{'k',4},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_set_compare_at((isl_basic_set *)a[0], (isl_basic_set *)a[1], n[0]); return nullptr; }},
{"isl_basic_set_compute_divs",'o',34,{{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_compute_divs((isl_basic_set *)a[0]); }},
{"isl_basic_set_detect_equalities",'o',4,{{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_detect_equalities((isl_basic_set *)a[0]); }},
{"isl_basic_set_dim",'z',-1,{{'k',4},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_set_dim((isl_basic_set *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_basic_set_dim_max_val",'o',51,{{'t',4},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_dim_max_val((isl_basic_set *)a[0], n[0]); }},
{"isl_basic_set_drop_constraints_involving_dims",'o',4,{{'t',4},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_drop_constraints_involving_dims((isl_basic_set *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_basic_set_drop_constraints_not_involving_dims",'o',4,{{'t',4},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_drop_constraints_not_involving_dims((isl_basic_set *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_basic_set_drop_unused_params",'o',4,{{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_drop_unused_params((isl_basic_set *)a[0]); }},
{"isl_basic_set_eliminate",'o',4,{{'t',4},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_eliminate((isl_basic_set *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_basic_set_empty",'o',4,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_empty((isl_space *)a[0]); }},
{"isl_basic_set_fix_si",'o',4,{{'t',4},{'d',0},{'p',0},{'i',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_fix_si((isl_basic_set *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_basic_set_fix_val",'o',4,{{'t',4},{'d',0},{'p',0},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_fix_val((isl_basic_set *)a[0], (enum isl_dim_type)n[0], n[1], (isl_val *)a[1]); }},
{"isl_basic_set_flat_product",'o',4,{{'t',4},{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_flat_product((isl_basic_set *)a[0], (isl_basic_set *)a[1]); }},
{"isl_basic_set_flatten",'o',4,{{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_flatten((isl_basic_set *)a[0]); }},
{"isl_basic_set_from_constraint",'o',4,{{'t',6}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_from_constraint((isl_constraint *)a[0]); }},
{"isl_basic_set_from_multi_aff",'o',4,{{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_from_multi_aff((isl_multi_aff *)a[0]); }},
{"isl_basic_set_from_params",'o',4,{{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_from_params((isl_basic_set *)a[0]); }},
{"isl_basic_set_from_point",'o',4,{{'t',19}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_from_point((isl_point *)a[0]); }},
{"isl_basic_set_get_constraint_list",'o',7,{{'k',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_get_constraint_list((isl_basic_set *)a[0]); }},
{"isl_basic_set_get_dim_id",'o',9,{{'k',4},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_get_dim_id((isl_basic_set *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_basic_set_get_dim_name",'s',-1,{{'k',4},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return (void *)isl_basic_set_get_dim_name((isl_basic_set *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_basic_set_get_div",'o',0,{{'k',4},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_get_div((isl_basic_set *)a[0], n[0]); }},
{"isl_basic_set_get_local_space",'o',11,{{'k',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_get_local_space((isl_basic_set *)a[0]); }},
{"isl_basic_set_get_space",'o',36,{{'k',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_get_space((isl_basic_set *)a[0]); }},
{"isl_basic_set_get_tuple_name",'s',-1,{{'k',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return (void *)isl_basic_set_get_tuple_name((isl_basic_set *)a[0]); }},
{"isl_basic_set_gist",'o',4,{{'t',4},{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_gist((isl_basic_set *)a[0], (isl_basic_set *)a[1]); }},
{"isl_basic_set_insert_dims",'o',4,{{'t',4},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_insert_dims((isl_basic_set *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_basic_set_intersect",'o',4,{{'t',4},{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_intersect((isl_basic_set *)a[0], (isl_basic_set *)a[1]); }},
{"isl_basic_set_intersect_params",'o',4,{{'t',4},{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_intersect_params((isl_basic_set *)a[0], (isl_basic_set *)a[1]); }},
{"isl_basic_set_involves_dims",'b',-1,{{'k',4},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_set_involves_dims((isl_basic_set *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); return nullptr; }},
{"isl_basic_set_is_bounded",'b',-1,{{'k',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_set_is_bounded((isl_basic_set *)a[0]); return nullptr; }},
{"isl_basic_set_is_disjoint",'b',-1,{{'k',4},{'k',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_set_is_disjoint((isl_basic_set *)a[0], (isl_basic_set *)a[1]); return nullptr; }},
{"isl_basic_set_is_empty",'b',-1,{{'k',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_set_is_empty((isl_basic_set *)a[0]); return nullptr; }},
{"isl_basic_set_is_equal",'b',-1,{{'k',4},{'k',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_set_is_equal((isl_basic_set *)a[0], (isl_basic_set *)a[1]); return nullptr; }},
{"isl_basic_set_is_rational",'i',-1,{{'k',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_set_is_rational((isl_basic_set *)a[0]); return nullptr; }},
{"isl_basic_set_is_subset",'b',-1,{{'k',4},{'k',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_set_is_subset((isl_basic_set *)a[0], (isl_basic_set *)a[1]); return nullptr; }},
{"isl_basic_set_is_universe",'b',-1,{{'k',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_set_is_universe((isl_basic_set *)a[0]); return nullptr; }},
{"isl_basic_set_is_wrapping",'b',-1,{{'k',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_set_is_wrapping((isl_basic_set *)a[0]); return nullptr; }},
{"isl_basic_set_lexmax",'o',34,{{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_lexmax((isl_basic_set *)a[0]); }},
{"isl_basic_set_lexmin",'o',34,{{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_lexmin((isl_basic_set *)a[0]); }},
{"isl_basic_set_lift",'o',4,{{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_lift((isl_basic_set *)a[0]); }},
{"isl_basic_set_list_add",'o',5,{{'t',5},{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_list_add((isl_basic_set_list *)a[0], (isl_basic_set *)a[1]); }},
{"isl_basic_set_list_alloc",'o',5,{{'c',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_list_alloc(ctx, n[0]); }},
{"isl_basic_set_list_clear",'o',5,{{'t',5}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_list_clear((isl_basic_set_list *)a[0]); }},
{"isl_basic_set_list_coefficients",'o',5,{{'t',5}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_list_coefficients((isl_basic_set_list *)a[0]); }},
{"isl_basic_set_list_concat",'o',5,{{'t',5},{'t',5}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_list_concat((isl_basic_set_list *)a[0], (isl_basic_set_list *)a[1]); }},
{"isl_basic_set_list_drop",'o',5,{{'t',5},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_list_drop((isl_basic_set_list *)a[0], n[0], n[1]); }},
{"isl_basic_set_list_from_basic_set",'o',5,{{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_list_from_basic_set((isl_basic_set *)a[0]); }},
{"isl_basic_set_list_get_at",'o',4,{{'k',5},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_list_get_at((isl_basic_set_list *)a[0], n[0]); }},
{"isl_basic_set_list_get_basic_set",'o',4,{{'k',5},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_list_get_basic_set((isl_basic_set_list *)a[0], n[0]); }},
{"isl_basic_set_list_insert",'o',5,{{'t',5},{'p',0},{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_list_insert((isl_basic_set_list *)a[0], n[0], (isl_basic_set *)a[1]); }},
{"isl_basic_set_list_intersect",'o',4,{{'t',5}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_list_intersect((isl_basic_set_list *)a[0]); }},
{"isl_basic_set_list_n_basic_set",'z',-1,{{'k',5}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_set_list_n_basic_set((isl_basic_set_list *)a[0]); return nullptr; }},
{"isl_basic_set_list_reverse",'o',5,{{'t',5}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_list_reverse((isl_basic_set_list *)a[0]); }},
{"isl_basic_set_list_set_basic_set",'o',5,{{'t',5},{'p',0},{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_list_set_basic_set((isl_basic_set_list *)a[0], n[0], (isl_basic_set *)a[1]); }},
{"isl_basic_set_list_size",'z',-1,{{'k',5}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_set_list_size((isl_basic_set_list *)a[0]); return nullptr; }},
{"isl_basic_set_list_swap",'o',5,{{'t',5},{'p',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_list_swap((isl_basic_set_list *)a[0], n[0], n[1]); }},
{"isl_basic_set_lower_bound_val",'o',4,{{'t',4},{'d',0},{'p',0},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_lower_bound_val((isl_basic_set *)a[0], (enum isl_dim_type)n[0], n[1], (isl_val *)a[1]); }},
{"isl_basic_set_max_val",'o',51,{{'k',4},{'k',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_max_val((isl_basic_set *)a[0], (isl_aff *)a[1]); }},
{"isl_basic_set_move_dims",'o',4,{{'t',4},{'d',0},{'p',0},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_move_dims((isl_basic_set *)a[0], (enum isl_dim_type)n[0], n[1], (enum isl_dim_type)n[2], n[3], n[4]); }},
{"isl_basic_set_n_constraint",'z',-1,{{'k',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_set_n_constraint((isl_basic_set *)a[0]); return nullptr; }},
{"isl_basic_set_n_dim",'z',-1,{{'k',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_set_n_dim((isl_basic_set *)a[0]); return nullptr; }},
{"isl_basic_set_n_param",'z',-1,{{'k',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_set_n_param((isl_basic_set *)a[0]); return nullptr; }},
{"isl_basic_set_nat_universe",'o',4,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_nat_universe((isl_space *)a[0]); }},
{"isl_basic_set_neg",'o',4,{{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_neg((isl_basic_set *)a[0]); }},
{"isl_basic_set_params",'o',4,{{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_params((isl_basic_set *)a[0]); }},
{"isl_basic_set_plain_is_empty",'b',-1,{{'k',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_set_plain_is_empty((isl_basic_set *)a[0]); return nullptr; }},
{"isl_basic_set_plain_is_equal",'b',-1,{{'k',4},{'k',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_set_plain_is_equal((isl_basic_set *)a[0], (isl_basic_set *)a[1]); return nullptr; }},
{"isl_basic_set_plain_is_universe",'b',-1,{{'k',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_set_plain_is_universe((isl_basic_set *)a[0]); return nullptr; }},
{"isl_basic_set_positive_orthant",'o',4,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_positive_orthant((isl_space *)a[0]); }},
{"isl_basic_set_preimage_multi_aff",'o',4,{{'t',4},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_preimage_multi_aff((isl_basic_set *)a[0], (isl_multi_aff *)a[1]); }},
{"isl_basic_set_project_out",'o',4,{{'t',4},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_project_out((isl_basic_set *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_basic_set_remove_dims",'o',4,{{'t',4},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_remove_dims((isl_basic_set *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_basic_set_remove_divs",'o',4,{{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_remove_divs((isl_basic_set *)a[0]); }},
{"isl_basic_set_remove_divs_involving_dims",'o',4,{{'t',4},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_remove_divs_involving_dims((isl_basic_set *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_basic_set_remove_redundancies",'o',4,{{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_remove_redundancies((isl_basic_set *)a[0]); }},
{"isl_basic_set_remove_unknown_divs",'o',4,{{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_remove_unknown_divs((isl_basic_set *)a[0]); }},
{"isl_basic_set_sample",'o',4,{{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_sample((isl_basic_set *)a[0]); }},
{"isl_basic_set_sample_point",'o',19,{{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_sample_point((isl_basic_set *)a[0]); }},
{"isl_basic_set_set_dim_name",'o',4,{{'t',4},{'d',0},{'p',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_set_dim_name((isl_basic_set *)a[0], (enum isl_dim_type)n[0], n[1], s[0]); }},
{"isl_basic_set_set_tuple_id",'o',4,{{'t',4},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_set_tuple_id((isl_basic_set *)a[0], (isl_id *)a[1]); }},
{"isl_basic_set_set_tuple_name",'o',4,{{'t',4},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_set_tuple_name((isl_basic_set *)a[0], s[0]); }},
{"isl_basic_set_solutions",'o',4,{{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_solutions((isl_basic_set *)a[0]); }},
{"isl_basic_set_to_list",'o',5,{{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_to_list((isl_basic_set *)a[0]); }},
{"isl_basic_set_to_set",'o',34,{{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_to_set((isl_basic_set *)a[0]); }},
{"isl_basic_set_total_dim",'z',-1,{{'k',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_basic_set_total_dim((isl_basic_set *)a[0]); return nullptr; }},
{"isl_basic_set_union",'o',34,{{'t',4},{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_union((isl_basic_set *)a[0], (isl_basic_set *)a[1]); }},
{"isl_basic_set_universe",'o',4,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_universe((isl_space *)a[0]); }},
{"isl_basic_set_unwrap",'o',2,{{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_unwrap((isl_basic_set *)a[0]); }},
{"isl_basic_set_upper_bound_val",'o',4,{{'t',4},{'d',0},{'p',0},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_basic_set_upper_bound_val((isl_basic_set *)a[0], (enum isl_dim_type)n[0], n[1], (isl_val *)a[1]); }},
{"isl_constraint_alloc_equality",'o',6,{{'t',11}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_constraint_alloc_equality((isl_local_space *)a[0]); }},
{"isl_constraint_alloc_inequality",'o',6,{{'t',11}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_constraint_alloc_inequality((isl_local_space *)a[0]); }},
{"isl_constraint_cmp_last_non_zero",'i',-1,{{'k',6},{'k',6}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_constraint_cmp_last_non_zero((isl_constraint *)a[0], (isl_constraint *)a[1]); return nullptr; }},
{"isl_constraint_dim",'z',-1,{{'k',6},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_constraint_dim((isl_constraint *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_constraint_get_aff",'o',0,{{'k',6}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_constraint_get_aff((isl_constraint *)a[0]); }},
{"isl_constraint_get_bound",'o',0,{{'k',6},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_constraint_get_bound((isl_constraint *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_constraint_get_coefficient_val",'o',51,{{'k',6},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_constraint_get_coefficient_val((isl_constraint *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_constraint_get_constant_val",'o',51,{{'k',6}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_constraint_get_constant_val((isl_constraint *)a[0]); }},
{"isl_constraint_get_dim_name",'s',-1,{{'k',6},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return (void *)isl_constraint_get_dim_name((isl_constraint *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_constraint_get_div",'o',0,{{'k',6},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_constraint_get_div((isl_constraint *)a[0], n[0]); }},
{"isl_constraint_get_local_space",'o',11,{{'k',6}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_constraint_get_local_space((isl_constraint *)a[0]); }},
{"isl_constraint_get_space",'o',36,{{'k',6}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_constraint_get_space((isl_constraint *)a[0]); }},
{"isl_constraint_involves_dims",'b',-1,{{'k',6},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_constraint_involves_dims((isl_constraint *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); return nullptr; }},
{"isl_constraint_is_div_constraint",'b',-1,{{'k',6}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_constraint_is_div_constraint((isl_constraint *)a[0]); return nullptr; }},
{"isl_constraint_is_equal",'i',-1,{{'k',6},{'k',6}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_constraint_is_equal((isl_constraint *)a[0], (isl_constraint *)a[1]); return nullptr; }},
{"isl_constraint_is_equality",'b',-1,{{'k',6}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_constraint_is_equality((isl_constraint *)a[0]); return nullptr; }},
{"isl_constraint_is_lower_bound",'b',-1,{{'k',6},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_constraint_is_lower_bound((isl_constraint *)a[0], (enum isl_dim_type)n[0], n[1]); return nullptr; }},
{"isl_constraint_is_upper_bound",'b',-1,{{'k',6},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_constraint_is_upper_bound((isl_constraint *)a[0], (enum isl_dim_type)n[0], n[1]); return nullptr; }},
{"isl_constraint_list_add",'o',7,{{'t',7},{'t',6}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_constraint_list_add((isl_constraint_list *)a[0], (isl_constraint *)a[1]); }},
{"isl_constraint_list_alloc",'o',7,{{'c',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_constraint_list_alloc(ctx, n[0]); }},
{"isl_constraint_list_clear",'o',7,{{'t',7}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_constraint_list_clear((isl_constraint_list *)a[0]); }},
{"isl_constraint_list_concat",'o',7,{{'t',7},{'t',7}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_constraint_list_concat((isl_constraint_list *)a[0], (isl_constraint_list *)a[1]); }},
{"isl_constraint_list_drop",'o',7,{{'t',7},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_constraint_list_drop((isl_constraint_list *)a[0], n[0], n[1]); }},
{"isl_constraint_list_from_constraint",'o',7,{{'t',6}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_constraint_list_from_constraint((isl_constraint *)a[0]); }},
{"isl_constraint_list_get_at",'o',6,{{'k',7},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_constraint_list_get_at((isl_constraint_list *)a[0], n[0]); }},
{"isl_constraint_list_get_constraint",'o',6,{{'k',7},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_constraint_list_get_constraint((isl_constraint_list *)a[0], n[0]); }},
{"isl_constraint_list_insert",'o',7,{{'t',7},{'p',0},{'t',6}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_constraint_list_insert((isl_constraint_list *)a[0], n[0], (isl_constraint *)a[1]); }},
{"isl_constraint_list_n_constraint",'z',-1,{{'k',7}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_constraint_list_n_constraint((isl_constraint_list *)a[0]); return nullptr; }},
{"isl_constraint_list_reverse",'o',7,{{'t',7}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_constraint_list_reverse((isl_constraint_list *)a[0]); }},
{"isl_constraint_list_set_constraint",'o',7,{{'t',7},{'p',0},{'t',6}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_constraint_list_set_constraint((isl_constraint_list *)a[0], n[0], (isl_constraint *)a[1]); }},
{"isl_constraint_list_size",'z',-1,{{'k',7}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_constraint_list_size((isl_constraint_list *)a[0]); return nullptr; }},
{"isl_constraint_list_swap",'o',7,{{'t',7},{'p',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_constraint_list_swap((isl_constraint_list *)a[0], n[0], n[1]); }},
{"isl_constraint_negate",'o',6,{{'t',6}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_constraint_negate((isl_constraint *)a[0]); }},
{"isl_constraint_plain_cmp",'i',-1,{{'k',6},{'k',6}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_constraint_plain_cmp((isl_constraint *)a[0], (isl_constraint *)a[1]); return nullptr; }},
{"isl_constraint_set_coefficient_si",'o',6,{{'t',6},{'d',0},{'p',0},{'i',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_constraint_set_coefficient_si((isl_constraint *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_constraint_set_coefficient_val",'o',6,{{'t',6},{'d',0},{'p',0},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_constraint_set_coefficient_val((isl_constraint *)a[0], (enum isl_dim_type)n[0], n[1], (isl_val *)a[1]); }},
{"isl_constraint_set_constant_si",'o',6,{{'t',6},{'i',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_constraint_set_constant_si((isl_constraint *)a[0], n[0]); }},
{"isl_constraint_set_constant_val",'o',6,{{'t',6},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_constraint_set_constant_val((isl_constraint *)a[0], (isl_val *)a[1]); }},
{"isl_constraint_to_list",'o',7,{{'t',6}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_constraint_to_list((isl_constraint *)a[0]); }},
{"isl_equality_alloc",'o',6,{{'t',11}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_equality_alloc((isl_local_space *)a[0]); }},
{"isl_equality_from_aff",'o',6,{{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_equality_from_aff((isl_aff *)a[0]); }},
{"isl_fixed_box_get_offset",'o',14,{{'k',8}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_fixed_box_get_offset((isl_fixed_box *)a[0]); }},
{"isl_fixed_box_get_size",'o',18,{{'k',8}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_fixed_box_get_size((isl_fixed_box *)a[0]); }},
{"isl_fixed_box_get_space",'o',36,{{'k',8}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_fixed_box_get_space((isl_fixed_box *)a[0]); }},
{"isl_fixed_box_is_valid",'b',-1,{{'k',8}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_fixed_box_is_valid((isl_fixed_box *)a[0]); return nullptr; }},
{"isl_id_get_name",'s',-1,{{'k',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return (void *)isl_id_get_name((isl_id *)a[0]); }},
{"isl_id_list_add",'o',10,{{'t',10},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_id_list_add((isl_id_list *)a[0], (isl_id *)a[1]); }},
{"isl_id_list_alloc",'o',10,{{'c',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_id_list_alloc(ctx, n[0]); }},
{"isl_id_list_clear",'o',10,{{'t',10}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_id_list_clear((isl_id_list *)a[0]); }},
{"isl_id_list_concat",'o',10,{{'t',10},{'t',10}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_id_list_concat((isl_id_list *)a[0], (isl_id_list *)a[1]); }},
{"isl_id_list_drop",'o',10,{{'t',10},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_id_list_drop((isl_id_list *)a[0], n[0], n[1]); }},
{"isl_id_list_from_id",'o',10,{{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_id_list_from_id((isl_id *)a[0]); }},
{"isl_id_list_get_at",'o',9,{{'k',10},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_id_list_get_at((isl_id_list *)a[0], n[0]); }},
{"isl_id_list_get_id",'o',9,{{'k',10},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_id_list_get_id((isl_id_list *)a[0], n[0]); }},
{"isl_id_list_insert",'o',10,{{'t',10},{'p',0},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_id_list_insert((isl_id_list *)a[0], n[0], (isl_id *)a[1]); }},
{"isl_id_list_n_id",'z',-1,{{'k',10}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_id_list_n_id((isl_id_list *)a[0]); return nullptr; }},
{"isl_id_list_reverse",'o',10,{{'t',10}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_id_list_reverse((isl_id_list *)a[0]); }},
{"isl_id_list_set_id",'o',10,{{'t',10},{'p',0},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_id_list_set_id((isl_id_list *)a[0], n[0], (isl_id *)a[1]); }},
{"isl_id_list_size",'z',-1,{{'k',10}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_id_list_size((isl_id_list *)a[0]); return nullptr; }},
{"isl_id_list_swap",'o',10,{{'t',10},{'p',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_id_list_swap((isl_id_list *)a[0], n[0], n[1]); }},
{"isl_id_to_list",'o',10,{{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_id_to_list((isl_id *)a[0]); }},
{"isl_inequality_alloc",'o',6,{{'t',11}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_inequality_alloc((isl_local_space *)a[0]); }},
{"isl_inequality_from_aff",'o',6,{{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_inequality_from_aff((isl_aff *)a[0]); }},
{"isl_local_space_add_dims",'o',11,{{'t',11},{'d',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_local_space_add_dims((isl_local_space *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_local_space_dim",'z',-1,{{'k',11},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_local_space_dim((isl_local_space *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_local_space_domain",'o',11,{{'t',11}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_local_space_domain((isl_local_space *)a[0]); }},
{"isl_local_space_drop_dims",'o',11,{{'t',11},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_local_space_drop_dims((isl_local_space *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_local_space_find_dim_by_name",'i',-1,{{'k',11},{'d',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_local_space_find_dim_by_name((isl_local_space *)a[0], (enum isl_dim_type)n[0], s[0]); return nullptr; }},
{"isl_local_space_flatten_domain",'o',11,{{'t',11}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_local_space_flatten_domain((isl_local_space *)a[0]); }},
{"isl_local_space_flatten_range",'o',11,{{'t',11}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_local_space_flatten_range((isl_local_space *)a[0]); }},
{"isl_local_space_from_domain",'o',11,{{'t',11}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_local_space_from_domain((isl_local_space *)a[0]); }},
{"isl_local_space_from_space",'o',11,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_local_space_from_space((isl_space *)a[0]); }},
{"isl_local_space_get_dim_id",'o',9,{{'k',11},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_local_space_get_dim_id((isl_local_space *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_local_space_get_dim_name",'s',-1,{{'k',11},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return (void *)isl_local_space_get_dim_name((isl_local_space *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_local_space_get_div",'o',0,{{'k',11},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_local_space_get_div((isl_local_space *)a[0], n[0]); }},
{"isl_local_space_get_space",'o',36,{{'k',11}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_local_space_get_space((isl_local_space *)a[0]); }},
{"isl_local_space_has_dim_id",'b',-1,{{'k',11},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_local_space_has_dim_id((isl_local_space *)a[0], (enum isl_dim_type)n[0], n[1]); return nullptr; }},
{"isl_local_space_has_dim_name",'b',-1,{{'k',11},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_local_space_has_dim_name((isl_local_space *)a[0], (enum isl_dim_type)n[0], n[1]); return nullptr; }},
{"isl_local_space_insert_dims",'o',11,{{'t',11},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_local_space_insert_dims((isl_local_space *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_local_space_intersect",'o',11,{{'t',11},{'t',11}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_local_space_intersect((isl_local_space *)a[0], (isl_local_space *)a[1]); }},
{"isl_local_space_is_equal",'b',-1,{{'k',11},{'k',11}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_local_space_is_equal((isl_local_space *)a[0], (isl_local_space *)a[1]); return nullptr; }},
{"isl_local_space_is_params",'b',-1,{{'k',11}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_local_space_is_params((isl_local_space *)a[0]); return nullptr; }},
{"isl_local_space_is_set",'b',-1,{{'k',11}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_local_space_is_set((isl_local_space *)a[0]); return nullptr; }},
{"isl_local_space_lifting",'o',2,{{'t',11}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_local_space_lifting((isl_local_space *)a[0]); }},
{"isl_local_space_range",'o',11,{{'t',11}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_local_space_range((isl_local_space *)a[0]); }},
{"isl_local_space_set_dim_id",'o',11,{{'t',11},{'d',0},{'p',0},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_local_space_set_dim_id((isl_local_space *)a[0], (enum isl_dim_type)n[0], n[1], (isl_id *)a[1]); }},
{"isl_local_space_set_dim_name",'o',11,{{'t',11},{'d',0},{'p',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_local_space_set_dim_name((isl_local_space *)a[0], (enum isl_dim_type)n[0], n[1], s[0]); }},
{"isl_local_space_set_from_params",'o',11,{{'t',11}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_local_space_set_from_params((isl_local_space *)a[0]); }},
{"isl_local_space_set_tuple_id",'o',11,{{'t',11},{'d',0},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_local_space_set_tuple_id((isl_local_space *)a[0], (enum isl_dim_type)n[0], (isl_id *)a[1]); }},
{"isl_local_space_wrap",'o',11,{{'t',11}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_local_space_wrap((isl_local_space *)a[0]); }},
{"isl_map_add_constraint",'o',12,{{'t',12},{'t',6}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_add_constraint((isl_map *)a[0], (isl_constraint *)a[1]); }},
{"isl_map_add_dims",'o',12,{{'t',12},{'d',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_add_dims((isl_map *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_map_affine_hull",'o',2,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_affine_hull((isl_map *)a[0]); }},
{"isl_map_align_divs",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_align_divs((isl_map *)a[0]); }},
{"isl_map_align_params",'o',12,{{'t',12},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_align_params((isl_map *)a[0], (isl_space *)a[1]); }},
{"isl_map_apply_domain",'o',12,{{'t',12},{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_apply_domain((isl_map *)a[0], (isl_map *)a[1]); }},
{"isl_map_apply_range",'o',12,{{'t',12},{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_apply_range((isl_map *)a[0], (isl_map *)a[1]); }},
{"isl_map_as_pw_multi_aff",'o',22,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_as_pw_multi_aff((isl_map *)a[0]); }},
{"isl_map_bind_domain",'o',34,{{'t',12},{'t',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_bind_domain((isl_map *)a[0], (isl_multi_id *)a[1]); }},
{"isl_map_bind_range",'o',34,{{'t',12},{'t',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_bind_range((isl_map *)a[0], (isl_multi_id *)a[1]); }},
{"isl_map_can_curry",'b',-1,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_can_curry((isl_map *)a[0]); return nullptr; }},
{"isl_map_can_range_curry",'b',-1,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_can_range_curry((isl_map *)a[0]); return nullptr; }},
{"isl_map_can_uncurry",'b',-1,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_can_uncurry((isl_map *)a[0]); return nullptr; }},
{"isl_map_can_zip",'b',-1,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_can_zip((isl_map *)a[0]); return nullptr; }},
{"isl_map_coalesce",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_coalesce((isl_map *)a[0]); }},
{"isl_map_complement",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_complement((isl_map *)a[0]); }},
{"isl_map_compute_divs",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_compute_divs((isl_map *)a[0]); }},
{"isl_map_convex_hull",'o',2,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_convex_hull((isl_map *)a[0]); }},
{"isl_map_curry",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_curry((isl_map *)a[0]); }},
{"isl_map_deltas",'o',34,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_deltas((isl_map *)a[0]); }},
{"isl_map_deltas_map",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_deltas_map((isl_map *)a[0]); }},
{"isl_map_detect_equalities",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_detect_equalities((isl_map *)a[0]); }},
{"isl_map_dim",'z',-1,{{'k',12},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_dim((isl_map *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_map_dim_max",'o',20,{{'t',12},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_dim_max((isl_map *)a[0], n[0]); }},
{"isl_map_dim_min",'o',20,{{'t',12},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_dim_min((isl_map *)a[0], n[0]); }},
{"isl_map_domain",'o',34,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_domain((isl_map *)a[0]); }},
{"isl_map_domain_factor_domain",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_domain_factor_domain((isl_map *)a[0]); }},
{"isl_map_domain_factor_range",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_domain_factor_range((isl_map *)a[0]); }},
{"isl_map_domain_is_wrapping",'b',-1,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_domain_is_wrapping((isl_map *)a[0]); return nullptr; }},
{"isl_map_domain_map",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_domain_map((isl_map *)a[0]); }},
{"isl_map_domain_product",'o',12,{{'t',12},{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_domain_product((isl_map *)a[0], (isl_map *)a[1]); }},
{"isl_map_domain_tuple_dim",'z',-1,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_domain_tuple_dim((isl_map *)a[0]); return nullptr; }},
{"isl_map_drop_constraints_involving_dims",'o',12,{{'t',12},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_drop_constraints_involving_dims((isl_map *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_map_drop_constraints_not_involving_dims",'o',12,{{'t',12},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_drop_constraints_not_involving_dims((isl_map *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_map_drop_unused_params",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_drop_unused_params((isl_map *)a[0]); }},
{"isl_map_eliminate",'o',12,{{'t',12},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_eliminate((isl_map *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_map_empty",'o',12,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_empty((isl_space *)a[0]); }},
{"isl_map_eq_at_multi_pw_aff",'o',12,{{'t',12},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_eq_at_multi_pw_aff((isl_map *)a[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_map_equate",'o',12,{{'t',12},{'d',0},{'p',0},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_equate((isl_map *)a[0], (enum isl_dim_type)n[0], n[1], (enum isl_dim_type)n[2], n[3]); }},
{"isl_map_factor_domain",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_factor_domain((isl_map *)a[0]); }},
{"isl_map_factor_range",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_factor_range((isl_map *)a[0]); }},
{"isl_map_find_dim_by_id",'i',-1,{{'k',12},{'d',0},{'k',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_find_dim_by_id((isl_map *)a[0], (enum isl_dim_type)n[0], (isl_id *)a[1]); return nullptr; }},
{"isl_map_find_dim_by_name",'i',-1,{{'k',12},{'d',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_find_dim_by_name((isl_map *)a[0], (enum isl_dim_type)n[0], s[0]); return nullptr; }},
{"isl_map_fix_input_si",'o',12,{{'t',12},{'u',0},{'i',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_fix_input_si((isl_map *)a[0], n[0], n[1]); }},
{"isl_map_fix_si",'o',12,{{'t',12},{'d',0},{'p',0},{'i',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_fix_si((isl_map *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_map_fix_val",'o',12,{{'t',12},{'d',0},{'p',0},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_fix_val((isl_map *)a[0], (enum isl_dim_type)n[0], n[1], (isl_val *)a[1]); }},
{"isl_map_fixed_power_val",'o',12,{{'t',12},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_fixed_power_val((isl_map *)a[0], (isl_val *)a[1]); }},
{"isl_map_flat_domain_product",'o',12,{{'t',12},{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_flat_domain_product((isl_map *)a[0], (isl_map *)a[1]); }},
{"isl_map_flat_product",'o',12,{{'t',12},{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_flat_product((isl_map *)a[0], (isl_map *)a[1]); }},
{"isl_map_flat_range_product",'o',12,{{'t',12},{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_flat_range_product((isl_map *)a[0], (isl_map *)a[1]); }},
{"isl_map_flatten",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_flatten((isl_map *)a[0]); }},
{"isl_map_flatten_domain",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_flatten_domain((isl_map *)a[0]); }},
{"isl_map_flatten_range",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_flatten_range((isl_map *)a[0]); }},
{"isl_map_floordiv_val",'o',12,{{'t',12},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_floordiv_val((isl_map *)a[0], (isl_val *)a[1]); }},
{"isl_map_from_aff",'o',12,{{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_from_aff((isl_aff *)a[0]); }},
{"isl_map_from_basic_map",'o',12,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_from_basic_map((isl_basic_map *)a[0]); }},
{"isl_map_from_domain",'o',12,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_from_domain((isl_set *)a[0]); }},
{"isl_map_from_domain_and_range",'o',12,{{'t',34},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_from_domain_and_range((isl_set *)a[0], (isl_set *)a[1]); }},
{"isl_map_from_multi_aff",'o',12,{{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_from_multi_aff((isl_multi_aff *)a[0]); }},
{"isl_map_from_multi_pw_aff",'o',12,{{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_from_multi_pw_aff((isl_multi_pw_aff *)a[0]); }},
{"isl_map_from_pw_aff",'o',12,{{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_from_pw_aff((isl_pw_aff *)a[0]); }},
{"isl_map_from_pw_multi_aff",'o',12,{{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_from_pw_multi_aff((isl_pw_multi_aff *)a[0]); }},
{"isl_map_from_range",'o',12,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_from_range((isl_set *)a[0]); }},
{"isl_map_from_union_map",'o',12,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_from_union_map((isl_union_map *)a[0]); }},
{"isl_map_get_basic_map_list",'o',3,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_get_basic_map_list((isl_map *)a[0]); }},
{"isl_map_get_dim_id",'o',9,{{'k',12},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_get_dim_id((isl_map *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_map_get_dim_name",'s',-1,{{'k',12},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return (void *)isl_map_get_dim_name((isl_map *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_map_get_domain_tuple_id",'o',9,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_get_domain_tuple_id((isl_map *)a[0]); }},
{"isl_map_get_range_lattice_tile",'o',8,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_get_range_lattice_tile((isl_map *)a[0]); }},
{"isl_map_get_range_simple_fixed_box_hull",'o',8,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_get_range_simple_fixed_box_hull((isl_map *)a[0]); }},
{"isl_map_get_range_stride_info",'o',37,{{'k',12},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_get_range_stride_info((isl_map *)a[0], n[0]); }},
{"isl_map_get_range_tuple_id",'o',9,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_get_range_tuple_id((isl_map *)a[0]); }},
{"isl_map_get_space",'o',36,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_get_space((isl_map *)a[0]); }},
{"isl_map_get_tuple_id",'o',9,{{'k',12},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_get_tuple_id((isl_map *)a[0], (enum isl_dim_type)n[0]); }},
{"isl_map_get_tuple_name",'s',-1,{{'k',12},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return (void *)isl_map_get_tuple_name((isl_map *)a[0], (enum isl_dim_type)n[0]); }},
{"isl_map_gist",'o',12,{{'t',12},{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_gist((isl_map *)a[0], (isl_map *)a[1]); }},
{"isl_map_gist_basic_map",'o',12,{{'t',12},{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_gist_basic_map((isl_map *)a[0], (isl_basic_map *)a[1]); }},
{"isl_map_gist_domain",'o',12,{{'t',12},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_gist_domain((isl_map *)a[0], (isl_set *)a[1]); }},
{"isl_map_gist_params",'o',12,{{'t',12},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_gist_params((isl_map *)a[0], (isl_set *)a[1]); }},
{"isl_map_gist_range",'o',12,{{'t',12},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_gist_range((isl_map *)a[0], (isl_set *)a[1]); }},
{"isl_map_has_dim_id",'b',-1,{{'k',12},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_has_dim_id((isl_map *)a[0], (enum isl_dim_type)n[0], n[1]); return nullptr; }},
{"isl_map_has_dim_name",'b',-1,{{'k',12},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_has_dim_name((isl_map *)a[0], (enum isl_dim_type)n[0], n[1]); return nullptr; }},
{"isl_map_has_domain_tuple_id",'b',-1,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_has_domain_tuple_id((isl_map *)a[0]); return nullptr; }},
{"isl_map_has_equal_space",'b',-1,{{'k',12},{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_has_equal_space((isl_map *)a[0], (isl_map *)a[1]); return nullptr; }},
{"isl_map_has_range_tuple_id",'b',-1,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_has_range_tuple_id((isl_map *)a[0]); return nullptr; }},
{"isl_map_has_tuple_id",'b',-1,{{'k',12},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_has_tuple_id((isl_map *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_map_has_tuple_name",'b',-1,{{'k',12},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_has_tuple_name((isl_map *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_map_identity",'o',12,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_identity((isl_space *)a[0]); }},
{"isl_map_insert_dims",'o',12,{{'t',12},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_insert_dims((isl_map *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_map_intersect",'o',12,{{'t',12},{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_intersect((isl_map *)a[0], (isl_map *)a[1]); }},
{"isl_map_intersect_domain",'o',12,{{'t',12},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_intersect_domain((isl_map *)a[0], (isl_set *)a[1]); }},
{"isl_map_intersect_domain_factor_domain",'o',12,{{'t',12},{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_intersect_domain_factor_domain((isl_map *)a[0], (isl_map *)a[1]); }},
{"isl_map_intersect_domain_factor_range",'o',12,{{'t',12},{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_intersect_domain_factor_range((isl_map *)a[0], (isl_map *)a[1]); }},
{"isl_map_intersect_domain_wrapped_domain",'o',12,{{'t',12},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_intersect_domain_wrapped_domain((isl_map *)a[0], (isl_set *)a[1]); }},
{"isl_map_intersect_params",'o',12,{{'t',12},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_intersect_params((isl_map *)a[0], (isl_set *)a[1]); }},
{"isl_map_intersect_range",'o',12,{{'t',12},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_intersect_range((isl_map *)a[0], (isl_set *)a[1]); }},
{"isl_map_intersect_range_factor_domain",'o',12,{{'t',12},{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_intersect_range_factor_domain((isl_map *)a[0], (isl_map *)a[1]); }},
{"isl_map_intersect_range_factor_range",'o',12,{{'t',12},{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_intersect_range_factor_range((isl_map *)a[0], (isl_map *)a[1]); }},
{"isl_map_intersect_range_wrapped_domain",'o',12,{{'t',12},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_intersect_range_wrapped_domain((isl_map *)a[0], (isl_set *)a[1]); }},
{"isl_map_involves_dims",'b',-1,{{'k',12},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_involves_dims((isl_map *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); return nullptr; }},
{"isl_map_is_bijective",'b',-1,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_is_bijective((isl_map *)a[0]); return nullptr; }},
{"isl_map_is_disjoint",'b',-1,{{'k',12},{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_is_disjoint((isl_map *)a[0], (isl_map *)a[1]); return nullptr; }},
{"isl_map_is_empty",'b',-1,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_is_empty((isl_map *)a[0]); return nullptr; }},
{"isl_map_is_equal",'b',-1,{{'k',12},{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_is_equal((isl_map *)a[0], (isl_map *)a[1]); return nullptr; }},
{"isl_map_is_identity",'b',-1,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_is_identity((isl_map *)a[0]); return nullptr; }},
{"isl_map_is_injective",'b',-1,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_is_injective((isl_map *)a[0]); return nullptr; }},
{"isl_map_is_product",'b',-1,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_is_product((isl_map *)a[0]); return nullptr; }},
{"isl_map_is_single_valued",'b',-1,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_is_single_valued((isl_map *)a[0]); return nullptr; }},
{"isl_map_is_strict_subset",'b',-1,{{'k',12},{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_is_strict_subset((isl_map *)a[0], (isl_map *)a[1]); return nullptr; }},
{"isl_map_is_subset",'b',-1,{{'k',12},{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_is_subset((isl_map *)a[0], (isl_map *)a[1]); return nullptr; }},
{"isl_map_is_translation",'i',-1,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_is_translation((isl_map *)a[0]); return nullptr; }},
{"isl_map_lex_ge",'o',12,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_lex_ge((isl_space *)a[0]); }},
{"isl_map_lex_ge_at_multi_pw_aff",'o',12,{{'t',12},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_lex_ge_at_multi_pw_aff((isl_map *)a[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_map_lex_ge_first",'o',12,{{'t',36},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_lex_ge_first((isl_space *)a[0], n[0]); }},
{"isl_map_lex_ge_map",'o',12,{{'t',12},{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_lex_ge_map((isl_map *)a[0], (isl_map *)a[1]); }},
{"isl_map_lex_gt",'o',12,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_lex_gt((isl_space *)a[0]); }},
{"isl_map_lex_gt_at_multi_pw_aff",'o',12,{{'t',12},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_lex_gt_at_multi_pw_aff((isl_map *)a[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_map_lex_gt_first",'o',12,{{'t',36},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_lex_gt_first((isl_space *)a[0], n[0]); }},
{"isl_map_lex_gt_map",'o',12,{{'t',12},{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_lex_gt_map((isl_map *)a[0], (isl_map *)a[1]); }},
{"isl_map_lex_le",'o',12,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_lex_le((isl_space *)a[0]); }},
{"isl_map_lex_le_at_multi_pw_aff",'o',12,{{'t',12},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_lex_le_at_multi_pw_aff((isl_map *)a[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_map_lex_le_first",'o',12,{{'t',36},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_lex_le_first((isl_space *)a[0], n[0]); }},
{"isl_map_lex_le_map",'o',12,{{'t',12},{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_lex_le_map((isl_map *)a[0], (isl_map *)a[1]); }},
{"isl_map_lex_lt",'o',12,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_lex_lt((isl_space *)a[0]); }},
{"isl_map_lex_lt_at_multi_pw_aff",'o',12,{{'t',12},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_lex_lt_at_multi_pw_aff((isl_map *)a[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_map_lex_lt_first",'o',12,{{'t',36},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_lex_lt_first((isl_space *)a[0], n[0]); }},
{"isl_map_lex_lt_map",'o',12,{{'t',12},{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_lex_lt_map((isl_map *)a[0], (isl_map *)a[1]); }},
{"isl_map_lexmax",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_lexmax((isl_map *)a[0]); }},
{"isl_map_lexmax_pw_multi_aff",'o',22,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_lexmax_pw_multi_aff((isl_map *)a[0]); }},
{"isl_map_lexmin",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_lexmin((isl_map *)a[0]); }},
{"isl_map_lexmin_pw_multi_aff",'o',22,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_lexmin_pw_multi_aff((isl_map *)a[0]); }},
{"isl_map_list_add",'o',13,{{'t',13},{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_list_add((isl_map_list *)a[0], (isl_map *)a[1]); }},
{"isl_map_list_alloc",'o',13,{{'c',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_list_alloc(ctx, n[0]); }},
{"isl_map_list_clear",'o',13,{{'t',13}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_list_clear((isl_map_list *)a[0]); }},
{"isl_map_list_concat",'o',13,{{'t',13},{'t',13}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_list_concat((isl_map_list *)a[0], (isl_map_list *)a[1]); }},
{"isl_map_list_drop",'o',13,{{'t',13},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_list_drop((isl_map_list *)a[0], n[0], n[1]); }},
{"isl_map_list_from_map",'o',13,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_list_from_map((isl_map *)a[0]); }},
{"isl_map_list_get_at",'o',12,{{'k',13},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_list_get_at((isl_map_list *)a[0], n[0]); }},
{"isl_map_list_get_map",'o',12,{{'k',13},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_list_get_map((isl_map_list *)a[0], n[0]); }},
{"isl_map_list_insert",'o',13,{{'t',13},{'p',0},{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_list_insert((isl_map_list *)a[0], n[0], (isl_map *)a[1]); }},
{"isl_map_list_n_map",'z',-1,{{'k',13}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_list_n_map((isl_map_list *)a[0]); return nullptr; }},
{"isl_map_list_reverse",'o',13,{{'t',13}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_list_reverse((isl_map_list *)a[0]); }},
{"isl_map_list_set_map",'o',13,{{'t',13},{'p',0},{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_list_set_map((isl_map_list *)a[0], n[0], (isl_map *)a[1]); }},
{"isl_map_list_size",'z',-1,{{'k',13}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_list_size((isl_map_list *)a[0]); return nullptr; }},
{"isl_map_list_swap",'o',13,{{'t',13},{'p',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_list_swap((isl_map_list *)a[0], n[0], n[1]); }},
{"isl_map_lower_bound_multi_pw_aff",'o',12,{{'t',12},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_lower_bound_multi_pw_aff((isl_map *)a[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_map_lower_bound_si",'o',12,{{'t',12},{'d',0},{'p',0},{'i',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_lower_bound_si((isl_map *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_map_lower_bound_val",'o',12,{{'t',12},{'d',0},{'p',0},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_lower_bound_val((isl_map *)a[0], (enum isl_dim_type)n[0], n[1], (isl_val *)a[1]); }},
{"isl_map_make_disjoint",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_make_disjoint((isl_map *)a[0]); }},
{"isl_map_max_multi_pw_aff",'o',16,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_max_multi_pw_aff((isl_map *)a[0]); }},
{"isl_map_min_multi_pw_aff",'o',16,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_min_multi_pw_aff((isl_map *)a[0]); }},
{"isl_map_move_dims",'o',12,{{'t',12},{'d',0},{'p',0},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_move_dims((isl_map *)a[0], (enum isl_dim_type)n[0], n[1], (enum isl_dim_type)n[2], n[3], n[4]); }},
{"isl_map_n_basic_map",'z',-1,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_n_basic_map((isl_map *)a[0]); return nullptr; }},
{"isl_map_nat_universe",'o',12,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_nat_universe((isl_space *)a[0]); }},
{"isl_map_neg",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_neg((isl_map *)a[0]); }},
{"isl_map_oppose",'o',12,{{'t',12},{'d',0},{'p',0},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_oppose((isl_map *)a[0], (enum isl_dim_type)n[0], n[1], (enum isl_dim_type)n[2], n[3]); }},
{"isl_map_order_ge",'o',12,{{'t',12},{'d',0},{'p',0},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_order_ge((isl_map *)a[0], (enum isl_dim_type)n[0], n[1], (enum isl_dim_type)n[2], n[3]); }},
{"isl_map_order_gt",'o',12,{{'t',12},{'d',0},{'p',0},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_order_gt((isl_map *)a[0], (enum isl_dim_type)n[0], n[1], (enum isl_dim_type)n[2], n[3]); }},
{"isl_map_order_le",'o',12,{{'t',12},{'d',0},{'p',0},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_order_le((isl_map *)a[0], (enum isl_dim_type)n[0], n[1], (enum isl_dim_type)n[2], n[3]); }},
{"isl_map_order_lt",'o',12,{{'t',12},{'d',0},{'p',0},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_order_lt((isl_map *)a[0], (enum isl_dim_type)n[0], n[1], (enum isl_dim_type)n[2], n[3]); }},
{"isl_map_params",'o',34,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_params((isl_map *)a[0]); }},
{"isl_map_plain_get_val_if_fixed",'o',51,{{'k',12},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_plain_get_val_if_fixed((isl_map *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_map_plain_is_empty",'b',-1,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_plain_is_empty((isl_map *)a[0]); return nullptr; }},
{"isl_map_plain_is_equal",'b',-1,{{'k',12},{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_plain_is_equal((isl_map *)a[0], (isl_map *)a[1]); return nullptr; }},
{"isl_map_plain_is_injective",'b',-1,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_plain_is_injective((isl_map *)a[0]); return nullptr; }},
{"isl_map_plain_is_single_valued",'b',-1,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_plain_is_single_valued((isl_map *)a[0]); return nullptr; }},
{"isl_map_plain_is_universe",'b',-1,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_plain_is_universe((isl_map *)a[0]); return nullptr; }},
{"isl_map_plain_unshifted_simple_hull",'o',2,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_plain_unshifted_simple_hull((isl_map *)a[0]); }},
{"isl_map_polyhedral_hull",'o',2,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_polyhedral_hull((isl_map *)a[0]); }},
{"isl_map_preimage_domain_multi_aff",'o',12,{{'t',12},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_preimage_domain_multi_aff((isl_map *)a[0], (isl_multi_aff *)a[1]); }},
{"isl_map_preimage_domain_multi_pw_aff",'o',12,{{'t',12},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_preimage_domain_multi_pw_aff((isl_map *)a[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_map_preimage_domain_pw_multi_aff",'o',12,{{'t',12},{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_preimage_domain_pw_multi_aff((isl_map *)a[0], (isl_pw_multi_aff *)a[1]); }},
{"isl_map_preimage_range_multi_aff",'o',12,{{'t',12},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_preimage_range_multi_aff((isl_map *)a[0], (isl_multi_aff *)a[1]); }},
{"isl_map_preimage_range_pw_multi_aff",'o',12,{{'t',12},{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_preimage_range_pw_multi_aff((isl_map *)a[0], (isl_pw_multi_aff *)a[1]); }},
{"isl_map_product",'o',12,{{'t',12},{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_product((isl_map *)a[0], (isl_map *)a[1]); }},
{"isl_map_project_out",'o',12,{{'t',12},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_project_out((isl_map *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_map_project_out_all_params",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_project_out_all_params((isl_map *)a[0]); }},
{"isl_map_project_out_param_id",'o',12,{{'t',12},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_project_out_param_id((isl_map *)a[0], (isl_id *)a[1]); }},
{"isl_map_project_out_param_id_list",'o',12,{{'t',12},{'t',10}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_project_out_param_id_list((isl_map *)a[0], (isl_id_list *)a[1]); }},
{"isl_map_range",'o',34,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_range((isl_map *)a[0]); }},
{"isl_map_range_curry",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_range_curry((isl_map *)a[0]); }},
{"isl_map_range_factor_domain",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_range_factor_domain((isl_map *)a[0]); }},
{"isl_map_range_factor_range",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_range_factor_range((isl_map *)a[0]); }},
{"isl_map_range_is_wrapping",'b',-1,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_range_is_wrapping((isl_map *)a[0]); return nullptr; }},
{"isl_map_range_map",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_range_map((isl_map *)a[0]); }},
{"isl_map_range_product",'o',12,{{'t',12},{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_range_product((isl_map *)a[0], (isl_map *)a[1]); }},
{"isl_map_range_reverse",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_range_reverse((isl_map *)a[0]); }},
{"isl_map_range_tuple_dim",'z',-1,{{'k',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_map_range_tuple_dim((isl_map *)a[0]); return nullptr; }},
{"isl_map_remove_dims",'o',12,{{'t',12},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_remove_dims((isl_map *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_map_remove_divs",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_remove_divs((isl_map *)a[0]); }},
{"isl_map_remove_divs_involving_dims",'o',12,{{'t',12},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_remove_divs_involving_dims((isl_map *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_map_remove_inputs",'o',12,{{'t',12},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_remove_inputs((isl_map *)a[0], n[0], n[1]); }},
{"isl_map_remove_redundancies",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_remove_redundancies((isl_map *)a[0]); }},
{"isl_map_remove_unknown_divs",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_remove_unknown_divs((isl_map *)a[0]); }},
{"isl_map_reset_tuple_id",'o',12,{{'t',12},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_reset_tuple_id((isl_map *)a[0], (enum isl_dim_type)n[0]); }},
{"isl_map_reset_user",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_reset_user((isl_map *)a[0]); }},
{"isl_map_reverse",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_reverse((isl_map *)a[0]); }},
{"isl_map_sample",'o',2,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_sample((isl_map *)a[0]); }},
{"isl_map_set_dim_id",'o',12,{{'t',12},{'d',0},{'p',0},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_set_dim_id((isl_map *)a[0], (enum isl_dim_type)n[0], n[1], (isl_id *)a[1]); }},
{"isl_map_set_dim_name",'o',12,{{'t',12},{'d',0},{'p',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_set_dim_name((isl_map *)a[0], (enum isl_dim_type)n[0], n[1], s[0]); }},
{"isl_map_set_domain_tuple_id",'o',12,{{'t',12},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_set_domain_tuple_id((isl_map *)a[0], (isl_id *)a[1]); }},
{"isl_map_set_range_tuple_id",'o',12,{{'t',12},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_set_range_tuple_id((isl_map *)a[0], (isl_id *)a[1]); }},
{"isl_map_set_tuple_id",'o',12,{{'t',12},{'d',0},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_set_tuple_id((isl_map *)a[0], (enum isl_dim_type)n[0], (isl_id *)a[1]); }},
{"isl_map_set_tuple_name",'o',12,{{'t',12},{'d',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_set_tuple_name((isl_map *)a[0], (enum isl_dim_type)n[0], s[0]); }},
{"isl_map_simple_hull",'o',2,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_simple_hull((isl_map *)a[0]); }},
{"isl_map_subtract",'o',12,{{'t',12},{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_subtract((isl_map *)a[0], (isl_map *)a[1]); }},
{"isl_map_subtract_domain",'o',12,{{'t',12},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_subtract_domain((isl_map *)a[0], (isl_set *)a[1]); }},
{"isl_map_subtract_range",'o',12,{{'t',12},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_subtract_range((isl_map *)a[0], (isl_set *)a[1]); }},
{"isl_map_sum",'o',12,{{'t',12},{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_sum((isl_map *)a[0], (isl_map *)a[1]); }},
{"isl_map_to_list",'o',13,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_to_list((isl_map *)a[0]); }},
{"isl_map_to_union_map",'o',41,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_to_union_map((isl_map *)a[0]); }},
{"isl_map_uncurry",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_uncurry((isl_map *)a[0]); }},
{"isl_map_union",'o',12,{{'t',12},{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_union((isl_map *)a[0], (isl_map *)a[1]); }},
{"isl_map_universe",'o',12,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_universe((isl_space *)a[0]); }},
{"isl_map_unshifted_simple_hull",'o',2,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_unshifted_simple_hull((isl_map *)a[0]); }},
{"isl_map_unshifted_simple_hull_from_map_list",'o',2,{{'t',12},{'t',13}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_unshifted_simple_hull_from_map_list((isl_map *)a[0], (isl_map_list *)a[1]); }},
{"isl_map_upper_bound_multi_pw_aff",'o',12,{{'t',12},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_upper_bound_multi_pw_aff((isl_map *)a[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_map_upper_bound_si",'o',12,{{'t',12},{'d',0},{'p',0},{'i',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_upper_bound_si((isl_map *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_map_upper_bound_val",'o',12,{{'t',12},{'d',0},{'p',0},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_upper_bound_val((isl_map *)a[0], (enum isl_dim_type)n[0], n[1], (isl_val *)a[1]); }},
{"isl_map_wrap",'o',34,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_wrap((isl_map *)a[0]); }},
{"isl_map_zip",'o',12,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_map_zip((isl_map *)a[0]); }},
{"isl_multi_aff_add",'o',14,{{'t',14},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_add((isl_multi_aff *)a[0], (isl_multi_aff *)a[1]); }},
{"isl_multi_aff_add_constant_multi_val",'o',14,{{'t',14},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_add_constant_multi_val((isl_multi_aff *)a[0], (isl_multi_val *)a[1]); }},
{"isl_multi_aff_add_constant_val",'o',14,{{'t',14},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_add_constant_val((isl_multi_aff *)a[0], (isl_val *)a[1]); }},
{"isl_multi_aff_add_dims",'o',14,{{'t',14},{'d',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_add_dims((isl_multi_aff *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_multi_aff_align_params",'o',14,{{'t',14},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_align_params((isl_multi_aff *)a[0], (isl_space *)a[1]); }},
{"isl_multi_aff_as_map",'o',12,{{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_as_map((isl_multi_aff *)a[0]); }},
{"isl_multi_aff_as_set",'o',34,{{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_as_set((isl_multi_aff *)a[0]); }},
{"isl_multi_aff_bind",'o',4,{{'t',14},{'t',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_bind((isl_multi_aff *)a[0], (isl_multi_id *)a[1]); }},
{"isl_multi_aff_bind_domain",'o',14,{{'t',14},{'t',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_bind_domain((isl_multi_aff *)a[0], (isl_multi_id *)a[1]); }},
{"isl_multi_aff_dim",'z',-1,{{'k',14},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_aff_dim((isl_multi_aff *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_multi_aff_domain_map",'o',14,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_domain_map((isl_space *)a[0]); }},
{"isl_multi_aff_drop_dims",'o',14,{{'t',14},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_drop_dims((isl_multi_aff *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_multi_aff_factor_range",'o',14,{{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_factor_range((isl_multi_aff *)a[0]); }},
{"isl_multi_aff_find_dim_by_id",'i',-1,{{'k',14},{'d',0},{'k',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_aff_find_dim_by_id((isl_multi_aff *)a[0], (enum isl_dim_type)n[0], (isl_id *)a[1]); return nullptr; }},
{"isl_multi_aff_find_dim_by_name",'i',-1,{{'k',14},{'d',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_aff_find_dim_by_name((isl_multi_aff *)a[0], (enum isl_dim_type)n[0], s[0]); return nullptr; }},
{"isl_multi_aff_flat_range_product",'o',14,{{'t',14},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_flat_range_product((isl_multi_aff *)a[0], (isl_multi_aff *)a[1]); }},
{"isl_multi_aff_flatten_domain",'o',14,{{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_flatten_domain((isl_multi_aff *)a[0]); }},
{"isl_multi_aff_flatten_range",'o',14,{{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_flatten_range((isl_multi_aff *)a[0]); }},
{"isl_multi_aff_floor",'o',14,{{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_floor((isl_multi_aff *)a[0]); }},
{"isl_multi_aff_from_aff",'o',14,{{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_from_aff((isl_aff *)a[0]); }},
{"isl_multi_aff_from_aff_list",'o',14,{{'t',36},{'t',1}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_from_aff_list((isl_space *)a[0], (isl_aff_list *)a[1]); }},
{"isl_multi_aff_from_range",'o',14,{{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_from_range((isl_multi_aff *)a[0]); }},
{"isl_multi_aff_get_aff",'o',0,{{'k',14},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_get_aff((isl_multi_aff *)a[0], n[0]); }},
{"isl_multi_aff_get_at",'o',0,{{'k',14},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_get_at((isl_multi_aff *)a[0], n[0]); }},
{"isl_multi_aff_get_constant_multi_val",'o',18,{{'k',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_get_constant_multi_val((isl_multi_aff *)a[0]); }},
{"isl_multi_aff_get_dim_id",'o',9,{{'k',14},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_get_dim_id((isl_multi_aff *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_multi_aff_get_domain_space",'o',36,{{'k',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_get_domain_space((isl_multi_aff *)a[0]); }},
{"isl_multi_aff_get_list",'o',1,{{'k',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_get_list((isl_multi_aff *)a[0]); }},
{"isl_multi_aff_get_range_tuple_id",'o',9,{{'k',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_get_range_tuple_id((isl_multi_aff *)a[0]); }},
{"isl_multi_aff_get_space",'o',36,{{'k',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_get_space((isl_multi_aff *)a[0]); }},
{"isl_multi_aff_get_tuple_id",'o',9,{{'k',14},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_get_tuple_id((isl_multi_aff *)a[0], (enum isl_dim_type)n[0]); }},
{"isl_multi_aff_get_tuple_name",'s',-1,{{'k',14},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return (void *)isl_multi_aff_get_tuple_name((isl_multi_aff *)a[0], (enum isl_dim_type)n[0]); }},
{"isl_multi_aff_gist",'o',14,{{'t',14},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_gist((isl_multi_aff *)a[0], (isl_set *)a[1]); }},
{"isl_multi_aff_gist_params",'o',14,{{'t',14},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_gist_params((isl_multi_aff *)a[0], (isl_set *)a[1]); }},
{"isl_multi_aff_has_range_tuple_id",'b',-1,{{'k',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_aff_has_range_tuple_id((isl_multi_aff *)a[0]); return nullptr; }},
{"isl_multi_aff_has_tuple_id",'b',-1,{{'k',14},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_aff_has_tuple_id((isl_multi_aff *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_multi_aff_identity",'o',14,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_identity((isl_space *)a[0]); }},
{"isl_multi_aff_identity_multi_aff",'o',14,{{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_identity_multi_aff((isl_multi_aff *)a[0]); }},
{"isl_multi_aff_insert_dims",'o',14,{{'t',14},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_insert_dims((isl_multi_aff *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_multi_aff_involves_dims",'b',-1,{{'k',14},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_aff_involves_dims((isl_multi_aff *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); return nullptr; }},
{"isl_multi_aff_involves_locals",'b',-1,{{'k',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_aff_involves_locals((isl_multi_aff *)a[0]); return nullptr; }},
{"isl_multi_aff_involves_nan",'b',-1,{{'k',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_aff_involves_nan((isl_multi_aff *)a[0]); return nullptr; }},
{"isl_multi_aff_lex_ge_set",'o',34,{{'t',14},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_lex_ge_set((isl_multi_aff *)a[0], (isl_multi_aff *)a[1]); }},
{"isl_multi_aff_lex_gt_set",'o',34,{{'t',14},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_lex_gt_set((isl_multi_aff *)a[0], (isl_multi_aff *)a[1]); }},
{"isl_multi_aff_lex_le_set",'o',34,{{'t',14},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_lex_le_set((isl_multi_aff *)a[0], (isl_multi_aff *)a[1]); }},
{"isl_multi_aff_lex_lt_set",'o',34,{{'t',14},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_lex_lt_set((isl_multi_aff *)a[0], (isl_multi_aff *)a[1]); }},
{"isl_multi_aff_mod_multi_val",'o',14,{{'t',14},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_mod_multi_val((isl_multi_aff *)a[0], (isl_multi_val *)a[1]); }},
{"isl_multi_aff_move_dims",'o',14,{{'t',14},{'d',0},{'p',0},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_move_dims((isl_multi_aff *)a[0], (enum isl_dim_type)n[0], n[1], (enum isl_dim_type)n[2], n[3], n[4]); }},
{"isl_multi_aff_multi_val_on_domain_space",'o',14,{{'t',36},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_multi_val_on_domain_space((isl_space *)a[0], (isl_multi_val *)a[1]); }},
{"isl_multi_aff_multi_val_on_space",'o',14,{{'t',36},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_multi_val_on_space((isl_space *)a[0], (isl_multi_val *)a[1]); }},
{"isl_multi_aff_neg",'o',14,{{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_neg((isl_multi_aff *)a[0]); }},
{"isl_multi_aff_plain_cmp",'i',-1,{{'k',14},{'k',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_aff_plain_cmp((isl_multi_aff *)a[0], (isl_multi_aff *)a[1]); return nullptr; }},
{"isl_multi_aff_plain_is_equal",'b',-1,{{'k',14},{'k',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_aff_plain_is_equal((isl_multi_aff *)a[0], (isl_multi_aff *)a[1]); return nullptr; }},
{"isl_multi_aff_product",'o',14,{{'t',14},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_product((isl_multi_aff *)a[0], (isl_multi_aff *)a[1]); }},
{"isl_multi_aff_project_out_map",'o',14,{{'t',36},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_project_out_map((isl_space *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_multi_aff_pullback_multi_aff",'o',14,{{'t',14},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_pullback_multi_aff((isl_multi_aff *)a[0], (isl_multi_aff *)a[1]); }},
{"isl_multi_aff_range_factor_domain",'o',14,{{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_range_factor_domain((isl_multi_aff *)a[0]); }},
{"isl_multi_aff_range_factor_range",'o',14,{{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_range_factor_range((isl_multi_aff *)a[0]); }},
{"isl_multi_aff_range_is_wrapping",'b',-1,{{'k',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_aff_range_is_wrapping((isl_multi_aff *)a[0]); return nullptr; }},
{"isl_multi_aff_range_map",'o',14,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_range_map((isl_space *)a[0]); }},
{"isl_multi_aff_range_product",'o',14,{{'t',14},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_range_product((isl_multi_aff *)a[0], (isl_multi_aff *)a[1]); }},
{"isl_multi_aff_range_splice",'o',14,{{'t',14},{'p',0},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_range_splice((isl_multi_aff *)a[0], n[0], (isl_multi_aff *)a[1]); }},
{"isl_multi_aff_reset_range_tuple_id",'o',14,{{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_reset_range_tuple_id((isl_multi_aff *)a[0]); }},
{"isl_multi_aff_reset_tuple_id",'o',14,{{'t',14},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_reset_tuple_id((isl_multi_aff *)a[0], (enum isl_dim_type)n[0]); }},
{"isl_multi_aff_reset_user",'o',14,{{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_reset_user((isl_multi_aff *)a[0]); }},
{"isl_multi_aff_scale_down_multi_val",'o',14,{{'t',14},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_scale_down_multi_val((isl_multi_aff *)a[0], (isl_multi_val *)a[1]); }},
{"isl_multi_aff_scale_down_val",'o',14,{{'t',14},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_scale_down_val((isl_multi_aff *)a[0], (isl_val *)a[1]); }},
{"isl_multi_aff_scale_multi_val",'o',14,{{'t',14},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_scale_multi_val((isl_multi_aff *)a[0], (isl_multi_val *)a[1]); }},
{"isl_multi_aff_scale_val",'o',14,{{'t',14},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_scale_val((isl_multi_aff *)a[0], (isl_val *)a[1]); }},
{"isl_multi_aff_set_aff",'o',14,{{'t',14},{'p',0},{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_set_aff((isl_multi_aff *)a[0], n[0], (isl_aff *)a[1]); }},
{"isl_multi_aff_set_at",'o',14,{{'t',14},{'p',0},{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_set_at((isl_multi_aff *)a[0], n[0], (isl_aff *)a[1]); }},
{"isl_multi_aff_set_dim_id",'o',14,{{'t',14},{'d',0},{'p',0},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_set_dim_id((isl_multi_aff *)a[0], (enum isl_dim_type)n[0], n[1], (isl_id *)a[1]); }},
{"isl_multi_aff_set_dim_name",'o',14,{{'t',14},{'d',0},{'p',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_set_dim_name((isl_multi_aff *)a[0], (enum isl_dim_type)n[0], n[1], s[0]); }},
{"isl_multi_aff_set_range_tuple_id",'o',14,{{'t',14},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_set_range_tuple_id((isl_multi_aff *)a[0], (isl_id *)a[1]); }},
{"isl_multi_aff_set_tuple_id",'o',14,{{'t',14},{'d',0},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_set_tuple_id((isl_multi_aff *)a[0], (enum isl_dim_type)n[0], (isl_id *)a[1]); }},
{"isl_multi_aff_set_tuple_name",'o',14,{{'t',14},{'d',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_set_tuple_name((isl_multi_aff *)a[0], (enum isl_dim_type)n[0], s[0]); }},
{"isl_multi_aff_size",'z',-1,{{'k',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_aff_size((isl_multi_aff *)a[0]); return nullptr; }},
{"isl_multi_aff_splice",'o',14,{{'t',14},{'p',0},{'p',0},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_splice((isl_multi_aff *)a[0], n[0], n[1], (isl_multi_aff *)a[1]); }},
{"isl_multi_aff_sub",'o',14,{{'t',14},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_sub((isl_multi_aff *)a[0], (isl_multi_aff *)a[1]); }},
{"isl_multi_aff_to_multi_pw_aff",'o',16,{{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_to_multi_pw_aff((isl_multi_aff *)a[0]); }},
{"isl_multi_aff_to_multi_union_pw_aff",'o',17,{{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_to_multi_union_pw_aff((isl_multi_aff *)a[0]); }},
{"isl_multi_aff_to_pw_multi_aff",'o',22,{{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_to_pw_multi_aff((isl_multi_aff *)a[0]); }},
{"isl_multi_aff_zero",'o',14,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_aff_zero((isl_space *)a[0]); }},
{"isl_multi_id_align_params",'o',15,{{'t',15},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_id_align_params((isl_multi_id *)a[0], (isl_space *)a[1]); }},
{"isl_multi_id_factor_range",'o',15,{{'t',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_id_factor_range((isl_multi_id *)a[0]); }},
{"isl_multi_id_flat_range_product",'o',15,{{'t',15},{'t',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_id_flat_range_product((isl_multi_id *)a[0], (isl_multi_id *)a[1]); }},
{"isl_multi_id_flatten_range",'o',15,{{'t',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_id_flatten_range((isl_multi_id *)a[0]); }},
{"isl_multi_id_from_id_list",'o',15,{{'t',36},{'t',10}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_id_from_id_list((isl_space *)a[0], (isl_id_list *)a[1]); }},
{"isl_multi_id_from_range",'o',15,{{'t',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_id_from_range((isl_multi_id *)a[0]); }},
{"isl_multi_id_get_at",'o',9,{{'k',15},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_id_get_at((isl_multi_id *)a[0], n[0]); }},
{"isl_multi_id_get_domain_space",'o',36,{{'k',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_id_get_domain_space((isl_multi_id *)a[0]); }},
{"isl_multi_id_get_id",'o',9,{{'k',15},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_id_get_id((isl_multi_id *)a[0], n[0]); }},
{"isl_multi_id_get_list",'o',10,{{'k',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_id_get_list((isl_multi_id *)a[0]); }},
{"isl_multi_id_get_space",'o',36,{{'k',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_id_get_space((isl_multi_id *)a[0]); }},
{"isl_multi_id_plain_is_equal",'b',-1,{{'k',15},{'k',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_id_plain_is_equal((isl_multi_id *)a[0], (isl_multi_id *)a[1]); return nullptr; }},
{"isl_multi_id_range_factor_domain",'o',15,{{'t',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_id_range_factor_domain((isl_multi_id *)a[0]); }},
{"isl_multi_id_range_factor_range",'o',15,{{'t',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_id_range_factor_range((isl_multi_id *)a[0]); }},
{"isl_multi_id_range_is_wrapping",'b',-1,{{'k',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_id_range_is_wrapping((isl_multi_id *)a[0]); return nullptr; }},
{"isl_multi_id_range_product",'o',15,{{'t',15},{'t',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_id_range_product((isl_multi_id *)a[0], (isl_multi_id *)a[1]); }},
{"isl_multi_id_range_splice",'o',15,{{'t',15},{'p',0},{'t',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_id_range_splice((isl_multi_id *)a[0], n[0], (isl_multi_id *)a[1]); }},
{"isl_multi_id_reset_user",'o',15,{{'t',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_id_reset_user((isl_multi_id *)a[0]); }},
{"isl_multi_id_set_at",'o',15,{{'t',15},{'p',0},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_id_set_at((isl_multi_id *)a[0], n[0], (isl_id *)a[1]); }},
{"isl_multi_id_set_id",'o',15,{{'t',15},{'p',0},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_id_set_id((isl_multi_id *)a[0], n[0], (isl_id *)a[1]); }},
{"isl_multi_id_size",'z',-1,{{'k',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_id_size((isl_multi_id *)a[0]); return nullptr; }},
{"isl_multi_pw_aff_add",'o',16,{{'t',16},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_add((isl_multi_pw_aff *)a[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_multi_pw_aff_add_constant_multi_val",'o',16,{{'t',16},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_add_constant_multi_val((isl_multi_pw_aff *)a[0], (isl_multi_val *)a[1]); }},
{"isl_multi_pw_aff_add_constant_val",'o',16,{{'t',16},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_add_constant_val((isl_multi_pw_aff *)a[0], (isl_val *)a[1]); }},
{"isl_multi_pw_aff_add_dims",'o',16,{{'t',16},{'d',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_add_dims((isl_multi_pw_aff *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_multi_pw_aff_align_params",'o',16,{{'t',16},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_align_params((isl_multi_pw_aff *)a[0], (isl_space *)a[1]); }},
{"isl_multi_pw_aff_as_map",'o',12,{{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_as_map((isl_multi_pw_aff *)a[0]); }},
{"isl_multi_pw_aff_as_multi_aff",'o',14,{{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_as_multi_aff((isl_multi_pw_aff *)a[0]); }},
{"isl_multi_pw_aff_as_set",'o',34,{{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_as_set((isl_multi_pw_aff *)a[0]); }},
{"isl_multi_pw_aff_bind",'o',34,{{'t',16},{'t',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_bind((isl_multi_pw_aff *)a[0], (isl_multi_id *)a[1]); }},
{"isl_multi_pw_aff_bind_domain",'o',16,{{'t',16},{'t',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_bind_domain((isl_multi_pw_aff *)a[0], (isl_multi_id *)a[1]); }},
{"isl_multi_pw_aff_coalesce",'o',16,{{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_coalesce((isl_multi_pw_aff *)a[0]); }},
{"isl_multi_pw_aff_dim",'z',-1,{{'k',16},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_pw_aff_dim((isl_multi_pw_aff *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_multi_pw_aff_domain",'o',34,{{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_domain((isl_multi_pw_aff *)a[0]); }},
{"isl_multi_pw_aff_drop_dims",'o',16,{{'t',16},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_drop_dims((isl_multi_pw_aff *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_multi_pw_aff_eq_map",'o',12,{{'t',16},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_eq_map((isl_multi_pw_aff *)a[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_multi_pw_aff_factor_range",'o',16,{{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_factor_range((isl_multi_pw_aff *)a[0]); }},
{"isl_multi_pw_aff_find_dim_by_id",'i',-1,{{'k',16},{'d',0},{'k',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_pw_aff_find_dim_by_id((isl_multi_pw_aff *)a[0], (enum isl_dim_type)n[0], (isl_id *)a[1]); return nullptr; }},
{"isl_multi_pw_aff_find_dim_by_name",'i',-1,{{'k',16},{'d',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_pw_aff_find_dim_by_name((isl_multi_pw_aff *)a[0], (enum isl_dim_type)n[0], s[0]); return nullptr; }},
{"isl_multi_pw_aff_flat_range_product",'o',16,{{'t',16},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_flat_range_product((isl_multi_pw_aff *)a[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_multi_pw_aff_flatten_range",'o',16,{{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_flatten_range((isl_multi_pw_aff *)a[0]); }},
{"isl_multi_pw_aff_from_aff",'o',16,{{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_from_aff((isl_aff *)a[0]); }},
{"isl_multi_pw_aff_from_multi_aff",'o',16,{{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_from_multi_aff((isl_multi_aff *)a[0]); }},
{"isl_multi_pw_aff_from_pw_aff",'o',16,{{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_from_pw_aff((isl_pw_aff *)a[0]); }},
{"isl_multi_pw_aff_from_pw_aff_list",'o',16,{{'t',36},{'t',21}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_from_pw_aff_list((isl_space *)a[0], (isl_pw_aff_list *)a[1]); }},
{"isl_multi_pw_aff_from_pw_multi_aff",'o',16,{{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_from_pw_multi_aff((isl_pw_multi_aff *)a[0]); }},
{"isl_multi_pw_aff_from_range",'o',16,{{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_from_range((isl_multi_pw_aff *)a[0]); }},
{"isl_multi_pw_aff_get_at",'o',20,{{'k',16},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_get_at((isl_multi_pw_aff *)a[0], n[0]); }},
{"isl_multi_pw_aff_get_dim_id",'o',9,{{'k',16},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_get_dim_id((isl_multi_pw_aff *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_multi_pw_aff_get_domain_space",'o',36,{{'k',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_get_domain_space((isl_multi_pw_aff *)a[0]); }},
{"isl_multi_pw_aff_get_list",'o',21,{{'k',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_get_list((isl_multi_pw_aff *)a[0]); }},
{"isl_multi_pw_aff_get_pw_aff",'o',20,{{'k',16},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_get_pw_aff((isl_multi_pw_aff *)a[0], n[0]); }},
{"isl_multi_pw_aff_get_range_tuple_id",'o',9,{{'k',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_get_range_tuple_id((isl_multi_pw_aff *)a[0]); }},
{"isl_multi_pw_aff_get_space",'o',36,{{'k',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_get_space((isl_multi_pw_aff *)a[0]); }},
{"isl_multi_pw_aff_get_tuple_id",'o',9,{{'k',16},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_get_tuple_id((isl_multi_pw_aff *)a[0], (enum isl_dim_type)n[0]); }},
{"isl_multi_pw_aff_get_tuple_name",'s',-1,{{'k',16},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return (void *)isl_multi_pw_aff_get_tuple_name((isl_multi_pw_aff *)a[0], (enum isl_dim_type)n[0]); }},
{"isl_multi_pw_aff_gist",'o',16,{{'t',16},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_gist((isl_multi_pw_aff *)a[0], (isl_set *)a[1]); }},
{"isl_multi_pw_aff_gist_params",'o',16,{{'t',16},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_gist_params((isl_multi_pw_aff *)a[0], (isl_set *)a[1]); }},
{"isl_multi_pw_aff_has_range_tuple_id",'b',-1,{{'k',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_pw_aff_has_range_tuple_id((isl_multi_pw_aff *)a[0]); return nullptr; }},
{"isl_multi_pw_aff_has_tuple_id",'b',-1,{{'k',16},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_pw_aff_has_tuple_id((isl_multi_pw_aff *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_multi_pw_aff_identity",'o',16,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_identity((isl_space *)a[0]); }},
{"isl_multi_pw_aff_identity_multi_pw_aff",'o',16,{{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_identity_multi_pw_aff((isl_multi_pw_aff *)a[0]); }},
{"isl_multi_pw_aff_insert_dims",'o',16,{{'t',16},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_insert_dims((isl_multi_pw_aff *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_multi_pw_aff_intersect_domain",'o',16,{{'t',16},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_intersect_domain((isl_multi_pw_aff *)a[0], (isl_set *)a[1]); }},
{"isl_multi_pw_aff_intersect_params",'o',16,{{'t',16},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_intersect_params((isl_multi_pw_aff *)a[0], (isl_set *)a[1]); }},
{"isl_multi_pw_aff_involves_dims",'b',-1,{{'k',16},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_pw_aff_involves_dims((isl_multi_pw_aff *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); return nullptr; }},
{"isl_multi_pw_aff_involves_nan",'b',-1,{{'k',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_pw_aff_involves_nan((isl_multi_pw_aff *)a[0]); return nullptr; }},
{"isl_multi_pw_aff_involves_param_id",'b',-1,{{'k',16},{'k',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_pw_aff_involves_param_id((isl_multi_pw_aff *)a[0], (isl_id *)a[1]); return nullptr; }},
{"isl_multi_pw_aff_involves_param_id_list",'b',-1,{{'k',16},{'k',10}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_pw_aff_involves_param_id_list((isl_multi_pw_aff *)a[0], (isl_id_list *)a[1]); return nullptr; }},
{"isl_multi_pw_aff_is_cst",'b',-1,{{'k',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_pw_aff_is_cst((isl_multi_pw_aff *)a[0]); return nullptr; }},
{"isl_multi_pw_aff_is_equal",'b',-1,{{'k',16},{'k',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_pw_aff_is_equal((isl_multi_pw_aff *)a[0], (isl_multi_pw_aff *)a[1]); return nullptr; }},
{"isl_multi_pw_aff_isa_multi_aff",'b',-1,{{'k',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_pw_aff_isa_multi_aff((isl_multi_pw_aff *)a[0]); return nullptr; }},
{"isl_multi_pw_aff_lex_ge_map",'o',12,{{'t',16},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_lex_ge_map((isl_multi_pw_aff *)a[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_multi_pw_aff_lex_gt_map",'o',12,{{'t',16},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_lex_gt_map((isl_multi_pw_aff *)a[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_multi_pw_aff_lex_le_map",'o',12,{{'t',16},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_lex_le_map((isl_multi_pw_aff *)a[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_multi_pw_aff_lex_lt_map",'o',12,{{'t',16},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_lex_lt_map((isl_multi_pw_aff *)a[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_multi_pw_aff_max",'o',16,{{'t',16},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_max((isl_multi_pw_aff *)a[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_multi_pw_aff_max_multi_val",'o',18,{{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_max_multi_val((isl_multi_pw_aff *)a[0]); }},
{"isl_multi_pw_aff_min",'o',16,{{'t',16},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_min((isl_multi_pw_aff *)a[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_multi_pw_aff_min_multi_val",'o',18,{{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_min_multi_val((isl_multi_pw_aff *)a[0]); }},
{"isl_multi_pw_aff_mod_multi_val",'o',16,{{'t',16},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_mod_multi_val((isl_multi_pw_aff *)a[0], (isl_multi_val *)a[1]); }},
{"isl_multi_pw_aff_move_dims",'o',16,{{'t',16},{'d',0},{'p',0},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_move_dims((isl_multi_pw_aff *)a[0], (enum isl_dim_type)n[0], n[1], (enum isl_dim_type)n[2], n[3], n[4]); }},
{"isl_multi_pw_aff_neg",'o',16,{{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_neg((isl_multi_pw_aff *)a[0]); }},
{"isl_multi_pw_aff_plain_is_equal",'b',-1,{{'k',16},{'k',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_pw_aff_plain_is_equal((isl_multi_pw_aff *)a[0], (isl_multi_pw_aff *)a[1]); return nullptr; }},
{"isl_multi_pw_aff_product",'o',16,{{'t',16},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_product((isl_multi_pw_aff *)a[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_multi_pw_aff_pullback_multi_aff",'o',16,{{'t',16},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_pullback_multi_aff((isl_multi_pw_aff *)a[0], (isl_multi_aff *)a[1]); }},
{"isl_multi_pw_aff_pullback_multi_pw_aff",'o',16,{{'t',16},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_pullback_multi_pw_aff((isl_multi_pw_aff *)a[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_multi_pw_aff_pullback_pw_multi_aff",'o',16,{{'t',16},{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_pullback_pw_multi_aff((isl_multi_pw_aff *)a[0], (isl_pw_multi_aff *)a[1]); }},
{"isl_multi_pw_aff_range_factor_domain",'o',16,{{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_range_factor_domain((isl_multi_pw_aff *)a[0]); }},
{"isl_multi_pw_aff_range_factor_range",'o',16,{{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_range_factor_range((isl_multi_pw_aff *)a[0]); }},
{"isl_multi_pw_aff_range_is_wrapping",'b',-1,{{'k',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_pw_aff_range_is_wrapping((isl_multi_pw_aff *)a[0]); return nullptr; }},
{"isl_multi_pw_aff_range_product",'o',16,{{'t',16},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_range_product((isl_multi_pw_aff *)a[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_multi_pw_aff_range_splice",'o',16,{{'t',16},{'p',0},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_range_splice((isl_multi_pw_aff *)a[0], n[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_multi_pw_aff_reset_range_tuple_id",'o',16,{{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_reset_range_tuple_id((isl_multi_pw_aff *)a[0]); }},
{"isl_multi_pw_aff_reset_tuple_id",'o',16,{{'t',16},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_reset_tuple_id((isl_multi_pw_aff *)a[0], (enum isl_dim_type)n[0]); }},
{"isl_multi_pw_aff_reset_user",'o',16,{{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_reset_user((isl_multi_pw_aff *)a[0]); }},
{"isl_multi_pw_aff_scale_down_multi_val",'o',16,{{'t',16},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_scale_down_multi_val((isl_multi_pw_aff *)a[0], (isl_multi_val *)a[1]); }},
{"isl_multi_pw_aff_scale_down_val",'o',16,{{'t',16},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_scale_down_val((isl_multi_pw_aff *)a[0], (isl_val *)a[1]); }},
{"isl_multi_pw_aff_scale_multi_val",'o',16,{{'t',16},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_scale_multi_val((isl_multi_pw_aff *)a[0], (isl_multi_val *)a[1]); }},
{"isl_multi_pw_aff_scale_val",'o',16,{{'t',16},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_scale_val((isl_multi_pw_aff *)a[0], (isl_val *)a[1]); }},
{"isl_multi_pw_aff_set_at",'o',16,{{'t',16},{'p',0},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_set_at((isl_multi_pw_aff *)a[0], n[0], (isl_pw_aff *)a[1]); }},
{"isl_multi_pw_aff_set_dim_id",'o',16,{{'t',16},{'d',0},{'p',0},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_set_dim_id((isl_multi_pw_aff *)a[0], (enum isl_dim_type)n[0], n[1], (isl_id *)a[1]); }},
{"isl_multi_pw_aff_set_dim_name",'o',16,{{'t',16},{'d',0},{'p',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_set_dim_name((isl_multi_pw_aff *)a[0], (enum isl_dim_type)n[0], n[1], s[0]); }},
{"isl_multi_pw_aff_set_pw_aff",'o',16,{{'t',16},{'p',0},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_set_pw_aff((isl_multi_pw_aff *)a[0], n[0], (isl_pw_aff *)a[1]); }},
{"isl_multi_pw_aff_set_range_tuple_id",'o',16,{{'t',16},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_set_range_tuple_id((isl_multi_pw_aff *)a[0], (isl_id *)a[1]); }},
{"isl_multi_pw_aff_set_tuple_id",'o',16,{{'t',16},{'d',0},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_set_tuple_id((isl_multi_pw_aff *)a[0], (enum isl_dim_type)n[0], (isl_id *)a[1]); }},
{"isl_multi_pw_aff_set_tuple_name",'o',16,{{'t',16},{'d',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_set_tuple_name((isl_multi_pw_aff *)a[0], (enum isl_dim_type)n[0], s[0]); }},
{"isl_multi_pw_aff_size",'z',-1,{{'k',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_pw_aff_size((isl_multi_pw_aff *)a[0]); return nullptr; }},
{"isl_multi_pw_aff_splice",'o',16,{{'t',16},{'p',0},{'p',0},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_splice((isl_multi_pw_aff *)a[0], n[0], n[1], (isl_multi_pw_aff *)a[1]); }},
{"isl_multi_pw_aff_sub",'o',16,{{'t',16},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_sub((isl_multi_pw_aff *)a[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_multi_pw_aff_union_add",'o',16,{{'t',16},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_union_add((isl_multi_pw_aff *)a[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_multi_pw_aff_zero",'o',16,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_pw_aff_zero((isl_space *)a[0]); }},
{"isl_multi_union_pw_aff_add",'o',17,{{'t',17},{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_add((isl_multi_union_pw_aff *)a[0], (isl_multi_union_pw_aff *)a[1]); }},
{"isl_multi_union_pw_aff_align_params",'o',17,{{'t',17},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_align_params((isl_multi_union_pw_aff *)a[0], (isl_space *)a[1]); }},
{"isl_multi_union_pw_aff_apply_aff",'o',43,{{'t',17},{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_apply_aff((isl_multi_union_pw_aff *)a[0], (isl_aff *)a[1]); }},
{"isl_multi_union_pw_aff_apply_multi_aff",'o',17,{{'t',17},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_apply_multi_aff((isl_multi_union_pw_aff *)a[0], (isl_multi_aff *)a[1]); }},
{"isl_multi_union_pw_aff_apply_pw_aff",'o',43,{{'t',17},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_apply_pw_aff((isl_multi_union_pw_aff *)a[0], (isl_pw_aff *)a[1]); }},
{"isl_multi_union_pw_aff_apply_pw_multi_aff",'o',17,{{'t',17},{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_apply_pw_multi_aff((isl_multi_union_pw_aff *)a[0], (isl_pw_multi_aff *)a[1]); }},
{"isl_multi_union_pw_aff_bind",'o',49,{{'t',17},{'t',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_bind((isl_multi_union_pw_aff *)a[0], (isl_multi_id *)a[1]); }},
{"isl_multi_union_pw_aff_coalesce",'o',17,{{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_coalesce((isl_multi_union_pw_aff *)a[0]); }},
{"isl_multi_union_pw_aff_dim",'z',-1,{{'k',17},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_union_pw_aff_dim((isl_multi_union_pw_aff *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_multi_union_pw_aff_domain",'o',49,{{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_domain((isl_multi_union_pw_aff *)a[0]); }},
{"isl_multi_union_pw_aff_drop_dims",'o',17,{{'t',17},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_drop_dims((isl_multi_union_pw_aff *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_multi_union_pw_aff_extract_multi_pw_aff",'o',16,{{'k',17},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_extract_multi_pw_aff((isl_multi_union_pw_aff *)a[0], (isl_space *)a[1]); }},
{"isl_multi_union_pw_aff_factor_range",'o',17,{{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_factor_range((isl_multi_union_pw_aff *)a[0]); }},
{"isl_multi_union_pw_aff_find_dim_by_id",'i',-1,{{'k',17},{'d',0},{'k',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_union_pw_aff_find_dim_by_id((isl_multi_union_pw_aff *)a[0], (enum isl_dim_type)n[0], (isl_id *)a[1]); return nullptr; }},
{"isl_multi_union_pw_aff_find_dim_by_name",'i',-1,{{'k',17},{'d',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_union_pw_aff_find_dim_by_name((isl_multi_union_pw_aff *)a[0], (enum isl_dim_type)n[0], s[0]); return nullptr; }},
{"isl_multi_union_pw_aff_flat_range_product",'o',17,{{'t',17},{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_flat_range_product((isl_multi_union_pw_aff *)a[0], (isl_multi_union_pw_aff *)a[1]); }},
{"isl_multi_union_pw_aff_flatten_range",'o',17,{{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_flatten_range((isl_multi_union_pw_aff *)a[0]); }},
{"isl_multi_union_pw_aff_floor",'o',17,{{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_floor((isl_multi_union_pw_aff *)a[0]); }},
{"isl_multi_union_pw_aff_from_multi_aff",'o',17,{{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_from_multi_aff((isl_multi_aff *)a[0]); }},
{"isl_multi_union_pw_aff_from_multi_pw_aff",'o',17,{{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_from_multi_pw_aff((isl_multi_pw_aff *)a[0]); }},
{"isl_multi_union_pw_aff_from_range",'o',17,{{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_from_range((isl_multi_union_pw_aff *)a[0]); }},
{"isl_multi_union_pw_aff_from_union_map",'o',17,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_from_union_map((isl_union_map *)a[0]); }},
{"isl_multi_union_pw_aff_from_union_pw_aff",'o',17,{{'t',43}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_from_union_pw_aff((isl_union_pw_aff *)a[0]); }},
{"isl_multi_union_pw_aff_from_union_pw_aff_list",'o',17,{{'t',36},{'t',44}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_from_union_pw_aff_list((isl_space *)a[0], (isl_union_pw_aff_list *)a[1]); }},
{"isl_multi_union_pw_aff_get_at",'o',43,{{'k',17},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_get_at((isl_multi_union_pw_aff *)a[0], n[0]); }},
{"isl_multi_union_pw_aff_get_dim_id",'o',9,{{'k',17},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_get_dim_id((isl_multi_union_pw_aff *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_multi_union_pw_aff_get_domain_space",'o',36,{{'k',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_get_domain_space((isl_multi_union_pw_aff *)a[0]); }},
{"isl_multi_union_pw_aff_get_list",'o',44,{{'k',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_get_list((isl_multi_union_pw_aff *)a[0]); }},
{"isl_multi_union_pw_aff_get_range_tuple_id",'o',9,{{'k',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_get_range_tuple_id((isl_multi_union_pw_aff *)a[0]); }},
{"isl_multi_union_pw_aff_get_space",'o',36,{{'k',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_get_space((isl_multi_union_pw_aff *)a[0]); }},
{"isl_multi_union_pw_aff_get_tuple_id",'o',9,{{'k',17},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_get_tuple_id((isl_multi_union_pw_aff *)a[0], (enum isl_dim_type)n[0]); }},
{"isl_multi_union_pw_aff_get_tuple_name",'s',-1,{{'k',17},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return (void *)isl_multi_union_pw_aff_get_tuple_name((isl_multi_union_pw_aff *)a[0], (enum isl_dim_type)n[0]); }},
{"isl_multi_union_pw_aff_get_union_pw_aff",'o',43,{{'k',17},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_get_union_pw_aff((isl_multi_union_pw_aff *)a[0], n[0]); }},
{"isl_multi_union_pw_aff_gist",'o',17,{{'t',17},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_gist((isl_multi_union_pw_aff *)a[0], (isl_union_set *)a[1]); }},
{"isl_multi_union_pw_aff_gist_params",'o',17,{{'t',17},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_gist_params((isl_multi_union_pw_aff *)a[0], (isl_set *)a[1]); }},
{"isl_multi_union_pw_aff_has_range_tuple_id",'b',-1,{{'k',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_union_pw_aff_has_range_tuple_id((isl_multi_union_pw_aff *)a[0]); return nullptr; }},
{"isl_multi_union_pw_aff_has_tuple_id",'b',-1,{{'k',17},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_union_pw_aff_has_tuple_id((isl_multi_union_pw_aff *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_multi_union_pw_aff_intersect_domain",'o',17,{{'t',17},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_intersect_domain((isl_multi_union_pw_aff *)a[0], (isl_union_set *)a[1]); }},
{"isl_multi_union_pw_aff_intersect_params",'o',17,{{'t',17},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_intersect_params((isl_multi_union_pw_aff *)a[0], (isl_set *)a[1]); }},
{"isl_multi_union_pw_aff_intersect_range",'o',17,{{'t',17},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_intersect_range((isl_multi_union_pw_aff *)a[0], (isl_set *)a[1]); }},
{"isl_multi_union_pw_aff_involves_nan",'b',-1,{{'k',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_union_pw_aff_involves_nan((isl_multi_union_pw_aff *)a[0]); return nullptr; }},
{"isl_multi_union_pw_aff_max_multi_val",'o',18,{{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_max_multi_val((isl_multi_union_pw_aff *)a[0]); }},
{"isl_multi_union_pw_aff_min_multi_val",'o',18,{{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_min_multi_val((isl_multi_union_pw_aff *)a[0]); }},
{"isl_multi_union_pw_aff_mod_multi_val",'o',17,{{'t',17},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_mod_multi_val((isl_multi_union_pw_aff *)a[0], (isl_multi_val *)a[1]); }},
{"isl_multi_union_pw_aff_multi_aff_on_domain",'o',17,{{'t',49},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_multi_aff_on_domain((isl_union_set *)a[0], (isl_multi_aff *)a[1]); }},
{"isl_multi_union_pw_aff_multi_val_on_domain",'o',17,{{'t',49},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_multi_val_on_domain((isl_union_set *)a[0], (isl_multi_val *)a[1]); }},
{"isl_multi_union_pw_aff_neg",'o',17,{{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_neg((isl_multi_union_pw_aff *)a[0]); }},
{"isl_multi_union_pw_aff_plain_is_equal",'b',-1,{{'k',17},{'k',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_union_pw_aff_plain_is_equal((isl_multi_union_pw_aff *)a[0], (isl_multi_union_pw_aff *)a[1]); return nullptr; }},
{"isl_multi_union_pw_aff_range_factor_domain",'o',17,{{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_range_factor_domain((isl_multi_union_pw_aff *)a[0]); }},
{"isl_multi_union_pw_aff_range_factor_range",'o',17,{{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_range_factor_range((isl_multi_union_pw_aff *)a[0]); }},
{"isl_multi_union_pw_aff_range_is_wrapping",'b',-1,{{'k',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_union_pw_aff_range_is_wrapping((isl_multi_union_pw_aff *)a[0]); return nullptr; }},
{"isl_multi_union_pw_aff_range_product",'o',17,{{'t',17},{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_range_product((isl_multi_union_pw_aff *)a[0], (isl_multi_union_pw_aff *)a[1]); }},
{"isl_multi_union_pw_aff_range_splice",'o',17,{{'t',17},{'p',0},{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_range_splice((isl_multi_union_pw_aff *)a[0], n[0], (isl_multi_union_pw_aff *)a[1]); }},
{"isl_multi_union_pw_aff_reset_range_tuple_id",'o',17,{{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_reset_range_tuple_id((isl_multi_union_pw_aff *)a[0]); }},
{"isl_multi_union_pw_aff_reset_tuple_id",'o',17,{{'t',17},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_reset_tuple_id((isl_multi_union_pw_aff *)a[0], (enum isl_dim_type)n[0]); }},
{"isl_multi_union_pw_aff_reset_user",'o',17,{{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_reset_user((isl_multi_union_pw_aff *)a[0]); }},
{"isl_multi_union_pw_aff_scale_down_multi_val",'o',17,{{'t',17},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_scale_down_multi_val((isl_multi_union_pw_aff *)a[0], (isl_multi_val *)a[1]); }},
{"isl_multi_union_pw_aff_scale_down_val",'o',17,{{'t',17},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_scale_down_val((isl_multi_union_pw_aff *)a[0], (isl_val *)a[1]); }},
{"isl_multi_union_pw_aff_scale_multi_val",'o',17,{{'t',17},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_scale_multi_val((isl_multi_union_pw_aff *)a[0], (isl_multi_val *)a[1]); }},
{"isl_multi_union_pw_aff_scale_val",'o',17,{{'t',17},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_scale_val((isl_multi_union_pw_aff *)a[0], (isl_val *)a[1]); }},
{"isl_multi_union_pw_aff_set_at",'o',17,{{'t',17},{'p',0},{'t',43}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_set_at((isl_multi_union_pw_aff *)a[0], n[0], (isl_union_pw_aff *)a[1]); }},
{"isl_multi_union_pw_aff_set_dim_id",'o',17,{{'t',17},{'d',0},{'p',0},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_set_dim_id((isl_multi_union_pw_aff *)a[0], (enum isl_dim_type)n[0], n[1], (isl_id *)a[1]); }},
{"isl_multi_union_pw_aff_set_dim_name",'o',17,{{'t',17},{'d',0},{'p',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_set_dim_name((isl_multi_union_pw_aff *)a[0], (enum isl_dim_type)n[0], n[1], s[0]); }},
{"isl_multi_union_pw_aff_set_range_tuple_id",'o',17,{{'t',17},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_set_range_tuple_id((isl_multi_union_pw_aff *)a[0], (isl_id *)a[1]); }},
{"isl_multi_union_pw_aff_set_tuple_id",'o',17,{{'t',17},{'d',0},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_set_tuple_id((isl_multi_union_pw_aff *)a[0], (enum isl_dim_type)n[0], (isl_id *)a[1]); }},
{"isl_multi_union_pw_aff_set_tuple_name",'o',17,{{'t',17},{'d',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_set_tuple_name((isl_multi_union_pw_aff *)a[0], (enum isl_dim_type)n[0], s[0]); }},
{"isl_multi_union_pw_aff_set_union_pw_aff",'o',17,{{'t',17},{'p',0},{'t',43}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_set_union_pw_aff((isl_multi_union_pw_aff *)a[0], n[0], (isl_union_pw_aff *)a[1]); }},
{"isl_multi_union_pw_aff_size",'z',-1,{{'k',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_union_pw_aff_size((isl_multi_union_pw_aff *)a[0]); return nullptr; }},
{"isl_multi_union_pw_aff_sub",'o',17,{{'t',17},{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_sub((isl_multi_union_pw_aff *)a[0], (isl_multi_union_pw_aff *)a[1]); }},
{"isl_multi_union_pw_aff_union_add",'o',17,{{'t',17},{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_union_add((isl_multi_union_pw_aff *)a[0], (isl_multi_union_pw_aff *)a[1]); }},
{"isl_multi_union_pw_aff_zero",'o',17,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_zero((isl_space *)a[0]); }},
{"isl_multi_union_pw_aff_zero_union_set",'o',49,{{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_union_pw_aff_zero_union_set((isl_multi_union_pw_aff *)a[0]); }},
{"isl_multi_val_add",'o',18,{{'t',18},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_add((isl_multi_val *)a[0], (isl_multi_val *)a[1]); }},
{"isl_multi_val_add_dims",'o',18,{{'t',18},{'d',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_add_dims((isl_multi_val *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_multi_val_add_val",'o',18,{{'t',18},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_add_val((isl_multi_val *)a[0], (isl_val *)a[1]); }},
{"isl_multi_val_align_params",'o',18,{{'t',18},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_align_params((isl_multi_val *)a[0], (isl_space *)a[1]); }},
{"isl_multi_val_dim",'z',-1,{{'k',18},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_val_dim((isl_multi_val *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_multi_val_drop_dims",'o',18,{{'t',18},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_drop_dims((isl_multi_val *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_multi_val_factor_range",'o',18,{{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_factor_range((isl_multi_val *)a[0]); }},
{"isl_multi_val_find_dim_by_id",'i',-1,{{'k',18},{'d',0},{'k',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_val_find_dim_by_id((isl_multi_val *)a[0], (enum isl_dim_type)n[0], (isl_id *)a[1]); return nullptr; }},
{"isl_multi_val_find_dim_by_name",'i',-1,{{'k',18},{'d',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_val_find_dim_by_name((isl_multi_val *)a[0], (enum isl_dim_type)n[0], s[0]); return nullptr; }},
{"isl_multi_val_flat_range_product",'o',18,{{'t',18},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_flat_range_product((isl_multi_val *)a[0], (isl_multi_val *)a[1]); }},
{"isl_multi_val_flatten_range",'o',18,{{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_flatten_range((isl_multi_val *)a[0]); }},
{"isl_multi_val_from_range",'o',18,{{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_from_range((isl_multi_val *)a[0]); }},
{"isl_multi_val_from_val_list",'o',18,{{'t',36},{'t',52}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_from_val_list((isl_space *)a[0], (isl_val_list *)a[1]); }},
{"isl_multi_val_get_at",'o',51,{{'k',18},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_get_at((isl_multi_val *)a[0], n[0]); }},
{"isl_multi_val_get_dim_id",'o',9,{{'k',18},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_get_dim_id((isl_multi_val *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_multi_val_get_domain_space",'o',36,{{'k',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_get_domain_space((isl_multi_val *)a[0]); }},
{"isl_multi_val_get_list",'o',52,{{'k',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_get_list((isl_multi_val *)a[0]); }},
{"isl_multi_val_get_range_tuple_id",'o',9,{{'k',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_get_range_tuple_id((isl_multi_val *)a[0]); }},
{"isl_multi_val_get_space",'o',36,{{'k',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_get_space((isl_multi_val *)a[0]); }},
{"isl_multi_val_get_tuple_id",'o',9,{{'k',18},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_get_tuple_id((isl_multi_val *)a[0], (enum isl_dim_type)n[0]); }},
{"isl_multi_val_get_tuple_name",'s',-1,{{'k',18},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return (void *)isl_multi_val_get_tuple_name((isl_multi_val *)a[0], (enum isl_dim_type)n[0]); }},
{"isl_multi_val_get_val",'o',51,{{'k',18},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_get_val((isl_multi_val *)a[0], n[0]); }},
{"isl_multi_val_has_range_tuple_id",'b',-1,{{'k',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_val_has_range_tuple_id((isl_multi_val *)a[0]); return nullptr; }},
{"isl_multi_val_has_tuple_id",'b',-1,{{'k',18},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_val_has_tuple_id((isl_multi_val *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_multi_val_insert_dims",'o',18,{{'t',18},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_insert_dims((isl_multi_val *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_multi_val_involves_dims",'b',-1,{{'k',18},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_val_involves_dims((isl_multi_val *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); return nullptr; }},
{"isl_multi_val_involves_nan",'b',-1,{{'k',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_val_involves_nan((isl_multi_val *)a[0]); return nullptr; }},
{"isl_multi_val_is_zero",'b',-1,{{'k',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_val_is_zero((isl_multi_val *)a[0]); return nullptr; }},
{"isl_multi_val_max",'o',18,{{'t',18},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_max((isl_multi_val *)a[0], (isl_multi_val *)a[1]); }},
{"isl_multi_val_min",'o',18,{{'t',18},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_min((isl_multi_val *)a[0], (isl_multi_val *)a[1]); }},
{"isl_multi_val_mod_multi_val",'o',18,{{'t',18},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_mod_multi_val((isl_multi_val *)a[0], (isl_multi_val *)a[1]); }},
{"isl_multi_val_mod_val",'o',18,{{'t',18},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_mod_val((isl_multi_val *)a[0], (isl_val *)a[1]); }},
{"isl_multi_val_neg",'o',18,{{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_neg((isl_multi_val *)a[0]); }},
{"isl_multi_val_plain_is_equal",'b',-1,{{'k',18},{'k',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_val_plain_is_equal((isl_multi_val *)a[0], (isl_multi_val *)a[1]); return nullptr; }},
{"isl_multi_val_product",'o',18,{{'t',18},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_product((isl_multi_val *)a[0], (isl_multi_val *)a[1]); }},
{"isl_multi_val_range_factor_domain",'o',18,{{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_range_factor_domain((isl_multi_val *)a[0]); }},
{"isl_multi_val_range_factor_range",'o',18,{{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_range_factor_range((isl_multi_val *)a[0]); }},
{"isl_multi_val_range_is_wrapping",'b',-1,{{'k',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_val_range_is_wrapping((isl_multi_val *)a[0]); return nullptr; }},
{"isl_multi_val_range_product",'o',18,{{'t',18},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_range_product((isl_multi_val *)a[0], (isl_multi_val *)a[1]); }},
{"isl_multi_val_range_splice",'o',18,{{'t',18},{'p',0},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_range_splice((isl_multi_val *)a[0], n[0], (isl_multi_val *)a[1]); }},
{"isl_multi_val_reset_range_tuple_id",'o',18,{{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_reset_range_tuple_id((isl_multi_val *)a[0]); }},
{"isl_multi_val_reset_tuple_id",'o',18,{{'t',18},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_reset_tuple_id((isl_multi_val *)a[0], (enum isl_dim_type)n[0]); }},
{"isl_multi_val_reset_user",'o',18,{{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_reset_user((isl_multi_val *)a[0]); }},
{"isl_multi_val_scale_down_multi_val",'o',18,{{'t',18},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_scale_down_multi_val((isl_multi_val *)a[0], (isl_multi_val *)a[1]); }},
{"isl_multi_val_scale_down_val",'o',18,{{'t',18},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_scale_down_val((isl_multi_val *)a[0], (isl_val *)a[1]); }},
{"isl_multi_val_scale_multi_val",'o',18,{{'t',18},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_scale_multi_val((isl_multi_val *)a[0], (isl_multi_val *)a[1]); }},
{"isl_multi_val_scale_val",'o',18,{{'t',18},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_scale_val((isl_multi_val *)a[0], (isl_val *)a[1]); }},
{"isl_multi_val_set_at",'o',18,{{'t',18},{'p',0},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_set_at((isl_multi_val *)a[0], n[0], (isl_val *)a[1]); }},
{"isl_multi_val_set_dim_id",'o',18,{{'t',18},{'d',0},{'p',0},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_set_dim_id((isl_multi_val *)a[0], (enum isl_dim_type)n[0], n[1], (isl_id *)a[1]); }},
{"isl_multi_val_set_dim_name",'o',18,{{'t',18},{'d',0},{'p',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_set_dim_name((isl_multi_val *)a[0], (enum isl_dim_type)n[0], n[1], s[0]); }},
{"isl_multi_val_set_range_tuple_id",'o',18,{{'t',18},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_set_range_tuple_id((isl_multi_val *)a[0], (isl_id *)a[1]); }},
{"isl_multi_val_set_tuple_id",'o',18,{{'t',18},{'d',0},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_set_tuple_id((isl_multi_val *)a[0], (enum isl_dim_type)n[0], (isl_id *)a[1]); }},
{"isl_multi_val_set_tuple_name",'o',18,{{'t',18},{'d',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_set_tuple_name((isl_multi_val *)a[0], (enum isl_dim_type)n[0], s[0]); }},
{"isl_multi_val_set_val",'o',18,{{'t',18},{'p',0},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_set_val((isl_multi_val *)a[0], n[0], (isl_val *)a[1]); }},
{"isl_multi_val_size",'z',-1,{{'k',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_multi_val_size((isl_multi_val *)a[0]); return nullptr; }},
{"isl_multi_val_splice",'o',18,{{'t',18},{'p',0},{'p',0},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_splice((isl_multi_val *)a[0], n[0], n[1], (isl_multi_val *)a[1]); }},
{"isl_multi_val_sub",'o',18,{{'t',18},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_sub((isl_multi_val *)a[0], (isl_multi_val *)a[1]); }},
{"isl_multi_val_zero",'o',18,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_multi_val_zero((isl_space *)a[0]); }},
{"isl_point_add_ui",'o',19,{{'t',19},{'d',0},{'p',0},{'u',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_point_add_ui((isl_point *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_point_get_coordinate_val",'o',51,{{'k',19},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_point_get_coordinate_val((isl_point *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_point_get_multi_val",'o',18,{{'k',19}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_point_get_multi_val((isl_point *)a[0]); }},
{"isl_point_get_space",'o',36,{{'k',19}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_point_get_space((isl_point *)a[0]); }},
{"isl_point_is_void",'b',-1,{{'k',19}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_point_is_void((isl_point *)a[0]); return nullptr; }},
{"isl_point_set_coordinate_val",'o',19,{{'t',19},{'d',0},{'p',0},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_point_set_coordinate_val((isl_point *)a[0], (enum isl_dim_type)n[0], n[1], (isl_val *)a[1]); }},
{"isl_point_sub_ui",'o',19,{{'t',19},{'d',0},{'p',0},{'u',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_point_sub_ui((isl_point *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_point_to_set",'o',34,{{'t',19}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_point_to_set((isl_point *)a[0]); }},
{"isl_point_void",'o',19,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_point_void((isl_space *)a[0]); }},
{"isl_point_zero",'o',19,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_point_zero((isl_space *)a[0]); }},
{"isl_pw_aff_add",'o',20,{{'t',20},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_add((isl_pw_aff *)a[0], (isl_pw_aff *)a[1]); }},
{"isl_pw_aff_add_constant_val",'o',20,{{'t',20},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_add_constant_val((isl_pw_aff *)a[0], (isl_val *)a[1]); }},
{"isl_pw_aff_add_dims",'o',20,{{'t',20},{'d',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_add_dims((isl_pw_aff *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_pw_aff_align_params",'o',20,{{'t',20},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_align_params((isl_pw_aff *)a[0], (isl_space *)a[1]); }},
{"isl_pw_aff_alloc",'o',20,{{'t',34},{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_alloc((isl_set *)a[0], (isl_aff *)a[1]); }},
{"isl_pw_aff_as_aff",'o',0,{{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_as_aff((isl_pw_aff *)a[0]); }},
{"isl_pw_aff_as_map",'o',12,{{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_as_map((isl_pw_aff *)a[0]); }},
{"isl_pw_aff_bind_domain",'o',20,{{'t',20},{'t',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_bind_domain((isl_pw_aff *)a[0], (isl_multi_id *)a[1]); }},
{"isl_pw_aff_bind_domain_wrapped_domain",'o',20,{{'t',20},{'t',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_bind_domain_wrapped_domain((isl_pw_aff *)a[0], (isl_multi_id *)a[1]); }},
{"isl_pw_aff_bind_id",'o',34,{{'t',20},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_bind_id((isl_pw_aff *)a[0], (isl_id *)a[1]); }},
{"isl_pw_aff_ceil",'o',20,{{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_ceil((isl_pw_aff *)a[0]); }},
{"isl_pw_aff_coalesce",'o',20,{{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_coalesce((isl_pw_aff *)a[0]); }},
{"isl_pw_aff_cond",'o',20,{{'t',20},{'t',20},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_cond((isl_pw_aff *)a[0], (isl_pw_aff *)a[1], (isl_pw_aff *)a[2]); }},
{"isl_pw_aff_dim",'z',-1,{{'k',20},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_aff_dim((isl_pw_aff *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_pw_aff_div",'o',20,{{'t',20},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_div((isl_pw_aff *)a[0], (isl_pw_aff *)a[1]); }},
{"isl_pw_aff_domain",'o',34,{{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_domain((isl_pw_aff *)a[0]); }},
{"isl_pw_aff_drop_dims",'o',20,{{'t',20},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_drop_dims((isl_pw_aff *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_pw_aff_drop_unused_params",'o',20,{{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_drop_unused_params((isl_pw_aff *)a[0]); }},
{"isl_pw_aff_empty",'o',20,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_empty((isl_space *)a[0]); }},
{"isl_pw_aff_eq_map",'o',12,{{'t',20},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_eq_map((isl_pw_aff *)a[0], (isl_pw_aff *)a[1]); }},
{"isl_pw_aff_eq_set",'o',34,{{'t',20},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_eq_set((isl_pw_aff *)a[0], (isl_pw_aff *)a[1]); }},
{"isl_pw_aff_eval",'o',51,{{'t',20},{'t',19}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_eval((isl_pw_aff *)a[0], (isl_point *)a[1]); }},
{"isl_pw_aff_find_dim_by_name",'i',-1,{{'k',20},{'d',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_aff_find_dim_by_name((isl_pw_aff *)a[0], (enum isl_dim_type)n[0], s[0]); return nullptr; }},
{"isl_pw_aff_floor",'o',20,{{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_floor((isl_pw_aff *)a[0]); }},
{"isl_pw_aff_from_aff",'o',20,{{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_from_aff((isl_aff *)a[0]); }},
{"isl_pw_aff_from_range",'o',20,{{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_from_range((isl_pw_aff *)a[0]); }},
{"isl_pw_aff_ge_map",'o',12,{{'t',20},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_ge_map((isl_pw_aff *)a[0], (isl_pw_aff *)a[1]); }},
{"isl_pw_aff_ge_set",'o',34,{{'t',20},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_ge_set((isl_pw_aff *)a[0], (isl_pw_aff *)a[1]); }},
{"isl_pw_aff_get_dim_id",'o',9,{{'k',20},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_get_dim_id((isl_pw_aff *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_pw_aff_get_dim_name",'s',-1,{{'k',20},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return (void *)isl_pw_aff_get_dim_name((isl_pw_aff *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_pw_aff_get_domain_space",'o',36,{{'k',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_get_domain_space((isl_pw_aff *)a[0]); }},
{"isl_pw_aff_get_space",'o',36,{{'k',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_get_space((isl_pw_aff *)a[0]); }},
{"isl_pw_aff_get_tuple_id",'o',9,{{'k',20},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_get_tuple_id((isl_pw_aff *)a[0], (enum isl_dim_type)n[0]); }},
{"isl_pw_aff_gist",'o',20,{{'t',20},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_gist((isl_pw_aff *)a[0], (isl_set *)a[1]); }},
{"isl_pw_aff_gist_params",'o',20,{{'t',20},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_gist_params((isl_pw_aff *)a[0], (isl_set *)a[1]); }},
{"isl_pw_aff_gt_map",'o',12,{{'t',20},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_gt_map((isl_pw_aff *)a[0], (isl_pw_aff *)a[1]); }},
{"isl_pw_aff_gt_set",'o',34,{{'t',20},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_gt_set((isl_pw_aff *)a[0], (isl_pw_aff *)a[1]); }},
{"isl_pw_aff_has_dim_id",'b',-1,{{'k',20},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_aff_has_dim_id((isl_pw_aff *)a[0], (enum isl_dim_type)n[0], n[1]); return nullptr; }},
{"isl_pw_aff_has_tuple_id",'b',-1,{{'k',20},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_aff_has_tuple_id((isl_pw_aff *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_pw_aff_insert_dims",'o',20,{{'t',20},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_insert_dims((isl_pw_aff *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_pw_aff_insert_domain",'o',20,{{'t',20},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_insert_domain((isl_pw_aff *)a[0], (isl_space *)a[1]); }},
{"isl_pw_aff_intersect_domain",'o',20,{{'t',20},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_intersect_domain((isl_pw_aff *)a[0], (isl_set *)a[1]); }},
{"isl_pw_aff_intersect_domain_wrapped_domain",'o',20,{{'t',20},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_intersect_domain_wrapped_domain((isl_pw_aff *)a[0], (isl_set *)a[1]); }},
{"isl_pw_aff_intersect_domain_wrapped_range",'o',20,{{'t',20},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_intersect_domain_wrapped_range((isl_pw_aff *)a[0], (isl_set *)a[1]); }},
{"isl_pw_aff_intersect_params",'o',20,{{'t',20},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_intersect_params((isl_pw_aff *)a[0], (isl_set *)a[1]); }},
{"isl_pw_aff_involves_dims",'b',-1,{{'k',20},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_aff_involves_dims((isl_pw_aff *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); return nullptr; }},
{"isl_pw_aff_involves_nan",'b',-1,{{'k',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_aff_involves_nan((isl_pw_aff *)a[0]); return nullptr; }},
{"isl_pw_aff_involves_param_id",'b',-1,{{'k',20},{'k',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_aff_involves_param_id((isl_pw_aff *)a[0], (isl_id *)a[1]); return nullptr; }},
{"isl_pw_aff_is_cst",'b',-1,{{'k',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_aff_is_cst((isl_pw_aff *)a[0]); return nullptr; }},
{"isl_pw_aff_is_empty",'b',-1,{{'k',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_aff_is_empty((isl_pw_aff *)a[0]); return nullptr; }},
{"isl_pw_aff_is_equal",'b',-1,{{'k',20},{'k',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_aff_is_equal((isl_pw_aff *)a[0], (isl_pw_aff *)a[1]); return nullptr; }},
{"isl_pw_aff_isa_aff",'b',-1,{{'k',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_aff_isa_aff((isl_pw_aff *)a[0]); return nullptr; }},
{"isl_pw_aff_le_map",'o',12,{{'t',20},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_le_map((isl_pw_aff *)a[0], (isl_pw_aff *)a[1]); }},
{"isl_pw_aff_le_set",'o',34,{{'t',20},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_le_set((isl_pw_aff *)a[0], (isl_pw_aff *)a[1]); }},
{"isl_pw_aff_list_add",'o',21,{{'t',21},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_list_add((isl_pw_aff_list *)a[0], (isl_pw_aff *)a[1]); }},
{"isl_pw_aff_list_alloc",'o',21,{{'c',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_list_alloc(ctx, n[0]); }},
{"isl_pw_aff_list_clear",'o',21,{{'t',21}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_list_clear((isl_pw_aff_list *)a[0]); }},
{"isl_pw_aff_list_concat",'o',21,{{'t',21},{'t',21}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_list_concat((isl_pw_aff_list *)a[0], (isl_pw_aff_list *)a[1]); }},
{"isl_pw_aff_list_drop",'o',21,{{'t',21},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_list_drop((isl_pw_aff_list *)a[0], n[0], n[1]); }},
{"isl_pw_aff_list_eq_set",'o',34,{{'t',21},{'t',21}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_list_eq_set((isl_pw_aff_list *)a[0], (isl_pw_aff_list *)a[1]); }},
{"isl_pw_aff_list_from_pw_aff",'o',21,{{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_list_from_pw_aff((isl_pw_aff *)a[0]); }},
{"isl_pw_aff_list_ge_set",'o',34,{{'t',21},{'t',21}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_list_ge_set((isl_pw_aff_list *)a[0], (isl_pw_aff_list *)a[1]); }},
{"isl_pw_aff_list_get_at",'o',20,{{'k',21},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_list_get_at((isl_pw_aff_list *)a[0], n[0]); }},
{"isl_pw_aff_list_get_pw_aff",'o',20,{{'k',21},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_list_get_pw_aff((isl_pw_aff_list *)a[0], n[0]); }},
{"isl_pw_aff_list_gt_set",'o',34,{{'t',21},{'t',21}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_list_gt_set((isl_pw_aff_list *)a[0], (isl_pw_aff_list *)a[1]); }},
{"isl_pw_aff_list_insert",'o',21,{{'t',21},{'p',0},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_list_insert((isl_pw_aff_list *)a[0], n[0], (isl_pw_aff *)a[1]); }},
{"isl_pw_aff_list_le_set",'o',34,{{'t',21},{'t',21}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_list_le_set((isl_pw_aff_list *)a[0], (isl_pw_aff_list *)a[1]); }},
{"isl_pw_aff_list_lt_set",'o',34,{{'t',21},{'t',21}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_list_lt_set((isl_pw_aff_list *)a[0], (isl_pw_aff_list *)a[1]); }},
{"isl_pw_aff_list_max",'o',20,{{'t',21}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_list_max((isl_pw_aff_list *)a[0]); }},
{"isl_pw_aff_list_min",'o',20,{{'t',21}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_list_min((isl_pw_aff_list *)a[0]); }},
{"isl_pw_aff_list_n_pw_aff",'z',-1,{{'k',21}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_aff_list_n_pw_aff((isl_pw_aff_list *)a[0]); return nullptr; }},
{"isl_pw_aff_list_ne_set",'o',34,{{'t',21},{'t',21}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_list_ne_set((isl_pw_aff_list *)a[0], (isl_pw_aff_list *)a[1]); }},
{"isl_pw_aff_list_reverse",'o',21,{{'t',21}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_list_reverse((isl_pw_aff_list *)a[0]); }},
{"isl_pw_aff_list_set_pw_aff",'o',21,{{'t',21},{'p',0},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_list_set_pw_aff((isl_pw_aff_list *)a[0], n[0], (isl_pw_aff *)a[1]); }},
{"isl_pw_aff_list_size",'z',-1,{{'k',21}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_aff_list_size((isl_pw_aff_list *)a[0]); return nullptr; }},
{"isl_pw_aff_list_swap",'o',21,{{'t',21},{'p',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_list_swap((isl_pw_aff_list *)a[0], n[0], n[1]); }},
{"isl_pw_aff_lt_map",'o',12,{{'t',20},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_lt_map((isl_pw_aff *)a[0], (isl_pw_aff *)a[1]); }},
{"isl_pw_aff_lt_set",'o',34,{{'t',20},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_lt_set((isl_pw_aff *)a[0], (isl_pw_aff *)a[1]); }},
{"isl_pw_aff_max",'o',20,{{'t',20},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_max((isl_pw_aff *)a[0], (isl_pw_aff *)a[1]); }},
{"isl_pw_aff_max_val",'o',51,{{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_max_val((isl_pw_aff *)a[0]); }},
{"isl_pw_aff_min",'o',20,{{'t',20},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_min((isl_pw_aff *)a[0], (isl_pw_aff *)a[1]); }},
{"isl_pw_aff_min_val",'o',51,{{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_min_val((isl_pw_aff *)a[0]); }},
{"isl_pw_aff_mod_val",'o',20,{{'t',20},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_mod_val((isl_pw_aff *)a[0], (isl_val *)a[1]); }},
{"isl_pw_aff_move_dims",'o',20,{{'t',20},{'d',0},{'p',0},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_move_dims((isl_pw_aff *)a[0], (enum isl_dim_type)n[0], n[1], (enum isl_dim_type)n[2], n[3], n[4]); }},
{"isl_pw_aff_mul",'o',20,{{'t',20},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_mul((isl_pw_aff *)a[0], (isl_pw_aff *)a[1]); }},
{"isl_pw_aff_n_piece",'z',-1,{{'k',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_aff_n_piece((isl_pw_aff *)a[0]); return nullptr; }},
{"isl_pw_aff_nan_on_domain",'o',20,{{'t',11}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_nan_on_domain((isl_local_space *)a[0]); }},
{"isl_pw_aff_nan_on_domain_space",'o',20,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_nan_on_domain_space((isl_space *)a[0]); }},
{"isl_pw_aff_ne_set",'o',34,{{'t',20},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_ne_set((isl_pw_aff *)a[0], (isl_pw_aff *)a[1]); }},
{"isl_pw_aff_neg",'o',20,{{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_neg((isl_pw_aff *)a[0]); }},
{"isl_pw_aff_non_zero_set",'o',34,{{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_non_zero_set((isl_pw_aff *)a[0]); }},
{"isl_pw_aff_nonneg_set",'o',34,{{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_nonneg_set((isl_pw_aff *)a[0]); }},
{"isl_pw_aff_param_on_domain_id",'o',20,{{'t',34},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_param_on_domain_id((isl_set *)a[0], (isl_id *)a[1]); }},
{"isl_pw_aff_params",'o',34,{{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_params((isl_pw_aff *)a[0]); }},
{"isl_pw_aff_plain_cmp",'i',-1,{{'k',20},{'k',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_aff_plain_cmp((isl_pw_aff *)a[0], (isl_pw_aff *)a[1]); return nullptr; }},
{"isl_pw_aff_plain_is_equal",'b',-1,{{'k',20},{'k',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_aff_plain_is_equal((isl_pw_aff *)a[0], (isl_pw_aff *)a[1]); return nullptr; }},
{"isl_pw_aff_pos_set",'o',34,{{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_pos_set((isl_pw_aff *)a[0]); }},
{"isl_pw_aff_project_domain_on_params",'o',20,{{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_project_domain_on_params((isl_pw_aff *)a[0]); }},
{"isl_pw_aff_pullback_multi_aff",'o',20,{{'t',20},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_pullback_multi_aff((isl_pw_aff *)a[0], (isl_multi_aff *)a[1]); }},
{"isl_pw_aff_pullback_multi_pw_aff",'o',20,{{'t',20},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_pullback_multi_pw_aff((isl_pw_aff *)a[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_pw_aff_pullback_pw_multi_aff",'o',20,{{'t',20},{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_pullback_pw_multi_aff((isl_pw_aff *)a[0], (isl_pw_multi_aff *)a[1]); }},
{"isl_pw_aff_reset_tuple_id",'o',20,{{'t',20},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_reset_tuple_id((isl_pw_aff *)a[0], (enum isl_dim_type)n[0]); }},
{"isl_pw_aff_reset_user",'o',20,{{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_reset_user((isl_pw_aff *)a[0]); }},
{"isl_pw_aff_scale_down_val",'o',20,{{'t',20},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_scale_down_val((isl_pw_aff *)a[0], (isl_val *)a[1]); }},
{"isl_pw_aff_scale_val",'o',20,{{'t',20},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_scale_val((isl_pw_aff *)a[0], (isl_val *)a[1]); }},
{"isl_pw_aff_set_dim_id",'o',20,{{'t',20},{'d',0},{'p',0},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_set_dim_id((isl_pw_aff *)a[0], (enum isl_dim_type)n[0], n[1], (isl_id *)a[1]); }},
{"isl_pw_aff_set_tuple_id",'o',20,{{'t',20},{'d',0},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_set_tuple_id((isl_pw_aff *)a[0], (enum isl_dim_type)n[0], (isl_id *)a[1]); }},
{"isl_pw_aff_sub",'o',20,{{'t',20},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_sub((isl_pw_aff *)a[0], (isl_pw_aff *)a[1]); }},
{"isl_pw_aff_subtract_domain",'o',20,{{'t',20},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_subtract_domain((isl_pw_aff *)a[0], (isl_set *)a[1]); }},
{"isl_pw_aff_tdiv_q",'o',20,{{'t',20},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_tdiv_q((isl_pw_aff *)a[0], (isl_pw_aff *)a[1]); }},
{"isl_pw_aff_tdiv_r",'o',20,{{'t',20},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_tdiv_r((isl_pw_aff *)a[0], (isl_pw_aff *)a[1]); }},
{"isl_pw_aff_to_list",'o',21,{{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_to_list((isl_pw_aff *)a[0]); }},
{"isl_pw_aff_to_union_pw_aff",'o',43,{{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_to_union_pw_aff((isl_pw_aff *)a[0]); }},
{"isl_pw_aff_union_add",'o',20,{{'t',20},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_union_add((isl_pw_aff *)a[0], (isl_pw_aff *)a[1]); }},
{"isl_pw_aff_union_max",'o',20,{{'t',20},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_union_max((isl_pw_aff *)a[0], (isl_pw_aff *)a[1]); }},
{"isl_pw_aff_union_min",'o',20,{{'t',20},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_union_min((isl_pw_aff *)a[0], (isl_pw_aff *)a[1]); }},
{"isl_pw_aff_val_on_domain",'o',20,{{'t',34},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_val_on_domain((isl_set *)a[0], (isl_val *)a[1]); }},
{"isl_pw_aff_var_on_domain",'o',20,{{'t',11},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_var_on_domain((isl_local_space *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_pw_aff_zero_on_domain",'o',20,{{'t',11}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_zero_on_domain((isl_local_space *)a[0]); }},
{"isl_pw_aff_zero_set",'o',34,{{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_aff_zero_set((isl_pw_aff *)a[0]); }},
{"isl_pw_multi_aff_add",'o',22,{{'t',22},{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_add((isl_pw_multi_aff *)a[0], (isl_pw_multi_aff *)a[1]); }},
{"isl_pw_multi_aff_add_constant_multi_val",'o',22,{{'t',22},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_add_constant_multi_val((isl_pw_multi_aff *)a[0], (isl_multi_val *)a[1]); }},
{"isl_pw_multi_aff_add_constant_val",'o',22,{{'t',22},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_add_constant_val((isl_pw_multi_aff *)a[0], (isl_val *)a[1]); }},
{"isl_pw_multi_aff_align_params",'o',22,{{'t',22},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_align_params((isl_pw_multi_aff *)a[0], (isl_space *)a[1]); }},
{"isl_pw_multi_aff_alloc",'o',22,{{'t',34},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_alloc((isl_set *)a[0], (isl_multi_aff *)a[1]); }},
{"isl_pw_multi_aff_as_map",'o',12,{{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_as_map((isl_pw_multi_aff *)a[0]); }},
{"isl_pw_multi_aff_as_multi_aff",'o',14,{{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_as_multi_aff((isl_pw_multi_aff *)a[0]); }},
{"isl_pw_multi_aff_as_set",'o',34,{{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_as_set((isl_pw_multi_aff *)a[0]); }},
{"isl_pw_multi_aff_bind_domain",'o',22,{{'t',22},{'t',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_bind_domain((isl_pw_multi_aff *)a[0], (isl_multi_id *)a[1]); }},
{"isl_pw_multi_aff_bind_domain_wrapped_domain",'o',22,{{'t',22},{'t',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_bind_domain_wrapped_domain((isl_pw_multi_aff *)a[0], (isl_multi_id *)a[1]); }},
{"isl_pw_multi_aff_coalesce",'o',22,{{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_coalesce((isl_pw_multi_aff *)a[0]); }},
{"isl_pw_multi_aff_dim",'z',-1,{{'k',22},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_multi_aff_dim((isl_pw_multi_aff *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_pw_multi_aff_domain",'o',34,{{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_domain((isl_pw_multi_aff *)a[0]); }},
{"isl_pw_multi_aff_domain_map",'o',22,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_domain_map((isl_space *)a[0]); }},
{"isl_pw_multi_aff_drop_dims",'o',22,{{'t',22},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_drop_dims((isl_pw_multi_aff *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_pw_multi_aff_drop_unused_params",'o',22,{{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_drop_unused_params((isl_pw_multi_aff *)a[0]); }},
{"isl_pw_multi_aff_empty",'o',22,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_empty((isl_space *)a[0]); }},
{"isl_pw_multi_aff_find_dim_by_name",'i',-1,{{'k',22},{'d',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_multi_aff_find_dim_by_name((isl_pw_multi_aff *)a[0], (enum isl_dim_type)n[0], s[0]); return nullptr; }},
{"isl_pw_multi_aff_fix_si",'o',22,{{'t',22},{'d',0},{'p',0},{'i',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_fix_si((isl_pw_multi_aff *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_pw_multi_aff_flat_range_product",'o',22,{{'t',22},{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_flat_range_product((isl_pw_multi_aff *)a[0], (isl_pw_multi_aff *)a[1]); }},
{"isl_pw_multi_aff_from_domain",'o',22,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_from_domain((isl_set *)a[0]); }},
{"isl_pw_multi_aff_from_map",'o',22,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_from_map((isl_map *)a[0]); }},
{"isl_pw_multi_aff_from_multi_aff",'o',22,{{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_from_multi_aff((isl_multi_aff *)a[0]); }},
{"isl_pw_multi_aff_from_multi_pw_aff",'o',22,{{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_from_multi_pw_aff((isl_multi_pw_aff *)a[0]); }},
{"isl_pw_multi_aff_from_pw_aff",'o',22,{{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_from_pw_aff((isl_pw_aff *)a[0]); }},
{"isl_pw_multi_aff_from_set",'o',22,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_from_set((isl_set *)a[0]); }},
{"isl_pw_multi_aff_get_at",'o',20,{{'k',22},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_get_at((isl_pw_multi_aff *)a[0], n[0]); }},
{"isl_pw_multi_aff_get_dim_id",'o',9,{{'k',22},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_get_dim_id((isl_pw_multi_aff *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_pw_multi_aff_get_dim_name",'s',-1,{{'k',22},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return (void *)isl_pw_multi_aff_get_dim_name((isl_pw_multi_aff *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_pw_multi_aff_get_domain_space",'o',36,{{'k',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_get_domain_space((isl_pw_multi_aff *)a[0]); }},
{"isl_pw_multi_aff_get_pw_aff",'o',20,{{'k',22},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_get_pw_aff((isl_pw_multi_aff *)a[0], n[0]); }},
{"isl_pw_multi_aff_get_range_tuple_id",'o',9,{{'k',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_get_range_tuple_id((isl_pw_multi_aff *)a[0]); }},
{"isl_pw_multi_aff_get_space",'o',36,{{'k',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_get_space((isl_pw_multi_aff *)a[0]); }},
{"isl_pw_multi_aff_get_tuple_id",'o',9,{{'k',22},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_get_tuple_id((isl_pw_multi_aff *)a[0], (enum isl_dim_type)n[0]); }},
{"isl_pw_multi_aff_get_tuple_name",'s',-1,{{'k',22},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return (void *)isl_pw_multi_aff_get_tuple_name((isl_pw_multi_aff *)a[0], (enum isl_dim_type)n[0]); }},
{"isl_pw_multi_aff_gist",'o',22,{{'t',22},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_gist((isl_pw_multi_aff *)a[0], (isl_set *)a[1]); }},
{"isl_pw_multi_aff_gist_params",'o',22,{{'t',22},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_gist_params((isl_pw_multi_aff *)a[0], (isl_set *)a[1]); }},
{"isl_pw_multi_aff_has_range_tuple_id",'b',-1,{{'k',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_multi_aff_has_range_tuple_id((isl_pw_multi_aff *)a[0]); return nullptr; }},
{"isl_pw_multi_aff_has_tuple_id",'b',-1,{{'k',22},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_multi_aff_has_tuple_id((isl_pw_multi_aff *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_pw_multi_aff_has_tuple_name",'b',-1,{{'k',22},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_multi_aff_has_tuple_name((isl_pw_multi_aff *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_pw_multi_aff_identity",'o',22,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_identity((isl_space *)a[0]); }},
{"isl_pw_multi_aff_identity_on_domain_space",'o',22,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_identity_on_domain_space((isl_space *)a[0]); }},
{"isl_pw_multi_aff_insert_domain",'o',22,{{'t',22},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_insert_domain((isl_pw_multi_aff *)a[0], (isl_space *)a[1]); }},
{"isl_pw_multi_aff_intersect_domain",'o',22,{{'t',22},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_intersect_domain((isl_pw_multi_aff *)a[0], (isl_set *)a[1]); }},
{"isl_pw_multi_aff_intersect_domain_wrapped_domain",'o',22,{{'t',22},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_intersect_domain_wrapped_domain((isl_pw_multi_aff *)a[0], (isl_set *)a[1]); }},
{"isl_pw_multi_aff_intersect_domain_wrapped_range",'o',22,{{'t',22},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_intersect_domain_wrapped_range((isl_pw_multi_aff *)a[0], (isl_set *)a[1]); }},
{"isl_pw_multi_aff_intersect_params",'o',22,{{'t',22},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_intersect_params((isl_pw_multi_aff *)a[0], (isl_set *)a[1]); }},
{"isl_pw_multi_aff_involves_dims",'b',-1,{{'k',22},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_multi_aff_involves_dims((isl_pw_multi_aff *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); return nullptr; }},
{"isl_pw_multi_aff_involves_locals",'b',-1,{{'k',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_multi_aff_involves_locals((isl_pw_multi_aff *)a[0]); return nullptr; }},
{"isl_pw_multi_aff_involves_nan",'b',-1,{{'k',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_multi_aff_involves_nan((isl_pw_multi_aff *)a[0]); return nullptr; }},
{"isl_pw_multi_aff_involves_param_id",'b',-1,{{'k',22},{'k',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_multi_aff_involves_param_id((isl_pw_multi_aff *)a[0], (isl_id *)a[1]); return nullptr; }},
{"isl_pw_multi_aff_is_equal",'b',-1,{{'k',22},{'k',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_multi_aff_is_equal((isl_pw_multi_aff *)a[0], (isl_pw_multi_aff *)a[1]); return nullptr; }},
{"isl_pw_multi_aff_isa_multi_aff",'b',-1,{{'k',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_multi_aff_isa_multi_aff((isl_pw_multi_aff *)a[0]); return nullptr; }},
{"isl_pw_multi_aff_list_add",'o',23,{{'t',23},{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_list_add((isl_pw_multi_aff_list *)a[0], (isl_pw_multi_aff *)a[1]); }},
{"isl_pw_multi_aff_list_alloc",'o',23,{{'c',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_list_alloc(ctx, n[0]); }},
{"isl_pw_multi_aff_list_clear",'o',23,{{'t',23}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_list_clear((isl_pw_multi_aff_list *)a[0]); }},
{"isl_pw_multi_aff_list_concat",'o',23,{{'t',23},{'t',23}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_list_concat((isl_pw_multi_aff_list *)a[0], (isl_pw_multi_aff_list *)a[1]); }},
{"isl_pw_multi_aff_list_drop",'o',23,{{'t',23},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_list_drop((isl_pw_multi_aff_list *)a[0], n[0], n[1]); }},
{"isl_pw_multi_aff_list_from_pw_multi_aff",'o',23,{{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_list_from_pw_multi_aff((isl_pw_multi_aff *)a[0]); }},
{"isl_pw_multi_aff_list_get_at",'o',22,{{'k',23},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_list_get_at((isl_pw_multi_aff_list *)a[0], n[0]); }},
{"isl_pw_multi_aff_list_get_pw_multi_aff",'o',22,{{'k',23},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_list_get_pw_multi_aff((isl_pw_multi_aff_list *)a[0], n[0]); }},
{"isl_pw_multi_aff_list_insert",'o',23,{{'t',23},{'p',0},{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_list_insert((isl_pw_multi_aff_list *)a[0], n[0], (isl_pw_multi_aff *)a[1]); }},
{"isl_pw_multi_aff_list_n_pw_multi_aff",'z',-1,{{'k',23}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_multi_aff_list_n_pw_multi_aff((isl_pw_multi_aff_list *)a[0]); return nullptr; }},
{"isl_pw_multi_aff_list_reverse",'o',23,{{'t',23}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_list_reverse((isl_pw_multi_aff_list *)a[0]); }},
{"isl_pw_multi_aff_list_set_pw_multi_aff",'o',23,{{'t',23},{'p',0},{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_list_set_pw_multi_aff((isl_pw_multi_aff_list *)a[0], n[0], (isl_pw_multi_aff *)a[1]); }},
{"isl_pw_multi_aff_list_size",'z',-1,{{'k',23}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_multi_aff_list_size((isl_pw_multi_aff_list *)a[0]); return nullptr; }},
{"isl_pw_multi_aff_list_swap",'o',23,{{'t',23},{'p',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_list_swap((isl_pw_multi_aff_list *)a[0], n[0], n[1]); }},
{"isl_pw_multi_aff_max_multi_val",'o',18,{{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_max_multi_val((isl_pw_multi_aff *)a[0]); }},
{"isl_pw_multi_aff_min_multi_val",'o',18,{{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_min_multi_val((isl_pw_multi_aff *)a[0]); }},
{"isl_pw_multi_aff_multi_val_on_domain",'o',22,{{'t',34},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_multi_val_on_domain((isl_set *)a[0], (isl_multi_val *)a[1]); }},
{"isl_pw_multi_aff_n_piece",'z',-1,{{'k',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_multi_aff_n_piece((isl_pw_multi_aff *)a[0]); return nullptr; }},
{"isl_pw_multi_aff_neg",'o',22,{{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_neg((isl_pw_multi_aff *)a[0]); }},
{"isl_pw_multi_aff_plain_is_equal",'b',-1,{{'k',22},{'k',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_multi_aff_plain_is_equal((isl_pw_multi_aff *)a[0], (isl_pw_multi_aff *)a[1]); return nullptr; }},
{"isl_pw_multi_aff_product",'o',22,{{'t',22},{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_product((isl_pw_multi_aff *)a[0], (isl_pw_multi_aff *)a[1]); }},
{"isl_pw_multi_aff_project_domain_on_params",'o',22,{{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_project_domain_on_params((isl_pw_multi_aff *)a[0]); }},
{"isl_pw_multi_aff_project_out_map",'o',22,{{'t',36},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_project_out_map((isl_space *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_pw_multi_aff_pullback_multi_aff",'o',22,{{'t',22},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_pullback_multi_aff((isl_pw_multi_aff *)a[0], (isl_multi_aff *)a[1]); }},
{"isl_pw_multi_aff_pullback_pw_multi_aff",'o',22,{{'t',22},{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_pullback_pw_multi_aff((isl_pw_multi_aff *)a[0], (isl_pw_multi_aff *)a[1]); }},
{"isl_pw_multi_aff_range_factor_domain",'o',22,{{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_range_factor_domain((isl_pw_multi_aff *)a[0]); }},
{"isl_pw_multi_aff_range_factor_range",'o',22,{{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_range_factor_range((isl_pw_multi_aff *)a[0]); }},
{"isl_pw_multi_aff_range_map",'o',22,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_range_map((isl_space *)a[0]); }},
{"isl_pw_multi_aff_range_product",'o',22,{{'t',22},{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_range_product((isl_pw_multi_aff *)a[0], (isl_pw_multi_aff *)a[1]); }},
{"isl_pw_multi_aff_reset_tuple_id",'o',22,{{'t',22},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_reset_tuple_id((isl_pw_multi_aff *)a[0], (enum isl_dim_type)n[0]); }},
{"isl_pw_multi_aff_reset_user",'o',22,{{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_reset_user((isl_pw_multi_aff *)a[0]); }},
{"isl_pw_multi_aff_scale_down_multi_val",'o',22,{{'t',22},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_scale_down_multi_val((isl_pw_multi_aff *)a[0], (isl_multi_val *)a[1]); }},
{"isl_pw_multi_aff_scale_down_val",'o',22,{{'t',22},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_scale_down_val((isl_pw_multi_aff *)a[0], (isl_val *)a[1]); }},
{"isl_pw_multi_aff_scale_multi_val",'o',22,{{'t',22},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_scale_multi_val((isl_pw_multi_aff *)a[0], (isl_multi_val *)a[1]); }},
{"isl_pw_multi_aff_scale_val",'o',22,{{'t',22},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_scale_val((isl_pw_multi_aff *)a[0], (isl_val *)a[1]); }},
{"isl_pw_multi_aff_set_dim_id",'o',22,{{'t',22},{'d',0},{'p',0},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_set_dim_id((isl_pw_multi_aff *)a[0], (enum isl_dim_type)n[0], n[1], (isl_id *)a[1]); }},
{"isl_pw_multi_aff_set_pw_aff",'o',22,{{'t',22},{'p',0},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_set_pw_aff((isl_pw_multi_aff *)a[0], n[0], (isl_pw_aff *)a[1]); }},
{"isl_pw_multi_aff_set_range_tuple_id",'o',22,{{'t',22},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_set_range_tuple_id((isl_pw_multi_aff *)a[0], (isl_id *)a[1]); }},
{"isl_pw_multi_aff_set_tuple_id",'o',22,{{'t',22},{'d',0},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_set_tuple_id((isl_pw_multi_aff *)a[0], (enum isl_dim_type)n[0], (isl_id *)a[1]); }},
{"isl_pw_multi_aff_sub",'o',22,{{'t',22},{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_sub((isl_pw_multi_aff *)a[0], (isl_pw_multi_aff *)a[1]); }},
{"isl_pw_multi_aff_subtract_domain",'o',22,{{'t',22},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_subtract_domain((isl_pw_multi_aff *)a[0], (isl_set *)a[1]); }},
{"isl_pw_multi_aff_to_list",'o',23,{{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_to_list((isl_pw_multi_aff *)a[0]); }},
{"isl_pw_multi_aff_to_multi_pw_aff",'o',16,{{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_to_multi_pw_aff((isl_pw_multi_aff *)a[0]); }},
{"isl_pw_multi_aff_to_union_pw_multi_aff",'o',45,{{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_to_union_pw_multi_aff((isl_pw_multi_aff *)a[0]); }},
{"isl_pw_multi_aff_union_add",'o',22,{{'t',22},{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_union_add((isl_pw_multi_aff *)a[0], (isl_pw_multi_aff *)a[1]); }},
{"isl_pw_multi_aff_union_lexmax",'o',22,{{'t',22},{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_union_lexmax((isl_pw_multi_aff *)a[0], (isl_pw_multi_aff *)a[1]); }},
{"isl_pw_multi_aff_union_lexmin",'o',22,{{'t',22},{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_union_lexmin((isl_pw_multi_aff *)a[0], (isl_pw_multi_aff *)a[1]); }},
{"isl_pw_multi_aff_zero",'o',22,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_multi_aff_zero((isl_space *)a[0]); }},
{"isl_pw_qpolynomial_add",'o',24,{{'t',24},{'t',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_add((isl_pw_qpolynomial *)a[0], (isl_pw_qpolynomial *)a[1]); }},
{"isl_pw_qpolynomial_add_dims",'o',24,{{'t',24},{'d',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_add_dims((isl_pw_qpolynomial *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_pw_qpolynomial_add_disjoint",'o',24,{{'t',24},{'t',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_add_disjoint((isl_pw_qpolynomial *)a[0], (isl_pw_qpolynomial *)a[1]); }},
{"isl_pw_qpolynomial_alloc",'o',24,{{'t',34},{'t',28}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_alloc((isl_set *)a[0], (isl_qpolynomial *)a[1]); }},
{"isl_pw_qpolynomial_as_qpolynomial",'o',28,{{'t',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_as_qpolynomial((isl_pw_qpolynomial *)a[0]); }},
{"isl_pw_qpolynomial_coalesce",'o',24,{{'t',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_coalesce((isl_pw_qpolynomial *)a[0]); }},
{"isl_pw_qpolynomial_dim",'z',-1,{{'k',24},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_qpolynomial_dim((isl_pw_qpolynomial *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_pw_qpolynomial_domain",'o',34,{{'t',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_domain((isl_pw_qpolynomial *)a[0]); }},
{"isl_pw_qpolynomial_drop_dims",'o',24,{{'t',24},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_drop_dims((isl_pw_qpolynomial *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_pw_qpolynomial_drop_unused_params",'o',24,{{'t',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_drop_unused_params((isl_pw_qpolynomial *)a[0]); }},
{"isl_pw_qpolynomial_eval",'o',51,{{'t',24},{'t',19}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_eval((isl_pw_qpolynomial *)a[0], (isl_point *)a[1]); }},
{"isl_pw_qpolynomial_find_dim_by_name",'i',-1,{{'k',24},{'d',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_qpolynomial_find_dim_by_name((isl_pw_qpolynomial *)a[0], (enum isl_dim_type)n[0], s[0]); return nullptr; }},
{"isl_pw_qpolynomial_fix_val",'o',24,{{'t',24},{'d',0},{'n',0},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fix_val((isl_pw_qpolynomial *)a[0], (enum isl_dim_type)n[0], n[1], (isl_val *)a[1]); }},
{"isl_pw_qpolynomial_fold_add",'o',25,{{'t',25},{'t',25}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_add((isl_pw_qpolynomial_fold *)a[0], (isl_pw_qpolynomial_fold *)a[1]); }},
{"isl_pw_qpolynomial_fold_add_disjoint",'o',25,{{'t',25},{'t',25}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_add_disjoint((isl_pw_qpolynomial_fold *)a[0], (isl_pw_qpolynomial_fold *)a[1]); }},
{"isl_pw_qpolynomial_fold_alloc",'o',25,{{'e',0},{'t',34},{'t',29}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_alloc((enum isl_fold)n[0], (isl_set *)a[0], (isl_qpolynomial_fold *)a[1]); }},
{"isl_pw_qpolynomial_fold_as_qpolynomial_fold",'o',29,{{'t',25}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_as_qpolynomial_fold((isl_pw_qpolynomial_fold *)a[0]); }},
{"isl_pw_qpolynomial_fold_coalesce",'o',25,{{'t',25}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_coalesce((isl_pw_qpolynomial_fold *)a[0]); }},
{"isl_pw_qpolynomial_fold_dim",'z',-1,{{'k',25},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_qpolynomial_fold_dim((isl_pw_qpolynomial_fold *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_pw_qpolynomial_fold_domain",'o',34,{{'t',25}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_domain((isl_pw_qpolynomial_fold *)a[0]); }},
{"isl_pw_qpolynomial_fold_drop_dims",'o',25,{{'t',25},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_drop_dims((isl_pw_qpolynomial_fold *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_pw_qpolynomial_fold_drop_unused_params",'o',25,{{'t',25}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_drop_unused_params((isl_pw_qpolynomial_fold *)a[0]); }},
{"isl_pw_qpolynomial_fold_eval",'o',51,{{'t',25},{'t',19}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_eval((isl_pw_qpolynomial_fold *)a[0], (isl_point *)a[1]); }},
{"isl_pw_qpolynomial_fold_find_dim_by_name",'i',-1,{{'k',25},{'d',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_qpolynomial_fold_find_dim_by_name((isl_pw_qpolynomial_fold *)a[0], (enum isl_dim_type)n[0], s[0]); return nullptr; }},
{"isl_pw_qpolynomial_fold_fix_val",'o',25,{{'t',25},{'d',0},{'n',0},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_fix_val((isl_pw_qpolynomial_fold *)a[0], (enum isl_dim_type)n[0], n[1], (isl_val *)a[1]); }},
{"isl_pw_qpolynomial_fold_fold",'o',25,{{'t',25},{'t',25}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_fold((isl_pw_qpolynomial_fold *)a[0], (isl_pw_qpolynomial_fold *)a[1]); }},
{"isl_pw_qpolynomial_fold_from_pw_qpolynomial",'o',25,{{'e',0},{'t',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_from_pw_qpolynomial((enum isl_fold)n[0], (isl_pw_qpolynomial *)a[0]); }},
{"isl_pw_qpolynomial_fold_from_range",'o',25,{{'t',25}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_from_range((isl_pw_qpolynomial_fold *)a[0]); }},
{"isl_pw_qpolynomial_fold_get_domain_space",'o',36,{{'k',25}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_get_domain_space((isl_pw_qpolynomial_fold *)a[0]); }},
{"isl_pw_qpolynomial_fold_get_space",'o',36,{{'k',25}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_get_space((isl_pw_qpolynomial_fold *)a[0]); }},
{"isl_pw_qpolynomial_fold_gist",'o',25,{{'t',25},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_gist((isl_pw_qpolynomial_fold *)a[0], (isl_set *)a[1]); }},
{"isl_pw_qpolynomial_fold_gist_params",'o',25,{{'t',25},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_gist_params((isl_pw_qpolynomial_fold *)a[0], (isl_set *)a[1]); }},
{"isl_pw_qpolynomial_fold_has_equal_space",'b',-1,{{'k',25},{'k',25}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_qpolynomial_fold_has_equal_space((isl_pw_qpolynomial_fold *)a[0], (isl_pw_qpolynomial_fold *)a[1]); return nullptr; }},
{"isl_pw_qpolynomial_fold_intersect_domain",'o',25,{{'t',25},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_intersect_domain((isl_pw_qpolynomial_fold *)a[0], (isl_set *)a[1]); }},
{"isl_pw_qpolynomial_fold_intersect_params",'o',25,{{'t',25},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_intersect_params((isl_pw_qpolynomial_fold *)a[0], (isl_set *)a[1]); }},
{"isl_pw_qpolynomial_fold_involves_nan",'b',-1,{{'k',25}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_qpolynomial_fold_involves_nan((isl_pw_qpolynomial_fold *)a[0]); return nullptr; }},
{"isl_pw_qpolynomial_fold_involves_param_id",'b',-1,{{'k',25},{'k',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_qpolynomial_fold_involves_param_id((isl_pw_qpolynomial_fold *)a[0], (isl_id *)a[1]); return nullptr; }},
{"isl_pw_qpolynomial_fold_is_zero",'b',-1,{{'k',25}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_qpolynomial_fold_is_zero((isl_pw_qpolynomial_fold *)a[0]); return nullptr; }},
{"isl_pw_qpolynomial_fold_isa_qpolynomial_fold",'b',-1,{{'k',25}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_qpolynomial_fold_isa_qpolynomial_fold((isl_pw_qpolynomial_fold *)a[0]); return nullptr; }},
{"isl_pw_qpolynomial_fold_list_add",'o',26,{{'t',26},{'t',25}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_list_add((isl_pw_qpolynomial_fold_list *)a[0], (isl_pw_qpolynomial_fold *)a[1]); }},
{"isl_pw_qpolynomial_fold_list_alloc",'o',26,{{'c',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_list_alloc(ctx, n[0]); }},
{"isl_pw_qpolynomial_fold_list_clear",'o',26,{{'t',26}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_list_clear((isl_pw_qpolynomial_fold_list *)a[0]); }},
{"isl_pw_qpolynomial_fold_list_concat",'o',26,{{'t',26},{'t',26}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_list_concat((isl_pw_qpolynomial_fold_list *)a[0], (isl_pw_qpolynomial_fold_list *)a[1]); }},
{"isl_pw_qpolynomial_fold_list_drop",'o',26,{{'t',26},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_list_drop((isl_pw_qpolynomial_fold_list *)a[0], n[0], n[1]); }},
{"isl_pw_qpolynomial_fold_list_from_pw_qpolynomial_fold",'o',26,{{'t',25}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_list_from_pw_qpolynomial_fold((isl_pw_qpolynomial_fold *)a[0]); }},
{"isl_pw_qpolynomial_fold_list_get_at",'o',25,{{'k',26},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_list_get_at((isl_pw_qpolynomial_fold_list *)a[0], n[0]); }},
{"isl_pw_qpolynomial_fold_list_get_pw_qpolynomial_fold",'o',25,{{'k',26},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_list_get_pw_qpolynomial_fold((isl_pw_qpolynomial_fold_list *)a[0], n[0]); }},
{"isl_pw_qpolynomial_fold_list_insert",'o',26,{{'t',26},{'p',0},{'t',25}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_list_insert((isl_pw_qpolynomial_fold_list *)a[0], n[0], (isl_pw_qpolynomial_fold *)a[1]); }},
{"isl_pw_qpolynomial_fold_list_n_pw_qpolynomial_fold",'z',-1,{{'k',26}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_qpolynomial_fold_list_n_pw_qpolynomial_fold((isl_pw_qpolynomial_fold_list *)a[0]); return nullptr; }},
{"isl_pw_qpolynomial_fold_list_reverse",'o',26,{{'t',26}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_list_reverse((isl_pw_qpolynomial_fold_list *)a[0]); }},
{"isl_pw_qpolynomial_fold_list_set_pw_qpolynomial_fold",'o',26,{{'t',26},{'p',0},{'t',25}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_list_set_pw_qpolynomial_fold((isl_pw_qpolynomial_fold_list *)a[0], n[0], (isl_pw_qpolynomial_fold *)a[1]); }},
{"isl_pw_qpolynomial_fold_list_size",'z',-1,{{'k',26}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_qpolynomial_fold_list_size((isl_pw_qpolynomial_fold_list *)a[0]); return nullptr; }},
{"isl_pw_qpolynomial_fold_list_swap",'o',26,{{'t',26},{'p',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_list_swap((isl_pw_qpolynomial_fold_list *)a[0], n[0], n[1]); }},
{"isl_pw_qpolynomial_fold_max",'o',51,{{'t',25}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_max((isl_pw_qpolynomial_fold *)a[0]); }},
{"isl_pw_qpolynomial_fold_min",'o',51,{{'t',25}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_min((isl_pw_qpolynomial_fold *)a[0]); }},
{"isl_pw_qpolynomial_fold_move_dims",'o',25,{{'t',25},{'d',0},{'p',0},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_move_dims((isl_pw_qpolynomial_fold *)a[0], (enum isl_dim_type)n[0], n[1], (enum isl_dim_type)n[2], n[3], n[4]); }},
{"isl_pw_qpolynomial_fold_n_piece",'z',-1,{{'k',25}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_qpolynomial_fold_n_piece((isl_pw_qpolynomial_fold *)a[0]); return nullptr; }},
{"isl_pw_qpolynomial_fold_plain_is_equal",'b',-1,{{'k',25},{'k',25}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_qpolynomial_fold_plain_is_equal((isl_pw_qpolynomial_fold *)a[0], (isl_pw_qpolynomial_fold *)a[1]); return nullptr; }},
{"isl_pw_qpolynomial_fold_project_domain_on_params",'o',25,{{'t',25}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_project_domain_on_params((isl_pw_qpolynomial_fold *)a[0]); }},
{"isl_pw_qpolynomial_fold_reset_space",'o',25,{{'t',25},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_reset_space((isl_pw_qpolynomial_fold *)a[0], (isl_space *)a[1]); }},
{"isl_pw_qpolynomial_fold_reset_user",'o',25,{{'t',25}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_reset_user((isl_pw_qpolynomial_fold *)a[0]); }},
{"isl_pw_qpolynomial_fold_scale_down_val",'o',25,{{'t',25},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_scale_down_val((isl_pw_qpolynomial_fold *)a[0], (isl_val *)a[1]); }},
{"isl_pw_qpolynomial_fold_scale_val",'o',25,{{'t',25},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_scale_val((isl_pw_qpolynomial_fold *)a[0], (isl_val *)a[1]); }},
{"isl_pw_qpolynomial_fold_set_dim_name",'o',25,{{'t',25},{'d',0},{'p',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_set_dim_name((isl_pw_qpolynomial_fold *)a[0], (enum isl_dim_type)n[0], n[1], s[0]); }},
{"isl_pw_qpolynomial_fold_subtract_domain",'o',25,{{'t',25},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_subtract_domain((isl_pw_qpolynomial_fold *)a[0], (isl_set *)a[1]); }},
{"isl_pw_qpolynomial_fold_to_list",'o',26,{{'t',25}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_to_list((isl_pw_qpolynomial_fold *)a[0]); }},
{"isl_pw_qpolynomial_fold_zero",'o',25,{{'t',36},{'e',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_fold_zero((isl_space *)a[0], (enum isl_fold)n[0]); }},
{"isl_pw_qpolynomial_from_pw_aff",'o',24,{{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_from_pw_aff((isl_pw_aff *)a[0]); }},
{"isl_pw_qpolynomial_from_qpolynomial",'o',24,{{'t',28}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_from_qpolynomial((isl_qpolynomial *)a[0]); }},
{"isl_pw_qpolynomial_from_range",'o',24,{{'t',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_from_range((isl_pw_qpolynomial *)a[0]); }},
{"isl_pw_qpolynomial_get_domain_space",'o',36,{{'k',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_get_domain_space((isl_pw_qpolynomial *)a[0]); }},
{"isl_pw_qpolynomial_get_space",'o',36,{{'k',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_get_space((isl_pw_qpolynomial *)a[0]); }},
{"isl_pw_qpolynomial_gist",'o',24,{{'t',24},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_gist((isl_pw_qpolynomial *)a[0], (isl_set *)a[1]); }},
{"isl_pw_qpolynomial_gist_params",'o',24,{{'t',24},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_gist_params((isl_pw_qpolynomial *)a[0], (isl_set *)a[1]); }},
{"isl_pw_qpolynomial_has_equal_space",'b',-1,{{'k',24},{'k',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_qpolynomial_has_equal_space((isl_pw_qpolynomial *)a[0], (isl_pw_qpolynomial *)a[1]); return nullptr; }},
{"isl_pw_qpolynomial_insert_dims",'o',24,{{'t',24},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_insert_dims((isl_pw_qpolynomial *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_pw_qpolynomial_intersect_domain",'o',24,{{'t',24},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_intersect_domain((isl_pw_qpolynomial *)a[0], (isl_set *)a[1]); }},
{"isl_pw_qpolynomial_intersect_params",'o',24,{{'t',24},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_intersect_params((isl_pw_qpolynomial *)a[0], (isl_set *)a[1]); }},
{"isl_pw_qpolynomial_involves_dims",'b',-1,{{'k',24},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_qpolynomial_involves_dims((isl_pw_qpolynomial *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); return nullptr; }},
{"isl_pw_qpolynomial_involves_nan",'b',-1,{{'k',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_qpolynomial_involves_nan((isl_pw_qpolynomial *)a[0]); return nullptr; }},
{"isl_pw_qpolynomial_involves_param_id",'b',-1,{{'k',24},{'k',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_qpolynomial_involves_param_id((isl_pw_qpolynomial *)a[0], (isl_id *)a[1]); return nullptr; }},
{"isl_pw_qpolynomial_is_zero",'b',-1,{{'k',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_qpolynomial_is_zero((isl_pw_qpolynomial *)a[0]); return nullptr; }},
{"isl_pw_qpolynomial_isa_qpolynomial",'b',-1,{{'k',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_qpolynomial_isa_qpolynomial((isl_pw_qpolynomial *)a[0]); return nullptr; }},
{"isl_pw_qpolynomial_list_add",'o',27,{{'t',27},{'t',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_list_add((isl_pw_qpolynomial_list *)a[0], (isl_pw_qpolynomial *)a[1]); }},
{"isl_pw_qpolynomial_list_alloc",'o',27,{{'c',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_list_alloc(ctx, n[0]); }},
{"isl_pw_qpolynomial_list_clear",'o',27,{{'t',27}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_list_clear((isl_pw_qpolynomial_list *)a[0]); }},
{"isl_pw_qpolynomial_list_concat",'o',27,{{'t',27},{'t',27}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_list_concat((isl_pw_qpolynomial_list *)a[0], (isl_pw_qpolynomial_list *)a[1]); }},
{"isl_pw_qpolynomial_list_drop",'o',27,{{'t',27},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_list_drop((isl_pw_qpolynomial_list *)a[0], n[0], n[1]); }},
{"isl_pw_qpolynomial_list_from_pw_qpolynomial",'o',27,{{'t',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_list_from_pw_qpolynomial((isl_pw_qpolynomial *)a[0]); }},
{"isl_pw_qpolynomial_list_get_at",'o',24,{{'k',27},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_list_get_at((isl_pw_qpolynomial_list *)a[0], n[0]); }},
{"isl_pw_qpolynomial_list_get_pw_qpolynomial",'o',24,{{'k',27},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_list_get_pw_qpolynomial((isl_pw_qpolynomial_list *)a[0], n[0]); }},
{"isl_pw_qpolynomial_list_insert",'o',27,{{'t',27},{'p',0},{'t',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_list_insert((isl_pw_qpolynomial_list *)a[0], n[0], (isl_pw_qpolynomial *)a[1]); }},
{"isl_pw_qpolynomial_list_n_pw_qpolynomial",'z',-1,{{'k',27}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_qpolynomial_list_n_pw_qpolynomial((isl_pw_qpolynomial_list *)a[0]); return nullptr; }},
{"isl_pw_qpolynomial_list_reverse",'o',27,{{'t',27}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_list_reverse((isl_pw_qpolynomial_list *)a[0]); }},
{"isl_pw_qpolynomial_list_set_pw_qpolynomial",'o',27,{{'t',27},{'p',0},{'t',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_list_set_pw_qpolynomial((isl_pw_qpolynomial_list *)a[0], n[0], (isl_pw_qpolynomial *)a[1]); }},
{"isl_pw_qpolynomial_list_size",'z',-1,{{'k',27}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_qpolynomial_list_size((isl_pw_qpolynomial_list *)a[0]); return nullptr; }},
{"isl_pw_qpolynomial_list_swap",'o',27,{{'t',27},{'p',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_list_swap((isl_pw_qpolynomial_list *)a[0], n[0], n[1]); }},
{"isl_pw_qpolynomial_max",'o',51,{{'t',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_max((isl_pw_qpolynomial *)a[0]); }},
{"isl_pw_qpolynomial_min",'o',51,{{'t',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_min((isl_pw_qpolynomial *)a[0]); }},
{"isl_pw_qpolynomial_move_dims",'o',24,{{'t',24},{'d',0},{'p',0},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_move_dims((isl_pw_qpolynomial *)a[0], (enum isl_dim_type)n[0], n[1], (enum isl_dim_type)n[2], n[3], n[4]); }},
{"isl_pw_qpolynomial_mul",'o',24,{{'t',24},{'t',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_mul((isl_pw_qpolynomial *)a[0], (isl_pw_qpolynomial *)a[1]); }},
{"isl_pw_qpolynomial_n_piece",'z',-1,{{'k',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_qpolynomial_n_piece((isl_pw_qpolynomial *)a[0]); return nullptr; }},
{"isl_pw_qpolynomial_neg",'o',24,{{'t',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_neg((isl_pw_qpolynomial *)a[0]); }},
{"isl_pw_qpolynomial_plain_is_equal",'b',-1,{{'k',24},{'k',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_pw_qpolynomial_plain_is_equal((isl_pw_qpolynomial *)a[0], (isl_pw_qpolynomial *)a[1]); return nullptr; }},
{"isl_pw_qpolynomial_pow",'o',24,{{'t',24},{'u',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_pow((isl_pw_qpolynomial *)a[0], n[0]); }},
{"isl_pw_qpolynomial_project_domain_on_params",'o',24,{{'t',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_project_domain_on_params((isl_pw_qpolynomial *)a[0]); }},
{"isl_pw_qpolynomial_reset_domain_space",'o',24,{{'t',24},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_reset_domain_space((isl_pw_qpolynomial *)a[0], (isl_space *)a[1]); }},
{"isl_pw_qpolynomial_reset_user",'o',24,{{'t',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_reset_user((isl_pw_qpolynomial *)a[0]); }},
{"isl_pw_qpolynomial_scale_down_val",'o',24,{{'t',24},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_scale_down_val((isl_pw_qpolynomial *)a[0], (isl_val *)a[1]); }},
{"isl_pw_qpolynomial_scale_val",'o',24,{{'t',24},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_scale_val((isl_pw_qpolynomial *)a[0], (isl_val *)a[1]); }},
{"isl_pw_qpolynomial_set_dim_name",'o',24,{{'t',24},{'d',0},{'p',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_set_dim_name((isl_pw_qpolynomial *)a[0], (enum isl_dim_type)n[0], n[1], s[0]); }},
{"isl_pw_qpolynomial_split_dims",'o',24,{{'t',24},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_split_dims((isl_pw_qpolynomial *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_pw_qpolynomial_split_periods",'o',24,{{'t',24},{'i',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_split_periods((isl_pw_qpolynomial *)a[0], n[0]); }},
{"isl_pw_qpolynomial_sub",'o',24,{{'t',24},{'t',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_sub((isl_pw_qpolynomial *)a[0], (isl_pw_qpolynomial *)a[1]); }},
{"isl_pw_qpolynomial_subtract_domain",'o',24,{{'t',24},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_subtract_domain((isl_pw_qpolynomial *)a[0], (isl_set *)a[1]); }},
{"isl_pw_qpolynomial_to_list",'o',27,{{'t',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_to_list((isl_pw_qpolynomial *)a[0]); }},
{"isl_pw_qpolynomial_to_polynomial",'o',24,{{'t',24},{'i',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_to_polynomial((isl_pw_qpolynomial *)a[0], n[0]); }},
{"isl_pw_qpolynomial_to_union_pw_qpolynomial",'o',47,{{'t',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_to_union_pw_qpolynomial((isl_pw_qpolynomial *)a[0]); }},
{"isl_pw_qpolynomial_zero",'o',24,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_pw_qpolynomial_zero((isl_space *)a[0]); }},
{"isl_qpolynomial_add",'o',28,{{'t',28},{'t',28}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_add((isl_qpolynomial *)a[0], (isl_qpolynomial *)a[1]); }},
{"isl_qpolynomial_add_dims",'o',28,{{'t',28},{'d',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_add_dims((isl_qpolynomial *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_qpolynomial_align_params",'o',28,{{'t',28},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_align_params((isl_qpolynomial *)a[0], (isl_space *)a[1]); }},
{"isl_qpolynomial_dim",'z',-1,{{'k',28},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_qpolynomial_dim((isl_qpolynomial *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_qpolynomial_drop_dims",'o',28,{{'t',28},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_drop_dims((isl_qpolynomial *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_qpolynomial_eval",'o',51,{{'t',28},{'t',19}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_eval((isl_qpolynomial *)a[0], (isl_point *)a[1]); }},
{"isl_qpolynomial_fold_alloc",'o',29,{{'e',0},{'t',28}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_fold_alloc((enum isl_fold)n[0], (isl_qpolynomial *)a[0]); }},
{"isl_qpolynomial_fold_empty",'o',29,{{'e',0},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_fold_empty((enum isl_fold)n[0], (isl_space *)a[0]); }},
{"isl_qpolynomial_fold_eval",'o',51,{{'t',29},{'t',19}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_fold_eval((isl_qpolynomial_fold *)a[0], (isl_point *)a[1]); }},
{"isl_qpolynomial_fold_fold",'o',29,{{'t',29},{'t',29}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_fold_fold((isl_qpolynomial_fold *)a[0], (isl_qpolynomial_fold *)a[1]); }},
{"isl_qpolynomial_fold_get_domain_space",'o',36,{{'k',29}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_fold_get_domain_space((isl_qpolynomial_fold *)a[0]); }},
{"isl_qpolynomial_fold_get_space",'o',36,{{'k',29}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_fold_get_space((isl_qpolynomial_fold *)a[0]); }},
{"isl_qpolynomial_fold_gist",'o',29,{{'t',29},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_fold_gist((isl_qpolynomial_fold *)a[0], (isl_set *)a[1]); }},
{"isl_qpolynomial_fold_gist_params",'o',29,{{'t',29},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_fold_gist_params((isl_qpolynomial_fold *)a[0], (isl_set *)a[1]); }},
{"isl_qpolynomial_fold_is_empty",'b',-1,{{'k',29}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_qpolynomial_fold_is_empty((isl_qpolynomial_fold *)a[0]); return nullptr; }},
{"isl_qpolynomial_fold_is_nan",'b',-1,{{'k',29}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_qpolynomial_fold_is_nan((isl_qpolynomial_fold *)a[0]); return nullptr; }},
{"isl_qpolynomial_fold_move_dims",'o',29,{{'t',29},{'d',0},{'p',0},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_fold_move_dims((isl_qpolynomial_fold *)a[0], (enum isl_dim_type)n[0], n[1], (enum isl_dim_type)n[2], n[3], n[4]); }},
{"isl_qpolynomial_fold_plain_is_equal",'b',-1,{{'k',29},{'k',29}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_qpolynomial_fold_plain_is_equal((isl_qpolynomial_fold *)a[0], (isl_qpolynomial_fold *)a[1]); return nullptr; }},
{"isl_qpolynomial_fold_scale_down_val",'o',29,{{'t',29},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_fold_scale_down_val((isl_qpolynomial_fold *)a[0], (isl_val *)a[1]); }},
{"isl_qpolynomial_fold_scale_val",'o',29,{{'t',29},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_fold_scale_val((isl_qpolynomial_fold *)a[0], (isl_val *)a[1]); }},
{"isl_qpolynomial_from_aff",'o',28,{{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_from_aff((isl_aff *)a[0]); }},
{"isl_qpolynomial_from_constraint",'o',28,{{'t',6},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_from_constraint((isl_constraint *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_qpolynomial_from_term",'o',28,{{'t',38}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_from_term((isl_term *)a[0]); }},
{"isl_qpolynomial_get_constant_val",'o',51,{{'k',28}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_get_constant_val((isl_qpolynomial *)a[0]); }},
{"isl_qpolynomial_get_domain_space",'o',36,{{'k',28}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_get_domain_space((isl_qpolynomial *)a[0]); }},
{"isl_qpolynomial_get_space",'o',36,{{'k',28}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_get_space((isl_qpolynomial *)a[0]); }},
{"isl_qpolynomial_gist",'o',28,{{'t',28},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_gist((isl_qpolynomial *)a[0], (isl_set *)a[1]); }},
{"isl_qpolynomial_gist_params",'o',28,{{'t',28},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_gist_params((isl_qpolynomial *)a[0], (isl_set *)a[1]); }},
{"isl_qpolynomial_homogenize",'o',28,{{'t',28}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_homogenize((isl_qpolynomial *)a[0]); }},
{"isl_qpolynomial_infty_on_domain",'o',28,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_infty_on_domain((isl_space *)a[0]); }},
{"isl_qpolynomial_insert_dims",'o',28,{{'t',28},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_insert_dims((isl_qpolynomial *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_qpolynomial_involves_dims",'b',-1,{{'k',28},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_qpolynomial_involves_dims((isl_qpolynomial *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); return nullptr; }},
{"isl_qpolynomial_is_infty",'b',-1,{{'k',28}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_qpolynomial_is_infty((isl_qpolynomial *)a[0]); return nullptr; }},
{"isl_qpolynomial_is_nan",'b',-1,{{'k',28}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_qpolynomial_is_nan((isl_qpolynomial *)a[0]); return nullptr; }},
{"isl_qpolynomial_is_neginfty",'b',-1,{{'k',28}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_qpolynomial_is_neginfty((isl_qpolynomial *)a[0]); return nullptr; }},
{"isl_qpolynomial_is_zero",'b',-1,{{'k',28}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_qpolynomial_is_zero((isl_qpolynomial *)a[0]); return nullptr; }},
{"isl_qpolynomial_list_add",'o',30,{{'t',30},{'t',28}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_list_add((isl_qpolynomial_list *)a[0], (isl_qpolynomial *)a[1]); }},
{"isl_qpolynomial_list_alloc",'o',30,{{'c',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_list_alloc(ctx, n[0]); }},
{"isl_qpolynomial_list_clear",'o',30,{{'t',30}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_list_clear((isl_qpolynomial_list *)a[0]); }},
{"isl_qpolynomial_list_concat",'o',30,{{'t',30},{'t',30}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_list_concat((isl_qpolynomial_list *)a[0], (isl_qpolynomial_list *)a[1]); }},
{"isl_qpolynomial_list_drop",'o',30,{{'t',30},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_list_drop((isl_qpolynomial_list *)a[0], n[0], n[1]); }},
{"isl_qpolynomial_list_from_qpolynomial",'o',30,{{'t',28}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_list_from_qpolynomial((isl_qpolynomial *)a[0]); }},
{"isl_qpolynomial_list_get_at",'o',28,{{'k',30},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_list_get_at((isl_qpolynomial_list *)a[0], n[0]); }},
{"isl_qpolynomial_list_get_qpolynomial",'o',28,{{'k',30},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_list_get_qpolynomial((isl_qpolynomial_list *)a[0], n[0]); }},
{"isl_qpolynomial_list_insert",'o',30,{{'t',30},{'p',0},{'t',28}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_list_insert((isl_qpolynomial_list *)a[0], n[0], (isl_qpolynomial *)a[1]); }},
{"isl_qpolynomial_list_n_qpolynomial",'z',-1,{{'k',30}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_qpolynomial_list_n_qpolynomial((isl_qpolynomial_list *)a[0]); return nullptr; }},
{"isl_qpolynomial_list_reverse",'o',30,{{'t',30}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_list_reverse((isl_qpolynomial_list *)a[0]); }},
{"isl_qpolynomial_list_set_qpolynomial",'o',30,{{'t',30},{'p',0},{'t',28}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_list_set_qpolynomial((isl_qpolynomial_list *)a[0], n[0], (isl_qpolynomial *)a[1]); }},
{"isl_qpolynomial_list_size",'z',-1,{{'k',30}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_qpolynomial_list_size((isl_qpolynomial_list *)a[0]); return nullptr; }},
{"isl_qpolynomial_list_swap",'o',30,{{'t',30},{'p',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_list_swap((isl_qpolynomial_list *)a[0], n[0], n[1]); }},
{"isl_qpolynomial_move_dims",'o',28,{{'t',28},{'d',0},{'p',0},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_move_dims((isl_qpolynomial *)a[0], (enum isl_dim_type)n[0], n[1], (enum isl_dim_type)n[2], n[3], n[4]); }},
{"isl_qpolynomial_mul",'o',28,{{'t',28},{'t',28}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_mul((isl_qpolynomial *)a[0], (isl_qpolynomial *)a[1]); }},
{"isl_qpolynomial_nan_on_domain",'o',28,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_nan_on_domain((isl_space *)a[0]); }},
{"isl_qpolynomial_neg",'o',28,{{'t',28}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_neg((isl_qpolynomial *)a[0]); }},
{"isl_qpolynomial_neginfty_on_domain",'o',28,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_neginfty_on_domain((isl_space *)a[0]); }},
{"isl_qpolynomial_one_on_domain",'o',28,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_one_on_domain((isl_space *)a[0]); }},
{"isl_qpolynomial_plain_is_equal",'b',-1,{{'k',28},{'k',28}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_qpolynomial_plain_is_equal((isl_qpolynomial *)a[0], (isl_qpolynomial *)a[1]); return nullptr; }},
{"isl_qpolynomial_pow",'o',28,{{'t',28},{'u',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_pow((isl_qpolynomial *)a[0], n[0]); }},
{"isl_qpolynomial_project_domain_on_params",'o',28,{{'t',28}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_project_domain_on_params((isl_qpolynomial *)a[0]); }},
{"isl_qpolynomial_scale_down_val",'o',28,{{'t',28},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_scale_down_val((isl_qpolynomial *)a[0], (isl_val *)a[1]); }},
{"isl_qpolynomial_scale_val",'o',28,{{'t',28},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_scale_val((isl_qpolynomial *)a[0], (isl_val *)a[1]); }},
{"isl_qpolynomial_set_dim_name",'o',28,{{'t',28},{'d',0},{'p',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_set_dim_name((isl_qpolynomial *)a[0], (enum isl_dim_type)n[0], n[1], s[0]); }},
{"isl_qpolynomial_sgn",'i',-1,{{'k',28}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_qpolynomial_sgn((isl_qpolynomial *)a[0]); return nullptr; }},
{"isl_qpolynomial_sub",'o',28,{{'t',28},{'t',28}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_sub((isl_qpolynomial *)a[0], (isl_qpolynomial *)a[1]); }},
{"isl_qpolynomial_to_list",'o',30,{{'t',28}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_to_list((isl_qpolynomial *)a[0]); }},
{"isl_qpolynomial_val_on_domain",'o',28,{{'t',36},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_val_on_domain((isl_space *)a[0], (isl_val *)a[1]); }},
{"isl_qpolynomial_var_on_domain",'o',28,{{'t',36},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_var_on_domain((isl_space *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_qpolynomial_zero_on_domain",'o',28,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_qpolynomial_zero_on_domain((isl_space *)a[0]); }},
{"isl_schedule_align_params",'o',31,{{'t',31},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_align_params((isl_schedule *)a[0], (isl_space *)a[1]); }},
{"isl_schedule_constraints_apply",'o',32,{{'t',32},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_constraints_apply((isl_schedule_constraints *)a[0], (isl_union_map *)a[1]); }},
{"isl_schedule_constraints_compute_schedule",'o',31,{{'t',32}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_constraints_compute_schedule((isl_schedule_constraints *)a[0]); }},
{"isl_schedule_constraints_get_coincidence",'o',41,{{'k',32}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_constraints_get_coincidence((isl_schedule_constraints *)a[0]); }},
{"isl_schedule_constraints_get_conditional_validity",'o',41,{{'k',32}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_constraints_get_conditional_validity((isl_schedule_constraints *)a[0]); }},
{"isl_schedule_constraints_get_context",'o',34,{{'k',32}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_constraints_get_context((isl_schedule_constraints *)a[0]); }},
{"isl_schedule_constraints_get_domain",'o',49,{{'k',32}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_constraints_get_domain((isl_schedule_constraints *)a[0]); }},
{"isl_schedule_constraints_get_proximity",'o',41,{{'k',32}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_constraints_get_proximity((isl_schedule_constraints *)a[0]); }},
{"isl_schedule_constraints_get_validity",'o',41,{{'k',32}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_constraints_get_validity((isl_schedule_constraints *)a[0]); }},
{"isl_schedule_constraints_on_domain",'o',32,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_constraints_on_domain((isl_union_set *)a[0]); }},
{"isl_schedule_constraints_set_coincidence",'o',32,{{'t',32},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_constraints_set_coincidence((isl_schedule_constraints *)a[0], (isl_union_map *)a[1]); }},
{"isl_schedule_constraints_set_context",'o',32,{{'t',32},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_constraints_set_context((isl_schedule_constraints *)a[0], (isl_set *)a[1]); }},
{"isl_schedule_constraints_set_proximity",'o',32,{{'t',32},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_constraints_set_proximity((isl_schedule_constraints *)a[0], (isl_union_map *)a[1]); }},
{"isl_schedule_constraints_set_validity",'o',32,{{'t',32},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_constraints_set_validity((isl_schedule_constraints *)a[0], (isl_union_map *)a[1]); }},
{"isl_schedule_empty",'o',31,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_empty((isl_space *)a[0]); }},
{"isl_schedule_expand",'o',31,{{'t',31},{'t',45},{'t',31}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_expand((isl_schedule *)a[0], (isl_union_pw_multi_aff *)a[1], (isl_schedule *)a[2]); }},
{"isl_schedule_from_domain",'o',31,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_from_domain((isl_union_set *)a[0]); }},
{"isl_schedule_get_domain",'o',49,{{'k',31}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_get_domain((isl_schedule *)a[0]); }},
{"isl_schedule_get_map",'o',41,{{'k',31}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_get_map((isl_schedule *)a[0]); }},
{"isl_schedule_get_root",'o',33,{{'k',31}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_get_root((isl_schedule *)a[0]); }},
{"isl_schedule_gist_domain_params",'o',31,{{'t',31},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_gist_domain_params((isl_schedule *)a[0], (isl_set *)a[1]); }},
{"isl_schedule_insert_context",'o',31,{{'t',31},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_insert_context((isl_schedule *)a[0], (isl_set *)a[1]); }},
{"isl_schedule_insert_guard",'o',31,{{'t',31},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_insert_guard((isl_schedule *)a[0], (isl_set *)a[1]); }},
{"isl_schedule_insert_partial_schedule",'o',31,{{'t',31},{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_insert_partial_schedule((isl_schedule *)a[0], (isl_multi_union_pw_aff *)a[1]); }},
{"isl_schedule_intersect_domain",'o',31,{{'t',31},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_intersect_domain((isl_schedule *)a[0], (isl_union_set *)a[1]); }},
{"isl_schedule_node_align_params",'o',33,{{'t',33},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_align_params((isl_schedule_node *)a[0], (isl_space *)a[1]); }},
{"isl_schedule_node_ancestor",'o',33,{{'t',33},{'i',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_ancestor((isl_schedule_node *)a[0], n[0]); }},
{"isl_schedule_node_band_get_ast_build_options",'o',49,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_band_get_ast_build_options((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_band_get_ast_isolate_option",'o',34,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_band_get_ast_isolate_option((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_band_get_partial_schedule",'o',17,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_band_get_partial_schedule((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_band_get_partial_schedule_union_map",'o',41,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_band_get_partial_schedule_union_map((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_band_get_permutable",'b',-1,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_schedule_node_band_get_permutable((isl_schedule_node *)a[0]); return nullptr; }},
{"isl_schedule_node_band_get_space",'o',36,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_band_get_space((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_band_member_get_coincident",'b',-1,{{'k',33},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_schedule_node_band_member_get_coincident((isl_schedule_node *)a[0], n[0]); return nullptr; }},
{"isl_schedule_node_band_member_set_ast_loop_type",'o',33,{{'t',33},{'p',0},{'e',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_band_member_set_ast_loop_type((isl_schedule_node *)a[0], n[0], (enum isl_ast_loop_type)n[1]); }},
{"isl_schedule_node_band_member_set_coincident",'o',33,{{'t',33},{'p',0},{'i',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_band_member_set_coincident((isl_schedule_node *)a[0], n[0], n[1]); }},
{"isl_schedule_node_band_mod",'o',33,{{'t',33},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_band_mod((isl_schedule_node *)a[0], (isl_multi_val *)a[1]); }},
{"isl_schedule_node_band_n_member",'z',-1,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_schedule_node_band_n_member((isl_schedule_node *)a[0]); return nullptr; }},
{"isl_schedule_node_band_scale",'o',33,{{'t',33},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_band_scale((isl_schedule_node *)a[0], (isl_multi_val *)a[1]); }},
{"isl_schedule_node_band_scale_down",'o',33,{{'t',33},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_band_scale_down((isl_schedule_node *)a[0], (isl_multi_val *)a[1]); }},
{"isl_schedule_node_band_set_ast_build_options",'o',33,{{'t',33},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_band_set_ast_build_options((isl_schedule_node *)a[0], (isl_union_set *)a[1]); }},
{"isl_schedule_node_band_set_permutable",'o',33,{{'t',33},{'i',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_band_set_permutable((isl_schedule_node *)a[0], n[0]); }},
{"isl_schedule_node_band_shift",'o',33,{{'t',33},{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_band_shift((isl_schedule_node *)a[0], (isl_multi_union_pw_aff *)a[1]); }},
{"isl_schedule_node_band_sink",'o',33,{{'t',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_band_sink((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_band_split",'o',33,{{'t',33},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_band_split((isl_schedule_node *)a[0], n[0]); }},
{"isl_schedule_node_band_tile",'o',33,{{'t',33},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_band_tile((isl_schedule_node *)a[0], (isl_multi_val *)a[1]); }},
{"isl_schedule_node_child",'o',33,{{'t',33},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_child((isl_schedule_node *)a[0], n[0]); }},
{"isl_schedule_node_context_get_context",'o',34,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_context_get_context((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_cut",'o',33,{{'t',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_cut((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_delete",'o',33,{{'t',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_delete((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_domain_get_domain",'o',49,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_domain_get_domain((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_expansion_get_contraction",'o',45,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_expansion_get_contraction((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_expansion_get_expansion",'o',41,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_expansion_get_expansion((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_extension_get_extension",'o',41,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_extension_get_extension((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_filter_get_filter",'o',49,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_filter_get_filter((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_from_domain",'o',33,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_from_domain((isl_union_set *)a[0]); }},
{"isl_schedule_node_from_extension",'o',33,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_from_extension((isl_union_map *)a[0]); }},
{"isl_schedule_node_get_child",'o',33,{{'k',33},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_get_child((isl_schedule_node *)a[0], n[0]); }},
{"isl_schedule_node_get_child_position",'z',-1,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_schedule_node_get_child_position((isl_schedule_node *)a[0]); return nullptr; }},
{"isl_schedule_node_get_domain",'o',49,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_get_domain((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_get_prefix_schedule_relation",'o',41,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_get_prefix_schedule_relation((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_get_prefix_schedule_union_map",'o',41,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_get_prefix_schedule_union_map((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_get_schedule",'o',31,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_get_schedule((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_get_schedule_depth",'z',-1,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_schedule_node_get_schedule_depth((isl_schedule_node *)a[0]); return nullptr; }},
{"isl_schedule_node_get_shared_ancestor",'o',33,{{'k',33},{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_get_shared_ancestor((isl_schedule_node *)a[0], (isl_schedule_node *)a[1]); }},
{"isl_schedule_node_get_subtree_contraction",'o',45,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_get_subtree_contraction((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_get_subtree_expansion",'o',41,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_get_subtree_expansion((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_get_subtree_schedule_union_map",'o',41,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_get_subtree_schedule_union_map((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_get_tree_depth",'z',-1,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_schedule_node_get_tree_depth((isl_schedule_node *)a[0]); return nullptr; }},
{"isl_schedule_node_get_universe_domain",'o',49,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_get_universe_domain((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_graft_after",'o',33,{{'t',33},{'t',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_graft_after((isl_schedule_node *)a[0], (isl_schedule_node *)a[1]); }},
{"isl_schedule_node_graft_before",'o',33,{{'t',33},{'t',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_graft_before((isl_schedule_node *)a[0], (isl_schedule_node *)a[1]); }},
{"isl_schedule_node_grandchild",'o',33,{{'t',33},{'p',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_grandchild((isl_schedule_node *)a[0], n[0], n[1]); }},
{"isl_schedule_node_grandparent",'o',33,{{'t',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_grandparent((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_group",'o',33,{{'t',33},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_group((isl_schedule_node *)a[0], (isl_id *)a[1]); }},
{"isl_schedule_node_guard_get_guard",'o',34,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_guard_get_guard((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_has_children",'b',-1,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_schedule_node_has_children((isl_schedule_node *)a[0]); return nullptr; }},
{"isl_schedule_node_has_next_sibling",'b',-1,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_schedule_node_has_next_sibling((isl_schedule_node *)a[0]); return nullptr; }},
{"isl_schedule_node_has_parent",'b',-1,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_schedule_node_has_parent((isl_schedule_node *)a[0]); return nullptr; }},
{"isl_schedule_node_has_previous_sibling",'b',-1,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_schedule_node_has_previous_sibling((isl_schedule_node *)a[0]); return nullptr; }},
{"isl_schedule_node_insert_context",'o',33,{{'t',33},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_insert_context((isl_schedule_node *)a[0], (isl_set *)a[1]); }},
{"isl_schedule_node_insert_filter",'o',33,{{'t',33},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_insert_filter((isl_schedule_node *)a[0], (isl_union_set *)a[1]); }},
{"isl_schedule_node_insert_guard",'o',33,{{'t',33},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_insert_guard((isl_schedule_node *)a[0], (isl_set *)a[1]); }},
{"isl_schedule_node_insert_mark",'o',33,{{'t',33},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_insert_mark((isl_schedule_node *)a[0], (isl_id *)a[1]); }},
{"isl_schedule_node_insert_partial_schedule",'o',33,{{'t',33},{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_insert_partial_schedule((isl_schedule_node *)a[0], (isl_multi_union_pw_aff *)a[1]); }},
{"isl_schedule_node_insert_sequence",'o',33,{{'t',33},{'t',50}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_insert_sequence((isl_schedule_node *)a[0], (isl_union_set_list *)a[1]); }},
{"isl_schedule_node_insert_set",'o',33,{{'t',33},{'t',50}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_insert_set((isl_schedule_node *)a[0], (isl_union_set_list *)a[1]); }},
{"isl_schedule_node_is_equal",'b',-1,{{'k',33},{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_schedule_node_is_equal((isl_schedule_node *)a[0], (isl_schedule_node *)a[1]); return nullptr; }},
{"isl_schedule_node_is_subtree_anchored",'b',-1,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_schedule_node_is_subtree_anchored((isl_schedule_node *)a[0]); return nullptr; }},
{"isl_schedule_node_mark_get_id",'o',9,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_mark_get_id((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_n_children",'z',-1,{{'k',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_schedule_node_n_children((isl_schedule_node *)a[0]); return nullptr; }},
{"isl_schedule_node_next_sibling",'o',33,{{'t',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_next_sibling((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_order_after",'o',33,{{'t',33},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_order_after((isl_schedule_node *)a[0], (isl_union_set *)a[1]); }},
{"isl_schedule_node_order_before",'o',33,{{'t',33},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_order_before((isl_schedule_node *)a[0], (isl_union_set *)a[1]); }},
{"isl_schedule_node_parent",'o',33,{{'t',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_parent((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_previous_sibling",'o',33,{{'t',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_previous_sibling((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_reset_user",'o',33,{{'t',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_reset_user((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_root",'o',33,{{'t',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_root((isl_schedule_node *)a[0]); }},
{"isl_schedule_node_sequence_splice_child",'o',33,{{'t',33},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_sequence_splice_child((isl_schedule_node *)a[0], n[0]); }},
{"isl_schedule_node_sequence_splice_children",'o',33,{{'t',33}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_node_sequence_splice_children((isl_schedule_node *)a[0]); }},
{"isl_schedule_plain_is_equal",'b',-1,{{'k',31},{'k',31}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_schedule_plain_is_equal((isl_schedule *)a[0], (isl_schedule *)a[1]); return nullptr; }},
{"isl_schedule_pullback_union_pw_multi_aff",'o',31,{{'t',31},{'t',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_pullback_union_pw_multi_aff((isl_schedule *)a[0], (isl_union_pw_multi_aff *)a[1]); }},
{"isl_schedule_reset_user",'o',31,{{'t',31}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_reset_user((isl_schedule *)a[0]); }},
{"isl_schedule_sequence",'o',31,{{'t',31},{'t',31}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_sequence((isl_schedule *)a[0], (isl_schedule *)a[1]); }},
{"isl_schedule_set",'o',31,{{'t',31},{'t',31}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_schedule_set((isl_schedule *)a[0], (isl_schedule *)a[1]); }},
{"isl_set_add_constraint",'o',34,{{'t',34},{'t',6}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_add_constraint((isl_set *)a[0], (isl_constraint *)a[1]); }},
{"isl_set_add_dims",'o',34,{{'t',34},{'d',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_add_dims((isl_set *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_set_affine_hull",'o',4,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_affine_hull((isl_set *)a[0]); }},
{"isl_set_align_divs",'o',34,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_align_divs((isl_set *)a[0]); }},
{"isl_set_align_params",'o',34,{{'t',34},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_align_params((isl_set *)a[0], (isl_space *)a[1]); }},
{"isl_set_apply",'o',34,{{'t',34},{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_apply((isl_set *)a[0], (isl_map *)a[1]); }},
{"isl_set_as_pw_multi_aff",'o',22,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_as_pw_multi_aff((isl_set *)a[0]); }},
{"isl_set_bind",'o',34,{{'t',34},{'t',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_bind((isl_set *)a[0], (isl_multi_id *)a[1]); }},
{"isl_set_bounded_simple_hull",'o',4,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_bounded_simple_hull((isl_set *)a[0]); }},
{"isl_set_box_from_points",'o',34,{{'t',19},{'t',19}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_box_from_points((isl_point *)a[0], (isl_point *)a[1]); }},
{"isl_set_coalesce",'o',34,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_coalesce((isl_set *)a[0]); }},
{"isl_set_coefficients",'o',4,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_coefficients((isl_set *)a[0]); }},
{"isl_set_complement",'o',34,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_complement((isl_set *)a[0]); }},
{"isl_set_compute_divs",'o',34,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_compute_divs((isl_set *)a[0]); }},
{"isl_set_convex_hull",'o',4,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_convex_hull((isl_set *)a[0]); }},
{"isl_set_count_val",'o',51,{{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_count_val((isl_set *)a[0]); }},
{"isl_set_detect_equalities",'o',34,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_detect_equalities((isl_set *)a[0]); }},
{"isl_set_dim",'z',-1,{{'k',34},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_dim((isl_set *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_set_dim_has_any_lower_bound",'b',-1,{{'k',34},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_dim_has_any_lower_bound((isl_set *)a[0], (enum isl_dim_type)n[0], n[1]); return nullptr; }},
{"isl_set_dim_has_any_upper_bound",'b',-1,{{'k',34},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_dim_has_any_upper_bound((isl_set *)a[0], (enum isl_dim_type)n[0], n[1]); return nullptr; }},
{"isl_set_dim_has_lower_bound",'b',-1,{{'k',34},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_dim_has_lower_bound((isl_set *)a[0], (enum isl_dim_type)n[0], n[1]); return nullptr; }},
{"isl_set_dim_has_upper_bound",'b',-1,{{'k',34},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_dim_has_upper_bound((isl_set *)a[0], (enum isl_dim_type)n[0], n[1]); return nullptr; }},
{"isl_set_dim_is_bounded",'b',-1,{{'k',34},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_dim_is_bounded((isl_set *)a[0], (enum isl_dim_type)n[0], n[1]); return nullptr; }},
{"isl_set_dim_max",'o',20,{{'t',34},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_dim_max((isl_set *)a[0], n[0]); }},
{"isl_set_dim_max_val",'o',51,{{'t',34},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_dim_max_val((isl_set *)a[0], n[0]); }},
{"isl_set_dim_min",'o',20,{{'t',34},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_dim_min((isl_set *)a[0], n[0]); }},
{"isl_set_dim_min_val",'o',51,{{'t',34},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_dim_min_val((isl_set *)a[0], n[0]); }},
{"isl_set_drop_constraints_involving_dims",'o',34,{{'t',34},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_drop_constraints_involving_dims((isl_set *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_set_drop_constraints_not_involving_dims",'o',34,{{'t',34},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_drop_constraints_not_involving_dims((isl_set *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_set_drop_unused_params",'o',34,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_drop_unused_params((isl_set *)a[0]); }},
{"isl_set_eliminate",'o',34,{{'t',34},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_eliminate((isl_set *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_set_eliminate_dims",'o',34,{{'t',34},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_eliminate_dims((isl_set *)a[0], n[0], n[1]); }},
{"isl_set_empty",'o',34,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_empty((isl_space *)a[0]); }},
{"isl_set_equate",'o',34,{{'t',34},{'d',0},{'p',0},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_equate((isl_set *)a[0], (enum isl_dim_type)n[0], n[1], (enum isl_dim_type)n[2], n[3]); }},
{"isl_set_find_dim_by_id",'i',-1,{{'k',34},{'d',0},{'k',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_find_dim_by_id((isl_set *)a[0], (enum isl_dim_type)n[0], (isl_id *)a[1]); return nullptr; }},
{"isl_set_find_dim_by_name",'i',-1,{{'k',34},{'d',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_find_dim_by_name((isl_set *)a[0], (enum isl_dim_type)n[0], s[0]); return nullptr; }},
{"isl_set_fix_dim_si",'o',34,{{'t',34},{'p',0},{'i',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_fix_dim_si((isl_set *)a[0], n[0], n[1]); }},
{"isl_set_fix_si",'o',34,{{'t',34},{'d',0},{'p',0},{'i',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_fix_si((isl_set *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_set_fix_val",'o',34,{{'t',34},{'d',0},{'p',0},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_fix_val((isl_set *)a[0], (enum isl_dim_type)n[0], n[1], (isl_val *)a[1]); }},
{"isl_set_flat_product",'o',34,{{'t',34},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_flat_product((isl_set *)a[0], (isl_set *)a[1]); }},
{"isl_set_flatten",'o',34,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_flatten((isl_set *)a[0]); }},
{"isl_set_flatten_map",'o',12,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_flatten_map((isl_set *)a[0]); }},
{"isl_set_follows_at",'i',-1,{{'k',34},{'k',34},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_follows_at((isl_set *)a[0], (isl_set *)a[1], n[0]); return nullptr; }},
{"isl_set_from_basic_set",'o',34,{{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_from_basic_set((isl_basic_set *)a[0]); }},
{"isl_set_from_multi_aff",'o',34,{{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_from_multi_aff((isl_multi_aff *)a[0]); }},
{"isl_set_from_multi_pw_aff",'o',34,{{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_from_multi_pw_aff((isl_multi_pw_aff *)a[0]); }},
{"isl_set_from_params",'o',34,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_from_params((isl_set *)a[0]); }},
{"isl_set_from_point",'o',34,{{'t',19}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_from_point((isl_point *)a[0]); }},
{"isl_set_from_pw_aff",'o',34,{{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_from_pw_aff((isl_pw_aff *)a[0]); }},
{"isl_set_from_pw_multi_aff",'o',34,{{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_from_pw_multi_aff((isl_pw_multi_aff *)a[0]); }},
{"isl_set_from_union_set",'o',34,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_from_union_set((isl_union_set *)a[0]); }},
{"isl_set_get_basic_set_list",'o',5,{{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_get_basic_set_list((isl_set *)a[0]); }},
{"isl_set_get_dim_id",'o',9,{{'k',34},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_get_dim_id((isl_set *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_set_get_dim_name",'s',-1,{{'k',34},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return (void *)isl_set_get_dim_name((isl_set *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_set_get_lattice_tile",'o',8,{{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_get_lattice_tile((isl_set *)a[0]); }},
{"isl_set_get_plain_multi_val_if_fixed",'o',18,{{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_get_plain_multi_val_if_fixed((isl_set *)a[0]); }},
{"isl_set_get_simple_fixed_box_hull",'o',8,{{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_get_simple_fixed_box_hull((isl_set *)a[0]); }},
{"isl_set_get_space",'o',36,{{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_get_space((isl_set *)a[0]); }},
{"isl_set_get_stride",'o',51,{{'k',34},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_get_stride((isl_set *)a[0], n[0]); }},
{"isl_set_get_stride_info",'o',37,{{'k',34},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_get_stride_info((isl_set *)a[0], n[0]); }},
{"isl_set_get_tuple_id",'o',9,{{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_get_tuple_id((isl_set *)a[0]); }},
{"isl_set_get_tuple_name",'s',-1,{{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return (void *)isl_set_get_tuple_name((isl_set *)a[0]); }},
{"isl_set_gist",'o',34,{{'t',34},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_gist((isl_set *)a[0], (isl_set *)a[1]); }},
{"isl_set_gist_basic_set",'o',34,{{'t',34},{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_gist_basic_set((isl_set *)a[0], (isl_basic_set *)a[1]); }},
{"isl_set_gist_params",'o',34,{{'t',34},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_gist_params((isl_set *)a[0], (isl_set *)a[1]); }},
{"isl_set_has_dim_id",'b',-1,{{'k',34},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_has_dim_id((isl_set *)a[0], (enum isl_dim_type)n[0], n[1]); return nullptr; }},
{"isl_set_has_dim_name",'b',-1,{{'k',34},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_has_dim_name((isl_set *)a[0], (enum isl_dim_type)n[0], n[1]); return nullptr; }},
{"isl_set_has_equal_space",'b',-1,{{'k',34},{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_has_equal_space((isl_set *)a[0], (isl_set *)a[1]); return nullptr; }},
{"isl_set_has_tuple_id",'b',-1,{{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_has_tuple_id((isl_set *)a[0]); return nullptr; }},
{"isl_set_has_tuple_name",'b',-1,{{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_has_tuple_name((isl_set *)a[0]); return nullptr; }},
{"isl_set_identity",'o',12,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_identity((isl_set *)a[0]); }},
{"isl_set_indicator_function",'o',20,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_indicator_function((isl_set *)a[0]); }},
{"isl_set_insert_dims",'o',34,{{'t',34},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_insert_dims((isl_set *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_set_insert_domain",'o',12,{{'t',34},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_insert_domain((isl_set *)a[0], (isl_space *)a[1]); }},
{"isl_set_intersect",'o',34,{{'t',34},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_intersect((isl_set *)a[0], (isl_set *)a[1]); }},
{"isl_set_intersect_factor_domain",'o',34,{{'t',34},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_intersect_factor_domain((isl_set *)a[0], (isl_set *)a[1]); }},
{"isl_set_intersect_factor_range",'o',34,{{'t',34},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_intersect_factor_range((isl_set *)a[0], (isl_set *)a[1]); }},
{"isl_set_intersect_params",'o',34,{{'t',34},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_intersect_params((isl_set *)a[0], (isl_set *)a[1]); }},
{"isl_set_involves_dims",'b',-1,{{'k',34},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_involves_dims((isl_set *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); return nullptr; }},
{"isl_set_involves_locals",'b',-1,{{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_involves_locals((isl_set *)a[0]); return nullptr; }},
{"isl_set_is_bounded",'b',-1,{{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_is_bounded((isl_set *)a[0]); return nullptr; }},
{"isl_set_is_box",'b',-1,{{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_is_box((isl_set *)a[0]); return nullptr; }},
{"isl_set_is_disjoint",'b',-1,{{'k',34},{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_is_disjoint((isl_set *)a[0], (isl_set *)a[1]); return nullptr; }},
{"isl_set_is_empty",'b',-1,{{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_is_empty((isl_set *)a[0]); return nullptr; }},
{"isl_set_is_equal",'b',-1,{{'k',34},{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_is_equal((isl_set *)a[0], (isl_set *)a[1]); return nullptr; }},
{"isl_set_is_params",'b',-1,{{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_is_params((isl_set *)a[0]); return nullptr; }},
{"isl_set_is_singleton",'b',-1,{{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_is_singleton((isl_set *)a[0]); return nullptr; }},
{"isl_set_is_strict_subset",'b',-1,{{'k',34},{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_is_strict_subset((isl_set *)a[0], (isl_set *)a[1]); return nullptr; }},
{"isl_set_is_subset",'b',-1,{{'k',34},{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_is_subset((isl_set *)a[0], (isl_set *)a[1]); return nullptr; }},
{"isl_set_is_wrapping",'b',-1,{{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_is_wrapping((isl_set *)a[0]); return nullptr; }},
{"isl_set_lex_ge_set",'o',12,{{'t',34},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_lex_ge_set((isl_set *)a[0], (isl_set *)a[1]); }},
{"isl_set_lex_gt_set",'o',12,{{'t',34},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_lex_gt_set((isl_set *)a[0], (isl_set *)a[1]); }},
{"isl_set_lex_le_set",'o',12,{{'t',34},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_lex_le_set((isl_set *)a[0], (isl_set *)a[1]); }},
{"isl_set_lex_lt_set",'o',12,{{'t',34},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_lex_lt_set((isl_set *)a[0], (isl_set *)a[1]); }},
{"isl_set_lexmax",'o',34,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_lexmax((isl_set *)a[0]); }},
{"isl_set_lexmax_pw_multi_aff",'o',22,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_lexmax_pw_multi_aff((isl_set *)a[0]); }},
{"isl_set_lexmin",'o',34,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_lexmin((isl_set *)a[0]); }},
{"isl_set_lexmin_pw_multi_aff",'o',22,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_lexmin_pw_multi_aff((isl_set *)a[0]); }},
{"isl_set_lift",'o',34,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_lift((isl_set *)a[0]); }},
{"isl_set_list_add",'o',35,{{'t',35},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_list_add((isl_set_list *)a[0], (isl_set *)a[1]); }},
{"isl_set_list_alloc",'o',35,{{'c',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_list_alloc(ctx, n[0]); }},
{"isl_set_list_clear",'o',35,{{'t',35}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_list_clear((isl_set_list *)a[0]); }},
{"isl_set_list_concat",'o',35,{{'t',35},{'t',35}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_list_concat((isl_set_list *)a[0], (isl_set_list *)a[1]); }},
{"isl_set_list_drop",'o',35,{{'t',35},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_list_drop((isl_set_list *)a[0], n[0], n[1]); }},
{"isl_set_list_from_set",'o',35,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_list_from_set((isl_set *)a[0]); }},
{"isl_set_list_get_at",'o',34,{{'k',35},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_list_get_at((isl_set_list *)a[0], n[0]); }},
{"isl_set_list_get_set",'o',34,{{'k',35},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_list_get_set((isl_set_list *)a[0], n[0]); }},
{"isl_set_list_insert",'o',35,{{'t',35},{'p',0},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_list_insert((isl_set_list *)a[0], n[0], (isl_set *)a[1]); }},
{"isl_set_list_n_set",'z',-1,{{'k',35}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_list_n_set((isl_set_list *)a[0]); return nullptr; }},
{"isl_set_list_reverse",'o',35,{{'t',35}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_list_reverse((isl_set_list *)a[0]); }},
{"isl_set_list_set_set",'o',35,{{'t',35},{'p',0},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_list_set_set((isl_set_list *)a[0], n[0], (isl_set *)a[1]); }},
{"isl_set_list_size",'z',-1,{{'k',35}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_list_size((isl_set_list *)a[0]); return nullptr; }},
{"isl_set_list_swap",'o',35,{{'t',35},{'p',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_list_swap((isl_set_list *)a[0], n[0], n[1]); }},
{"isl_set_list_union",'o',34,{{'t',35}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_list_union((isl_set_list *)a[0]); }},
{"isl_set_lower_bound_multi_pw_aff",'o',34,{{'t',34},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_lower_bound_multi_pw_aff((isl_set *)a[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_set_lower_bound_multi_val",'o',34,{{'t',34},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_lower_bound_multi_val((isl_set *)a[0], (isl_multi_val *)a[1]); }},
{"isl_set_lower_bound_si",'o',34,{{'t',34},{'d',0},{'p',0},{'i',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_lower_bound_si((isl_set *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_set_lower_bound_val",'o',34,{{'t',34},{'d',0},{'p',0},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_lower_bound_val((isl_set *)a[0], (enum isl_dim_type)n[0], n[1], (isl_val *)a[1]); }},
{"isl_set_make_disjoint",'o',34,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_make_disjoint((isl_set *)a[0]); }},
{"isl_set_max_multi_pw_aff",'o',16,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_max_multi_pw_aff((isl_set *)a[0]); }},
{"isl_set_max_val",'o',51,{{'k',34},{'k',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_max_val((isl_set *)a[0], (isl_aff *)a[1]); }},
{"isl_set_min_multi_pw_aff",'o',16,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_min_multi_pw_aff((isl_set *)a[0]); }},
{"isl_set_min_val",'o',51,{{'k',34},{'k',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_min_val((isl_set *)a[0], (isl_aff *)a[1]); }},
{"isl_set_move_dims",'o',34,{{'t',34},{'d',0},{'p',0},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_move_dims((isl_set *)a[0], (enum isl_dim_type)n[0], n[1], (enum isl_dim_type)n[2], n[3], n[4]); }},
{"isl_set_n_basic_set",'z',-1,{{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_n_basic_set((isl_set *)a[0]); return nullptr; }},
{"isl_set_n_dim",'z',-1,{{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_n_dim((isl_set *)a[0]); return nullptr; }},
{"isl_set_n_param",'z',-1,{{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_n_param((isl_set *)a[0]); return nullptr; }},
{"isl_set_nat_universe",'o',34,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_nat_universe((isl_space *)a[0]); }},
{"isl_set_neg",'o',34,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_neg((isl_set *)a[0]); }},
{"isl_set_param_pw_aff_on_domain_id",'o',20,{{'t',34},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_param_pw_aff_on_domain_id((isl_set *)a[0], (isl_id *)a[1]); }},
{"isl_set_params",'o',34,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_params((isl_set *)a[0]); }},
{"isl_set_plain_cmp",'i',-1,{{'k',34},{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_plain_cmp((isl_set *)a[0], (isl_set *)a[1]); return nullptr; }},
{"isl_set_plain_get_val_if_fixed",'o',51,{{'k',34},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_plain_get_val_if_fixed((isl_set *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_set_plain_is_disjoint",'b',-1,{{'k',34},{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_plain_is_disjoint((isl_set *)a[0], (isl_set *)a[1]); return nullptr; }},
{"isl_set_plain_is_empty",'b',-1,{{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_plain_is_empty((isl_set *)a[0]); return nullptr; }},
{"isl_set_plain_is_equal",'b',-1,{{'k',34},{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_plain_is_equal((isl_set *)a[0], (isl_set *)a[1]); return nullptr; }},
{"isl_set_plain_is_universe",'b',-1,{{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_plain_is_universe((isl_set *)a[0]); return nullptr; }},
{"isl_set_plain_unshifted_simple_hull",'o',4,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_plain_unshifted_simple_hull((isl_set *)a[0]); }},
{"isl_set_polyhedral_hull",'o',4,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_polyhedral_hull((isl_set *)a[0]); }},
{"isl_set_preimage_multi_aff",'o',34,{{'t',34},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_preimage_multi_aff((isl_set *)a[0], (isl_multi_aff *)a[1]); }},
{"isl_set_preimage_multi_pw_aff",'o',34,{{'t',34},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_preimage_multi_pw_aff((isl_set *)a[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_set_preimage_pw_multi_aff",'o',34,{{'t',34},{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_preimage_pw_multi_aff((isl_set *)a[0], (isl_pw_multi_aff *)a[1]); }},
{"isl_set_product",'o',34,{{'t',34},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_product((isl_set *)a[0], (isl_set *)a[1]); }},
{"isl_set_project_onto_map",'o',12,{{'t',34},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_project_onto_map((isl_set *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_set_project_out",'o',34,{{'t',34},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_project_out((isl_set *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_set_project_out_all_params",'o',34,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_project_out_all_params((isl_set *)a[0]); }},
{"isl_set_project_out_param_id",'o',34,{{'t',34},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_project_out_param_id((isl_set *)a[0], (isl_id *)a[1]); }},
{"isl_set_project_out_param_id_list",'o',34,{{'t',34},{'t',10}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_project_out_param_id_list((isl_set *)a[0], (isl_id_list *)a[1]); }},
{"isl_set_pw_aff_on_domain_val",'o',20,{{'t',34},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_pw_aff_on_domain_val((isl_set *)a[0], (isl_val *)a[1]); }},
{"isl_set_pw_multi_aff_on_domain_multi_val",'o',22,{{'t',34},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_pw_multi_aff_on_domain_multi_val((isl_set *)a[0], (isl_multi_val *)a[1]); }},
{"isl_set_remove_dims",'o',34,{{'t',34},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_remove_dims((isl_set *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_set_remove_divs",'o',34,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_remove_divs((isl_set *)a[0]); }},
{"isl_set_remove_divs_involving_dims",'o',34,{{'t',34},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_remove_divs_involving_dims((isl_set *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_set_remove_redundancies",'o',34,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_remove_redundancies((isl_set *)a[0]); }},
{"isl_set_remove_unknown_divs",'o',34,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_remove_unknown_divs((isl_set *)a[0]); }},
{"isl_set_reset_space",'o',34,{{'t',34},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_reset_space((isl_set *)a[0], (isl_space *)a[1]); }},
{"isl_set_reset_tuple_id",'o',34,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_reset_tuple_id((isl_set *)a[0]); }},
{"isl_set_reset_user",'o',34,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_reset_user((isl_set *)a[0]); }},
{"isl_set_sample",'o',4,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_sample((isl_set *)a[0]); }},
{"isl_set_sample_point",'o',19,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_sample_point((isl_set *)a[0]); }},
{"isl_set_set_dim_id",'o',34,{{'t',34},{'d',0},{'p',0},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_set_dim_id((isl_set *)a[0], (enum isl_dim_type)n[0], n[1], (isl_id *)a[1]); }},
{"isl_set_set_dim_name",'o',34,{{'t',34},{'d',0},{'p',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_set_dim_name((isl_set *)a[0], (enum isl_dim_type)n[0], n[1], s[0]); }},
{"isl_set_set_tuple_id",'o',34,{{'t',34},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_set_tuple_id((isl_set *)a[0], (isl_id *)a[1]); }},
{"isl_set_set_tuple_name",'o',34,{{'t',34},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_set_tuple_name((isl_set *)a[0], s[0]); }},
{"isl_set_simple_hull",'o',4,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_simple_hull((isl_set *)a[0]); }},
{"isl_set_solutions",'o',4,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_solutions((isl_set *)a[0]); }},
{"isl_set_split_dims",'o',34,{{'t',34},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_split_dims((isl_set *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_set_subtract",'o',34,{{'t',34},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_subtract((isl_set *)a[0], (isl_set *)a[1]); }},
{"isl_set_sum",'o',34,{{'t',34},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_sum((isl_set *)a[0], (isl_set *)a[1]); }},
{"isl_set_to_list",'o',35,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_to_list((isl_set *)a[0]); }},
{"isl_set_to_union_set",'o',49,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_to_union_set((isl_set *)a[0]); }},
{"isl_set_translation",'o',12,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_translation((isl_set *)a[0]); }},
{"isl_set_tuple_dim",'z',-1,{{'k',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_set_tuple_dim((isl_set *)a[0]); return nullptr; }},
{"isl_set_unbind_params",'o',34,{{'t',34},{'t',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_unbind_params((isl_set *)a[0], (isl_multi_id *)a[1]); }},
{"isl_set_unbind_params_insert_domain",'o',12,{{'t',34},{'t',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_unbind_params_insert_domain((isl_set *)a[0], (isl_multi_id *)a[1]); }},
{"isl_set_union",'o',34,{{'t',34},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_union((isl_set *)a[0], (isl_set *)a[1]); }},
{"isl_set_universe",'o',34,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_universe((isl_space *)a[0]); }},
{"isl_set_unshifted_simple_hull",'o',4,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_unshifted_simple_hull((isl_set *)a[0]); }},
{"isl_set_unshifted_simple_hull_from_set_list",'o',4,{{'t',34},{'t',35}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_unshifted_simple_hull_from_set_list((isl_set *)a[0], (isl_set_list *)a[1]); }},
{"isl_set_unwrap",'o',12,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_unwrap((isl_set *)a[0]); }},
{"isl_set_upper_bound_multi_pw_aff",'o',34,{{'t',34},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_upper_bound_multi_pw_aff((isl_set *)a[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_set_upper_bound_multi_val",'o',34,{{'t',34},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_upper_bound_multi_val((isl_set *)a[0], (isl_multi_val *)a[1]); }},
{"isl_set_upper_bound_si",'o',34,{{'t',34},{'d',0},{'p',0},{'i',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_upper_bound_si((isl_set *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_set_upper_bound_val",'o',34,{{'t',34},{'d',0},{'p',0},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_upper_bound_val((isl_set *)a[0], (enum isl_dim_type)n[0], n[1], (isl_val *)a[1]); }},
{"isl_set_wrapped_domain_map",'o',12,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_set_wrapped_domain_map((isl_set *)a[0]); }},
{"isl_space_add_dims",'o',36,{{'t',36},{'d',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_add_dims((isl_space *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_space_add_named_tuple_id_ui",'o',36,{{'t',36},{'t',9},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_add_named_tuple_id_ui((isl_space *)a[0], (isl_id *)a[1], n[0]); }},
{"isl_space_add_param_id",'o',36,{{'t',36},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_add_param_id((isl_space *)a[0], (isl_id *)a[1]); }},
{"isl_space_add_unnamed_tuple_ui",'o',36,{{'t',36},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_add_unnamed_tuple_ui((isl_space *)a[0], n[0]); }},
{"isl_space_align_params",'o',36,{{'t',36},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_align_params((isl_space *)a[0], (isl_space *)a[1]); }},
{"isl_space_alloc",'o',36,{{'c',0},{'u',0},{'n',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_alloc(ctx, n[0], n[1], n[2]); }},
{"isl_space_can_curry",'b',-1,{{'k',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_space_can_curry((isl_space *)a[0]); return nullptr; }},
{"isl_space_can_range_curry",'b',-1,{{'k',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_space_can_range_curry((isl_space *)a[0]); return nullptr; }},
{"isl_space_can_uncurry",'b',-1,{{'k',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_space_can_uncurry((isl_space *)a[0]); return nullptr; }},
{"isl_space_can_zip",'b',-1,{{'k',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_space_can_zip((isl_space *)a[0]); return nullptr; }},
{"isl_space_curry",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_curry((isl_space *)a[0]); }},
{"isl_space_dim",'z',-1,{{'k',36},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_space_dim((isl_space *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_space_domain",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_domain((isl_space *)a[0]); }},
{"isl_space_domain_factor_domain",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_domain_factor_domain((isl_space *)a[0]); }},
{"isl_space_domain_factor_range",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_domain_factor_range((isl_space *)a[0]); }},
{"isl_space_domain_is_wrapping",'b',-1,{{'k',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_space_domain_is_wrapping((isl_space *)a[0]); return nullptr; }},
{"isl_space_domain_map",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_domain_map((isl_space *)a[0]); }},
{"isl_space_domain_map_multi_aff",'o',14,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_domain_map_multi_aff((isl_space *)a[0]); }},
{"isl_space_domain_map_pw_multi_aff",'o',22,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_domain_map_pw_multi_aff((isl_space *)a[0]); }},
{"isl_space_domain_product",'o',36,{{'t',36},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_domain_product((isl_space *)a[0], (isl_space *)a[1]); }},
{"isl_space_domain_wrapped_domain",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_domain_wrapped_domain((isl_space *)a[0]); }},
{"isl_space_domain_wrapped_range",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_domain_wrapped_range((isl_space *)a[0]); }},
{"isl_space_drop_all_params",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_drop_all_params((isl_space *)a[0]); }},
{"isl_space_drop_dims",'o',36,{{'t',36},{'d',0},{'p',0},{'u',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_drop_dims((isl_space *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_space_drop_inputs",'o',36,{{'t',36},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_drop_inputs((isl_space *)a[0], n[0], n[1]); }},
{"isl_space_drop_outputs",'o',36,{{'t',36},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_drop_outputs((isl_space *)a[0], n[0], n[1]); }},
{"isl_space_extend",'o',36,{{'t',36},{'u',0},{'n',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_extend((isl_space *)a[0], n[0], n[1], n[2]); }},
{"isl_space_factor_domain",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_factor_domain((isl_space *)a[0]); }},
{"isl_space_factor_range",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_factor_range((isl_space *)a[0]); }},
{"isl_space_find_dim_by_id",'i',-1,{{'k',36},{'d',0},{'k',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_space_find_dim_by_id((isl_space *)a[0], (enum isl_dim_type)n[0], (isl_id *)a[1]); return nullptr; }},
{"isl_space_find_dim_by_name",'i',-1,{{'k',36},{'d',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_space_find_dim_by_name((isl_space *)a[0], (enum isl_dim_type)n[0], s[0]); return nullptr; }},
{"isl_space_flatten_domain",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_flatten_domain((isl_space *)a[0]); }},
{"isl_space_flatten_range",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_flatten_range((isl_space *)a[0]); }},
{"isl_space_from_domain",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_from_domain((isl_space *)a[0]); }},
{"isl_space_from_range",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_from_range((isl_space *)a[0]); }},
{"isl_space_get_dim_id",'o',9,{{'k',36},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_get_dim_id((isl_space *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_space_get_dim_name",'s',-1,{{'k',36},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return (void *)isl_space_get_dim_name((isl_space *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_space_get_domain_tuple_id",'o',9,{{'k',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_get_domain_tuple_id((isl_space *)a[0]); }},
{"isl_space_get_range_tuple_id",'o',9,{{'k',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_get_range_tuple_id((isl_space *)a[0]); }},
{"isl_space_get_tuple_id",'o',9,{{'k',36},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_get_tuple_id((isl_space *)a[0], (enum isl_dim_type)n[0]); }},
{"isl_space_get_tuple_name",'s',-1,{{'k',36},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return (void *)isl_space_get_tuple_name((isl_space *)a[0], (enum isl_dim_type)n[0]); }},
{"isl_space_has_dim_id",'b',-1,{{'k',36},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_space_has_dim_id((isl_space *)a[0], (enum isl_dim_type)n[0], n[1]); return nullptr; }},
{"isl_space_has_dim_name",'b',-1,{{'k',36},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_space_has_dim_name((isl_space *)a[0], (enum isl_dim_type)n[0], n[1]); return nullptr; }},
{"isl_space_has_domain_tuple_id",'b',-1,{{'k',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_space_has_domain_tuple_id((isl_space *)a[0]); return nullptr; }},
{"isl_space_has_equal_params",'b',-1,{{'k',36},{'k',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_space_has_equal_params((isl_space *)a[0], (isl_space *)a[1]); return nullptr; }},
{"isl_space_has_equal_tuples",'b',-1,{{'k',36},{'k',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_space_has_equal_tuples((isl_space *)a[0], (isl_space *)a[1]); return nullptr; }},
{"isl_space_has_range_tuple_id",'b',-1,{{'k',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_space_has_range_tuple_id((isl_space *)a[0]); return nullptr; }},
{"isl_space_has_tuple_id",'b',-1,{{'k',36},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_space_has_tuple_id((isl_space *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_space_has_tuple_name",'b',-1,{{'k',36},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_space_has_tuple_name((isl_space *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_space_identity_pw_multi_aff_on_domain",'o',22,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_identity_pw_multi_aff_on_domain((isl_space *)a[0]); }},
{"isl_space_insert_dims",'o',36,{{'t',36},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_insert_dims((isl_space *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_space_is_domain",'b',-1,{{'k',36},{'k',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_space_is_domain((isl_space *)a[0], (isl_space *)a[1]); return nullptr; }},
{"isl_space_is_equal",'b',-1,{{'k',36},{'k',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_space_is_equal((isl_space *)a[0], (isl_space *)a[1]); return nullptr; }},
{"isl_space_is_map",'b',-1,{{'k',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_space_is_map((isl_space *)a[0]); return nullptr; }},
{"isl_space_is_params",'b',-1,{{'k',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_space_is_params((isl_space *)a[0]); return nullptr; }},
{"isl_space_is_product",'b',-1,{{'k',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_space_is_product((isl_space *)a[0]); return nullptr; }},
{"isl_space_is_range",'b',-1,{{'k',36},{'k',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_space_is_range((isl_space *)a[0], (isl_space *)a[1]); return nullptr; }},
{"isl_space_is_set",'b',-1,{{'k',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_space_is_set((isl_space *)a[0]); return nullptr; }},
{"isl_space_is_wrapping",'b',-1,{{'k',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_space_is_wrapping((isl_space *)a[0]); return nullptr; }},
{"isl_space_join",'o',36,{{'t',36},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_join((isl_space *)a[0], (isl_space *)a[1]); }},
{"isl_space_map_from_domain_and_range",'o',36,{{'t',36},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_map_from_domain_and_range((isl_space *)a[0], (isl_space *)a[1]); }},
{"isl_space_map_from_set",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_map_from_set((isl_space *)a[0]); }},
{"isl_space_match",'b',-1,{{'k',36},{'d',0},{'k',36},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_space_match((isl_space *)a[0], (enum isl_dim_type)n[0], (isl_space *)a[1], (enum isl_dim_type)n[1]); return nullptr; }},
{"isl_space_move_dims",'o',36,{{'t',36},{'d',0},{'p',0},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_move_dims((isl_space *)a[0], (enum isl_dim_type)n[0], n[1], (enum isl_dim_type)n[2], n[3], n[4]); }},
{"isl_space_multi_aff",'o',14,{{'t',36},{'t',1}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_multi_aff((isl_space *)a[0], (isl_aff_list *)a[1]); }},
{"isl_space_multi_aff_on_domain_multi_val",'o',14,{{'t',36},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_multi_aff_on_domain_multi_val((isl_space *)a[0], (isl_multi_val *)a[1]); }},
{"isl_space_multi_id",'o',15,{{'t',36},{'t',10}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_multi_id((isl_space *)a[0], (isl_id_list *)a[1]); }},
{"isl_space_multi_pw_aff",'o',16,{{'t',36},{'t',21}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_multi_pw_aff((isl_space *)a[0], (isl_pw_aff_list *)a[1]); }},
{"isl_space_multi_union_pw_aff",'o',17,{{'t',36},{'t',44}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_multi_union_pw_aff((isl_space *)a[0], (isl_union_pw_aff_list *)a[1]); }},
{"isl_space_multi_val",'o',18,{{'t',36},{'t',52}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_multi_val((isl_space *)a[0], (isl_val_list *)a[1]); }},
{"isl_space_param_aff_on_domain_id",'o',0,{{'t',36},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_param_aff_on_domain_id((isl_space *)a[0], (isl_id *)a[1]); }},
{"isl_space_params",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_params((isl_space *)a[0]); }},
{"isl_space_params_alloc",'o',36,{{'c',0},{'u',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_params_alloc(ctx, n[0]); }},
{"isl_space_product",'o',36,{{'t',36},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_product((isl_space *)a[0], (isl_space *)a[1]); }},
{"isl_space_range",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_range((isl_space *)a[0]); }},
{"isl_space_range_curry",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_range_curry((isl_space *)a[0]); }},
{"isl_space_range_factor_domain",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_range_factor_domain((isl_space *)a[0]); }},
{"isl_space_range_factor_range",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_range_factor_range((isl_space *)a[0]); }},
{"isl_space_range_is_wrapping",'b',-1,{{'k',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_space_range_is_wrapping((isl_space *)a[0]); return nullptr; }},
{"isl_space_range_map",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_range_map((isl_space *)a[0]); }},
{"isl_space_range_map_multi_aff",'o',14,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_range_map_multi_aff((isl_space *)a[0]); }},
{"isl_space_range_map_pw_multi_aff",'o',22,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_range_map_pw_multi_aff((isl_space *)a[0]); }},
{"isl_space_range_product",'o',36,{{'t',36},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_range_product((isl_space *)a[0], (isl_space *)a[1]); }},
{"isl_space_range_reverse",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_range_reverse((isl_space *)a[0]); }},
{"isl_space_range_wrapped_domain",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_range_wrapped_domain((isl_space *)a[0]); }},
{"isl_space_range_wrapped_range",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_range_wrapped_range((isl_space *)a[0]); }},
{"isl_space_reset_tuple_id",'o',36,{{'t',36},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_reset_tuple_id((isl_space *)a[0], (enum isl_dim_type)n[0]); }},
{"isl_space_reset_user",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_reset_user((isl_space *)a[0]); }},
{"isl_space_reverse",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_reverse((isl_space *)a[0]); }},
{"isl_space_set_alloc",'o',36,{{'c',0},{'u',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_set_alloc(ctx, n[0], n[1]); }},
{"isl_space_set_dim_id",'o',36,{{'t',36},{'d',0},{'p',0},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_set_dim_id((isl_space *)a[0], (enum isl_dim_type)n[0], n[1], (isl_id *)a[1]); }},
{"isl_space_set_domain_tuple_id",'o',36,{{'t',36},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_set_domain_tuple_id((isl_space *)a[0], (isl_id *)a[1]); }},
{"isl_space_set_from_params",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_set_from_params((isl_space *)a[0]); }},
{"isl_space_set_range_tuple_id",'o',36,{{'t',36},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_set_range_tuple_id((isl_space *)a[0], (isl_id *)a[1]); }},
{"isl_space_set_tuple_id",'o',36,{{'t',36},{'d',0},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_set_tuple_id((isl_space *)a[0], (enum isl_dim_type)n[0], (isl_id *)a[1]); }},
{"isl_space_set_tuple_name",'o',36,{{'t',36},{'d',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_set_tuple_name((isl_space *)a[0], (enum isl_dim_type)n[0], s[0]); }},
{"isl_space_tuple_is_equal",'b',-1,{{'k',36},{'d',0},{'k',36},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_space_tuple_is_equal((isl_space *)a[0], (enum isl_dim_type)n[0], (isl_space *)a[1], (enum isl_dim_type)n[1]); return nullptr; }},
{"isl_space_uncurry",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_uncurry((isl_space *)a[0]); }},
{"isl_space_unit",'o',36,{{'c',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_unit(ctx); }},
{"isl_space_universe_map",'o',12,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_universe_map((isl_space *)a[0]); }},
{"isl_space_universe_set",'o',34,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_universe_set((isl_space *)a[0]); }},
{"isl_space_unwrap",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_unwrap((isl_space *)a[0]); }},
{"isl_space_wrap",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_wrap((isl_space *)a[0]); }},
{"isl_space_zero_aff_on_domain",'o',0,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_zero_aff_on_domain((isl_space *)a[0]); }},
{"isl_space_zero_multi_aff",'o',14,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_zero_multi_aff((isl_space *)a[0]); }},
{"isl_space_zero_multi_pw_aff",'o',16,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_zero_multi_pw_aff((isl_space *)a[0]); }},
{"isl_space_zero_multi_union_pw_aff",'o',17,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_zero_multi_union_pw_aff((isl_space *)a[0]); }},
{"isl_space_zero_multi_val",'o',18,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_zero_multi_val((isl_space *)a[0]); }},
{"isl_space_zip",'o',36,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_space_zip((isl_space *)a[0]); }},
{"isl_stride_info_get_offset",'o',0,{{'k',37}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_stride_info_get_offset((isl_stride_info *)a[0]); }},
{"isl_stride_info_get_stride",'o',51,{{'k',37}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_stride_info_get_stride((isl_stride_info *)a[0]); }},
{"isl_term_dim",'z',-1,{{'k',38},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_term_dim((isl_term *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_term_get_coefficient_val",'o',51,{{'k',38}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_term_get_coefficient_val((isl_term *)a[0]); }},
{"isl_term_get_div",'o',0,{{'k',38},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_term_get_div((isl_term *)a[0], n[0]); }},
{"isl_term_get_exp",'z',-1,{{'k',38},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_term_get_exp((isl_term *)a[0], (enum isl_dim_type)n[0], n[1]); return nullptr; }},
{"isl_union_access_info_compute_flow",'o',40,{{'t',39}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_access_info_compute_flow((isl_union_access_info *)a[0]); }},
{"isl_union_access_info_from_sink",'o',39,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_access_info_from_sink((isl_union_map *)a[0]); }},
{"isl_union_access_info_set_kill",'o',39,{{'t',39},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_access_info_set_kill((isl_union_access_info *)a[0], (isl_union_map *)a[1]); }},
{"isl_union_access_info_set_may_source",'o',39,{{'t',39},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_access_info_set_may_source((isl_union_access_info *)a[0], (isl_union_map *)a[1]); }},
{"isl_union_access_info_set_must_source",'o',39,{{'t',39},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_access_info_set_must_source((isl_union_access_info *)a[0], (isl_union_map *)a[1]); }},
{"isl_union_access_info_set_schedule",'o',39,{{'t',39},{'t',31}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_access_info_set_schedule((isl_union_access_info *)a[0], (isl_schedule *)a[1]); }},
{"isl_union_access_info_set_schedule_map",'o',39,{{'t',39},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_access_info_set_schedule_map((isl_union_access_info *)a[0], (isl_union_map *)a[1]); }},
{"isl_union_flow_get_full_may_dependence",'o',41,{{'k',40}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_flow_get_full_may_dependence((isl_union_flow *)a[0]); }},
{"isl_union_flow_get_full_must_dependence",'o',41,{{'k',40}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_flow_get_full_must_dependence((isl_union_flow *)a[0]); }},
{"isl_union_flow_get_may_dependence",'o',41,{{'k',40}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_flow_get_may_dependence((isl_union_flow *)a[0]); }},
{"isl_union_flow_get_may_no_source",'o',41,{{'k',40}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_flow_get_may_no_source((isl_union_flow *)a[0]); }},
{"isl_union_flow_get_must_dependence",'o',41,{{'k',40}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_flow_get_must_dependence((isl_union_flow *)a[0]); }},
{"isl_union_flow_get_must_no_source",'o',41,{{'k',40}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_flow_get_must_no_source((isl_union_flow *)a[0]); }},
{"isl_union_map_add_map",'o',41,{{'t',41},{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_add_map((isl_union_map *)a[0], (isl_map *)a[1]); }},
{"isl_union_map_affine_hull",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_affine_hull((isl_union_map *)a[0]); }},
{"isl_union_map_align_params",'o',41,{{'t',41},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_align_params((isl_union_map *)a[0], (isl_space *)a[1]); }},
{"isl_union_map_apply_domain",'o',41,{{'t',41},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_apply_domain((isl_union_map *)a[0], (isl_union_map *)a[1]); }},
{"isl_union_map_apply_range",'o',41,{{'t',41},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_apply_range((isl_union_map *)a[0], (isl_union_map *)a[1]); }},
{"isl_union_map_as_map",'o',12,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_as_map((isl_union_map *)a[0]); }},
{"isl_union_map_as_multi_union_pw_aff",'o',17,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_as_multi_union_pw_aff((isl_union_map *)a[0]); }},
{"isl_union_map_as_union_pw_multi_aff",'o',45,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_as_union_pw_multi_aff((isl_union_map *)a[0]); }},
{"isl_union_map_bind_range",'o',49,{{'t',41},{'t',15}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_bind_range((isl_union_map *)a[0], (isl_multi_id *)a[1]); }},
{"isl_union_map_coalesce",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_coalesce((isl_union_map *)a[0]); }},
{"isl_union_map_compute_divs",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_compute_divs((isl_union_map *)a[0]); }},
{"isl_union_map_contains",'b',-1,{{'k',41},{'k',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_map_contains((isl_union_map *)a[0], (isl_space *)a[1]); return nullptr; }},
{"isl_union_map_curry",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_curry((isl_union_map *)a[0]); }},
{"isl_union_map_deltas",'o',49,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_deltas((isl_union_map *)a[0]); }},
{"isl_union_map_deltas_map",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_deltas_map((isl_union_map *)a[0]); }},
{"isl_union_map_detect_equalities",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_detect_equalities((isl_union_map *)a[0]); }},
{"isl_union_map_dim",'z',-1,{{'k',41},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_map_dim((isl_union_map *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_union_map_domain",'o',49,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_domain((isl_union_map *)a[0]); }},
{"isl_union_map_domain_factor_domain",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_domain_factor_domain((isl_union_map *)a[0]); }},
{"isl_union_map_domain_factor_range",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_domain_factor_range((isl_union_map *)a[0]); }},
{"isl_union_map_domain_map",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_domain_map((isl_union_map *)a[0]); }},
{"isl_union_map_domain_map_union_pw_multi_aff",'o',45,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_domain_map_union_pw_multi_aff((isl_union_map *)a[0]); }},
{"isl_union_map_domain_product",'o',41,{{'t',41},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_domain_product((isl_union_map *)a[0], (isl_union_map *)a[1]); }},
{"isl_union_map_empty",'o',41,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_empty((isl_space *)a[0]); }},
{"isl_union_map_empty_ctx",'o',41,{{'c',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_empty_ctx(ctx); }},
{"isl_union_map_empty_space",'o',41,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_empty_space((isl_space *)a[0]); }},
{"isl_union_map_eq_at_multi_union_pw_aff",'o',41,{{'t',41},{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_eq_at_multi_union_pw_aff((isl_union_map *)a[0], (isl_multi_union_pw_aff *)a[1]); }},
{"isl_union_map_extract_map",'o',12,{{'k',41},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_extract_map((isl_union_map *)a[0], (isl_space *)a[1]); }},
{"isl_union_map_factor_domain",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_factor_domain((isl_union_map *)a[0]); }},
{"isl_union_map_factor_range",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_factor_range((isl_union_map *)a[0]); }},
{"isl_union_map_find_dim_by_name",'i',-1,{{'k',41},{'d',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_map_find_dim_by_name((isl_union_map *)a[0], (enum isl_dim_type)n[0], s[0]); return nullptr; }},
{"isl_union_map_fixed_power_val",'o',41,{{'t',41},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_fixed_power_val((isl_union_map *)a[0], (isl_val *)a[1]); }},
{"isl_union_map_flat_domain_product",'o',41,{{'t',41},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_flat_domain_product((isl_union_map *)a[0], (isl_union_map *)a[1]); }},
{"isl_union_map_flat_range_product",'o',41,{{'t',41},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_flat_range_product((isl_union_map *)a[0], (isl_union_map *)a[1]); }},
{"isl_union_map_from_basic_map",'o',41,{{'t',2}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_from_basic_map((isl_basic_map *)a[0]); }},
{"isl_union_map_from_domain",'o',41,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_from_domain((isl_union_set *)a[0]); }},
{"isl_union_map_from_domain_and_range",'o',41,{{'t',49},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_from_domain_and_range((isl_union_set *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_map_from_map",'o',41,{{'t',12}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_from_map((isl_map *)a[0]); }},
{"isl_union_map_from_multi_union_pw_aff",'o',41,{{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_from_multi_union_pw_aff((isl_multi_union_pw_aff *)a[0]); }},
{"isl_union_map_from_range",'o',41,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_from_range((isl_union_set *)a[0]); }},
{"isl_union_map_from_union_pw_aff",'o',41,{{'t',43}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_from_union_pw_aff((isl_union_pw_aff *)a[0]); }},
{"isl_union_map_from_union_pw_multi_aff",'o',41,{{'t',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_from_union_pw_multi_aff((isl_union_pw_multi_aff *)a[0]); }},
{"isl_union_map_get_dim_id",'o',9,{{'k',41},{'d',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_get_dim_id((isl_union_map *)a[0], (enum isl_dim_type)n[0], n[1]); }},
{"isl_union_map_get_map_list",'o',13,{{'k',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_get_map_list((isl_union_map *)a[0]); }},
{"isl_union_map_get_space",'o',36,{{'k',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_get_space((isl_union_map *)a[0]); }},
{"isl_union_map_gist",'o',41,{{'t',41},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_gist((isl_union_map *)a[0], (isl_union_map *)a[1]); }},
{"isl_union_map_gist_domain",'o',41,{{'t',41},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_gist_domain((isl_union_map *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_map_gist_params",'o',41,{{'t',41},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_gist_params((isl_union_map *)a[0], (isl_set *)a[1]); }},
{"isl_union_map_gist_range",'o',41,{{'t',41},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_gist_range((isl_union_map *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_map_intersect",'o',41,{{'t',41},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_intersect((isl_union_map *)a[0], (isl_union_map *)a[1]); }},
{"isl_union_map_intersect_domain",'o',41,{{'t',41},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_intersect_domain((isl_union_map *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_map_intersect_domain_factor_domain",'o',41,{{'t',41},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_intersect_domain_factor_domain((isl_union_map *)a[0], (isl_union_map *)a[1]); }},
{"isl_union_map_intersect_domain_factor_range",'o',41,{{'t',41},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_intersect_domain_factor_range((isl_union_map *)a[0], (isl_union_map *)a[1]); }},
{"isl_union_map_intersect_domain_space",'o',41,{{'t',41},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_intersect_domain_space((isl_union_map *)a[0], (isl_space *)a[1]); }},
{"isl_union_map_intersect_domain_union_set",'o',41,{{'t',41},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_intersect_domain_union_set((isl_union_map *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_map_intersect_params",'o',41,{{'t',41},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_intersect_params((isl_union_map *)a[0], (isl_set *)a[1]); }},
{"isl_union_map_intersect_range",'o',41,{{'t',41},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_intersect_range((isl_union_map *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_map_intersect_range_factor_domain",'o',41,{{'t',41},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_intersect_range_factor_domain((isl_union_map *)a[0], (isl_union_map *)a[1]); }},
{"isl_union_map_intersect_range_factor_range",'o',41,{{'t',41},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_intersect_range_factor_range((isl_union_map *)a[0], (isl_union_map *)a[1]); }},
{"isl_union_map_intersect_range_space",'o',41,{{'t',41},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_intersect_range_space((isl_union_map *)a[0], (isl_space *)a[1]); }},
{"isl_union_map_intersect_range_union_set",'o',41,{{'t',41},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_intersect_range_union_set((isl_union_map *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_map_involves_dims",'b',-1,{{'k',41},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_map_involves_dims((isl_union_map *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); return nullptr; }},
{"isl_union_map_is_bijective",'b',-1,{{'k',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_map_is_bijective((isl_union_map *)a[0]); return nullptr; }},
{"isl_union_map_is_disjoint",'b',-1,{{'k',41},{'k',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_map_is_disjoint((isl_union_map *)a[0], (isl_union_map *)a[1]); return nullptr; }},
{"isl_union_map_is_empty",'b',-1,{{'k',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_map_is_empty((isl_union_map *)a[0]); return nullptr; }},
{"isl_union_map_is_equal",'b',-1,{{'k',41},{'k',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_map_is_equal((isl_union_map *)a[0], (isl_union_map *)a[1]); return nullptr; }},
{"isl_union_map_is_identity",'b',-1,{{'k',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_map_is_identity((isl_union_map *)a[0]); return nullptr; }},
{"isl_union_map_is_injective",'b',-1,{{'k',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_map_is_injective((isl_union_map *)a[0]); return nullptr; }},
{"isl_union_map_is_single_valued",'b',-1,{{'k',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_map_is_single_valued((isl_union_map *)a[0]); return nullptr; }},
{"isl_union_map_is_strict_subset",'b',-1,{{'k',41},{'k',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_map_is_strict_subset((isl_union_map *)a[0], (isl_union_map *)a[1]); return nullptr; }},
{"isl_union_map_is_subset",'b',-1,{{'k',41},{'k',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_map_is_subset((isl_union_map *)a[0], (isl_union_map *)a[1]); return nullptr; }},
{"isl_union_map_isa_map",'b',-1,{{'k',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_map_isa_map((isl_union_map *)a[0]); return nullptr; }},
{"isl_union_map_lex_ge_at_multi_union_pw_aff",'o',41,{{'t',41},{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_lex_ge_at_multi_union_pw_aff((isl_union_map *)a[0], (isl_multi_union_pw_aff *)a[1]); }},
{"isl_union_map_lex_ge_union_map",'o',41,{{'t',41},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_lex_ge_union_map((isl_union_map *)a[0], (isl_union_map *)a[1]); }},
{"isl_union_map_lex_gt_at_multi_union_pw_aff",'o',41,{{'t',41},{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_lex_gt_at_multi_union_pw_aff((isl_union_map *)a[0], (isl_multi_union_pw_aff *)a[1]); }},
{"isl_union_map_lex_gt_union_map",'o',41,{{'t',41},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_lex_gt_union_map((isl_union_map *)a[0], (isl_union_map *)a[1]); }},
{"isl_union_map_lex_le_at_multi_union_pw_aff",'o',41,{{'t',41},{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_lex_le_at_multi_union_pw_aff((isl_union_map *)a[0], (isl_multi_union_pw_aff *)a[1]); }},
{"isl_union_map_lex_le_union_map",'o',41,{{'t',41},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_lex_le_union_map((isl_union_map *)a[0], (isl_union_map *)a[1]); }},
{"isl_union_map_lex_lt_at_multi_union_pw_aff",'o',41,{{'t',41},{'t',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_lex_lt_at_multi_union_pw_aff((isl_union_map *)a[0], (isl_multi_union_pw_aff *)a[1]); }},
{"isl_union_map_lex_lt_union_map",'o',41,{{'t',41},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_lex_lt_union_map((isl_union_map *)a[0], (isl_union_map *)a[1]); }},
{"isl_union_map_lexmax",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_lexmax((isl_union_map *)a[0]); }},
{"isl_union_map_lexmin",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_lexmin((isl_union_map *)a[0]); }},
{"isl_union_map_list_add",'o',42,{{'t',42},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_list_add((isl_union_map_list *)a[0], (isl_union_map *)a[1]); }},
{"isl_union_map_list_alloc",'o',42,{{'c',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_list_alloc(ctx, n[0]); }},
{"isl_union_map_list_clear",'o',42,{{'t',42}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_list_clear((isl_union_map_list *)a[0]); }},
{"isl_union_map_list_concat",'o',42,{{'t',42},{'t',42}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_list_concat((isl_union_map_list *)a[0], (isl_union_map_list *)a[1]); }},
{"isl_union_map_list_drop",'o',42,{{'t',42},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_list_drop((isl_union_map_list *)a[0], n[0], n[1]); }},
{"isl_union_map_list_from_union_map",'o',42,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_list_from_union_map((isl_union_map *)a[0]); }},
{"isl_union_map_list_get_at",'o',41,{{'k',42},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_list_get_at((isl_union_map_list *)a[0], n[0]); }},
{"isl_union_map_list_get_union_map",'o',41,{{'k',42},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_list_get_union_map((isl_union_map_list *)a[0], n[0]); }},
{"isl_union_map_list_insert",'o',42,{{'t',42},{'p',0},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_list_insert((isl_union_map_list *)a[0], n[0], (isl_union_map *)a[1]); }},
{"isl_union_map_list_n_union_map",'z',-1,{{'k',42}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_map_list_n_union_map((isl_union_map_list *)a[0]); return nullptr; }},
{"isl_union_map_list_reverse",'o',42,{{'t',42}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_list_reverse((isl_union_map_list *)a[0]); }},
{"isl_union_map_list_set_union_map",'o',42,{{'t',42},{'p',0},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_list_set_union_map((isl_union_map_list *)a[0], n[0], (isl_union_map *)a[1]); }},
{"isl_union_map_list_size",'z',-1,{{'k',42}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_map_list_size((isl_union_map_list *)a[0]); return nullptr; }},
{"isl_union_map_list_swap",'o',42,{{'t',42},{'p',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_list_swap((isl_union_map_list *)a[0], n[0], n[1]); }},
{"isl_union_map_n_map",'z',-1,{{'k',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_map_n_map((isl_union_map *)a[0]); return nullptr; }},
{"isl_union_map_params",'o',34,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_params((isl_union_map *)a[0]); }},
{"isl_union_map_plain_is_empty",'b',-1,{{'k',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_map_plain_is_empty((isl_union_map *)a[0]); return nullptr; }},
{"isl_union_map_plain_is_injective",'b',-1,{{'k',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_map_plain_is_injective((isl_union_map *)a[0]); return nullptr; }},
{"isl_union_map_polyhedral_hull",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_polyhedral_hull((isl_union_map *)a[0]); }},
{"isl_union_map_preimage_domain_multi_aff",'o',41,{{'t',41},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_preimage_domain_multi_aff((isl_union_map *)a[0], (isl_multi_aff *)a[1]); }},
{"isl_union_map_preimage_domain_multi_pw_aff",'o',41,{{'t',41},{'t',16}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_preimage_domain_multi_pw_aff((isl_union_map *)a[0], (isl_multi_pw_aff *)a[1]); }},
{"isl_union_map_preimage_domain_pw_multi_aff",'o',41,{{'t',41},{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_preimage_domain_pw_multi_aff((isl_union_map *)a[0], (isl_pw_multi_aff *)a[1]); }},
{"isl_union_map_preimage_domain_union_pw_multi_aff",'o',41,{{'t',41},{'t',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_preimage_domain_union_pw_multi_aff((isl_union_map *)a[0], (isl_union_pw_multi_aff *)a[1]); }},
{"isl_union_map_preimage_range_multi_aff",'o',41,{{'t',41},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_preimage_range_multi_aff((isl_union_map *)a[0], (isl_multi_aff *)a[1]); }},
{"isl_union_map_preimage_range_pw_multi_aff",'o',41,{{'t',41},{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_preimage_range_pw_multi_aff((isl_union_map *)a[0], (isl_pw_multi_aff *)a[1]); }},
{"isl_union_map_preimage_range_union_pw_multi_aff",'o',41,{{'t',41},{'t',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_preimage_range_union_pw_multi_aff((isl_union_map *)a[0], (isl_union_pw_multi_aff *)a[1]); }},
{"isl_union_map_product",'o',41,{{'t',41},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_product((isl_union_map *)a[0], (isl_union_map *)a[1]); }},
{"isl_union_map_project_out",'o',41,{{'t',41},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_project_out((isl_union_map *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_union_map_project_out_all_params",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_project_out_all_params((isl_union_map *)a[0]); }},
{"isl_union_map_project_out_param_id",'o',41,{{'t',41},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_project_out_param_id((isl_union_map *)a[0], (isl_id *)a[1]); }},
{"isl_union_map_project_out_param_id_list",'o',41,{{'t',41},{'t',10}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_project_out_param_id_list((isl_union_map *)a[0], (isl_id_list *)a[1]); }},
{"isl_union_map_range",'o',49,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_range((isl_union_map *)a[0]); }},
{"isl_union_map_range_curry",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_range_curry((isl_union_map *)a[0]); }},
{"isl_union_map_range_factor_domain",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_range_factor_domain((isl_union_map *)a[0]); }},
{"isl_union_map_range_factor_range",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_range_factor_range((isl_union_map *)a[0]); }},
{"isl_union_map_range_map",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_range_map((isl_union_map *)a[0]); }},
{"isl_union_map_range_product",'o',41,{{'t',41},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_range_product((isl_union_map *)a[0], (isl_union_map *)a[1]); }},
{"isl_union_map_range_reverse",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_range_reverse((isl_union_map *)a[0]); }},
{"isl_union_map_remove_divs",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_remove_divs((isl_union_map *)a[0]); }},
{"isl_union_map_remove_redundancies",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_remove_redundancies((isl_union_map *)a[0]); }},
{"isl_union_map_reset_user",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_reset_user((isl_union_map *)a[0]); }},
{"isl_union_map_reverse",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_reverse((isl_union_map *)a[0]); }},
{"isl_union_map_sample",'o',2,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_sample((isl_union_map *)a[0]); }},
{"isl_union_map_simple_hull",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_simple_hull((isl_union_map *)a[0]); }},
{"isl_union_map_subtract",'o',41,{{'t',41},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_subtract((isl_union_map *)a[0], (isl_union_map *)a[1]); }},
{"isl_union_map_subtract_domain",'o',41,{{'t',41},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_subtract_domain((isl_union_map *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_map_subtract_range",'o',41,{{'t',41},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_subtract_range((isl_union_map *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_map_to_list",'o',42,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_to_list((isl_union_map *)a[0]); }},
{"isl_union_map_uncurry",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_uncurry((isl_union_map *)a[0]); }},
{"isl_union_map_union",'o',41,{{'t',41},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_union((isl_union_map *)a[0], (isl_union_map *)a[1]); }},
{"isl_union_map_universe",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_universe((isl_union_map *)a[0]); }},
{"isl_union_map_wrap",'o',49,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_wrap((isl_union_map *)a[0]); }},
{"isl_union_map_zip",'o',41,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_map_zip((isl_union_map *)a[0]); }},
{"isl_union_pw_aff_add",'o',43,{{'t',43},{'t',43}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_add((isl_union_pw_aff *)a[0], (isl_union_pw_aff *)a[1]); }},
{"isl_union_pw_aff_add_pw_aff",'o',43,{{'t',43},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_add_pw_aff((isl_union_pw_aff *)a[0], (isl_pw_aff *)a[1]); }},
{"isl_union_pw_aff_aff_on_domain",'o',43,{{'t',49},{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_aff_on_domain((isl_union_set *)a[0], (isl_aff *)a[1]); }},
{"isl_union_pw_aff_align_params",'o',43,{{'t',43},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_align_params((isl_union_pw_aff *)a[0], (isl_space *)a[1]); }},
{"isl_union_pw_aff_bind_id",'o',49,{{'t',43},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_bind_id((isl_union_pw_aff *)a[0], (isl_id *)a[1]); }},
{"isl_union_pw_aff_coalesce",'o',43,{{'t',43}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_coalesce((isl_union_pw_aff *)a[0]); }},
{"isl_union_pw_aff_dim",'z',-1,{{'k',43},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_pw_aff_dim((isl_union_pw_aff *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_union_pw_aff_domain",'o',49,{{'t',43}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_domain((isl_union_pw_aff *)a[0]); }},
{"isl_union_pw_aff_drop_dims",'o',43,{{'t',43},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_drop_dims((isl_union_pw_aff *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_union_pw_aff_empty",'o',43,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_empty((isl_space *)a[0]); }},
{"isl_union_pw_aff_empty_ctx",'o',43,{{'c',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_empty_ctx(ctx); }},
{"isl_union_pw_aff_empty_space",'o',43,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_empty_space((isl_space *)a[0]); }},
{"isl_union_pw_aff_extract_pw_aff",'o',20,{{'k',43},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_extract_pw_aff((isl_union_pw_aff *)a[0], (isl_space *)a[1]); }},
{"isl_union_pw_aff_find_dim_by_name",'i',-1,{{'k',43},{'d',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_pw_aff_find_dim_by_name((isl_union_pw_aff *)a[0], (enum isl_dim_type)n[0], s[0]); return nullptr; }},
{"isl_union_pw_aff_floor",'o',43,{{'t',43}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_floor((isl_union_pw_aff *)a[0]); }},
{"isl_union_pw_aff_from_aff",'o',43,{{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_from_aff((isl_aff *)a[0]); }},
{"isl_union_pw_aff_from_pw_aff",'o',43,{{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_from_pw_aff((isl_pw_aff *)a[0]); }},
{"isl_union_pw_aff_get_pw_aff_list",'o',21,{{'k',43}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_get_pw_aff_list((isl_union_pw_aff *)a[0]); }},
{"isl_union_pw_aff_get_space",'o',36,{{'k',43}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_get_space((isl_union_pw_aff *)a[0]); }},
{"isl_union_pw_aff_gist",'o',43,{{'t',43},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_gist((isl_union_pw_aff *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_pw_aff_gist_params",'o',43,{{'t',43},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_gist_params((isl_union_pw_aff *)a[0], (isl_set *)a[1]); }},
{"isl_union_pw_aff_intersect_domain",'o',43,{{'t',43},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_intersect_domain((isl_union_pw_aff *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_pw_aff_intersect_domain_space",'o',43,{{'t',43},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_intersect_domain_space((isl_union_pw_aff *)a[0], (isl_space *)a[1]); }},
{"isl_union_pw_aff_intersect_domain_union_set",'o',43,{{'t',43},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_intersect_domain_union_set((isl_union_pw_aff *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_pw_aff_intersect_domain_wrapped_domain",'o',43,{{'t',43},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_intersect_domain_wrapped_domain((isl_union_pw_aff *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_pw_aff_intersect_domain_wrapped_range",'o',43,{{'t',43},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_intersect_domain_wrapped_range((isl_union_pw_aff *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_pw_aff_intersect_params",'o',43,{{'t',43},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_intersect_params((isl_union_pw_aff *)a[0], (isl_set *)a[1]); }},
{"isl_union_pw_aff_involves_nan",'b',-1,{{'k',43}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_pw_aff_involves_nan((isl_union_pw_aff *)a[0]); return nullptr; }},
{"isl_union_pw_aff_list_add",'o',44,{{'t',44},{'t',43}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_list_add((isl_union_pw_aff_list *)a[0], (isl_union_pw_aff *)a[1]); }},
{"isl_union_pw_aff_list_alloc",'o',44,{{'c',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_list_alloc(ctx, n[0]); }},
{"isl_union_pw_aff_list_clear",'o',44,{{'t',44}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_list_clear((isl_union_pw_aff_list *)a[0]); }},
{"isl_union_pw_aff_list_concat",'o',44,{{'t',44},{'t',44}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_list_concat((isl_union_pw_aff_list *)a[0], (isl_union_pw_aff_list *)a[1]); }},
{"isl_union_pw_aff_list_drop",'o',44,{{'t',44},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_list_drop((isl_union_pw_aff_list *)a[0], n[0], n[1]); }},
{"isl_union_pw_aff_list_from_union_pw_aff",'o',44,{{'t',43}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_list_from_union_pw_aff((isl_union_pw_aff *)a[0]); }},
{"isl_union_pw_aff_list_get_at",'o',43,{{'k',44},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_list_get_at((isl_union_pw_aff_list *)a[0], n[0]); }},
{"isl_union_pw_aff_list_get_union_pw_aff",'o',43,{{'k',44},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_list_get_union_pw_aff((isl_union_pw_aff_list *)a[0], n[0]); }},
{"isl_union_pw_aff_list_insert",'o',44,{{'t',44},{'p',0},{'t',43}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_list_insert((isl_union_pw_aff_list *)a[0], n[0], (isl_union_pw_aff *)a[1]); }},
{"isl_union_pw_aff_list_n_union_pw_aff",'z',-1,{{'k',44}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_pw_aff_list_n_union_pw_aff((isl_union_pw_aff_list *)a[0]); return nullptr; }},
{"isl_union_pw_aff_list_reverse",'o',44,{{'t',44}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_list_reverse((isl_union_pw_aff_list *)a[0]); }},
{"isl_union_pw_aff_list_set_union_pw_aff",'o',44,{{'t',44},{'p',0},{'t',43}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_list_set_union_pw_aff((isl_union_pw_aff_list *)a[0], n[0], (isl_union_pw_aff *)a[1]); }},
{"isl_union_pw_aff_list_size",'z',-1,{{'k',44}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_pw_aff_list_size((isl_union_pw_aff_list *)a[0]); return nullptr; }},
{"isl_union_pw_aff_list_swap",'o',44,{{'t',44},{'p',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_list_swap((isl_union_pw_aff_list *)a[0], n[0], n[1]); }},
{"isl_union_pw_aff_max_val",'o',51,{{'t',43}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_max_val((isl_union_pw_aff *)a[0]); }},
{"isl_union_pw_aff_min_val",'o',51,{{'t',43}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_min_val((isl_union_pw_aff *)a[0]); }},
{"isl_union_pw_aff_mod_val",'o',43,{{'t',43},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_mod_val((isl_union_pw_aff *)a[0], (isl_val *)a[1]); }},
{"isl_union_pw_aff_n_pw_aff",'z',-1,{{'k',43}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_pw_aff_n_pw_aff((isl_union_pw_aff *)a[0]); return nullptr; }},
{"isl_union_pw_aff_neg",'o',43,{{'t',43}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_neg((isl_union_pw_aff *)a[0]); }},
{"isl_union_pw_aff_param_on_domain_id",'o',43,{{'t',49},{'t',9}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_param_on_domain_id((isl_union_set *)a[0], (isl_id *)a[1]); }},
{"isl_union_pw_aff_plain_is_equal",'b',-1,{{'k',43},{'k',43}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_pw_aff_plain_is_equal((isl_union_pw_aff *)a[0], (isl_union_pw_aff *)a[1]); return nullptr; }},
{"isl_union_pw_aff_pullback_union_pw_multi_aff",'o',43,{{'t',43},{'t',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_pullback_union_pw_multi_aff((isl_union_pw_aff *)a[0], (isl_union_pw_multi_aff *)a[1]); }},
{"isl_union_pw_aff_pw_aff_on_domain",'o',43,{{'t',49},{'t',20}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_pw_aff_on_domain((isl_union_set *)a[0], (isl_pw_aff *)a[1]); }},
{"isl_union_pw_aff_reset_user",'o',43,{{'t',43}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_reset_user((isl_union_pw_aff *)a[0]); }},
{"isl_union_pw_aff_scale_down_val",'o',43,{{'t',43},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_scale_down_val((isl_union_pw_aff *)a[0], (isl_val *)a[1]); }},
{"isl_union_pw_aff_scale_val",'o',43,{{'t',43},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_scale_val((isl_union_pw_aff *)a[0], (isl_val *)a[1]); }},
{"isl_union_pw_aff_set_dim_name",'o',43,{{'t',43},{'d',0},{'p',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_set_dim_name((isl_union_pw_aff *)a[0], (enum isl_dim_type)n[0], n[1], s[0]); }},
{"isl_union_pw_aff_sub",'o',43,{{'t',43},{'t',43}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_sub((isl_union_pw_aff *)a[0], (isl_union_pw_aff *)a[1]); }},
{"isl_union_pw_aff_subtract_domain",'o',43,{{'t',43},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_subtract_domain((isl_union_pw_aff *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_pw_aff_subtract_domain_space",'o',43,{{'t',43},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_subtract_domain_space((isl_union_pw_aff *)a[0], (isl_space *)a[1]); }},
{"isl_union_pw_aff_subtract_domain_union_set",'o',43,{{'t',43},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_subtract_domain_union_set((isl_union_pw_aff *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_pw_aff_to_list",'o',44,{{'t',43}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_to_list((isl_union_pw_aff *)a[0]); }},
{"isl_union_pw_aff_union_add",'o',43,{{'t',43},{'t',43}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_union_add((isl_union_pw_aff *)a[0], (isl_union_pw_aff *)a[1]); }},
{"isl_union_pw_aff_val_on_domain",'o',43,{{'t',49},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_val_on_domain((isl_union_set *)a[0], (isl_val *)a[1]); }},
{"isl_union_pw_aff_zero_union_set",'o',49,{{'t',43}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_aff_zero_union_set((isl_union_pw_aff *)a[0]); }},
{"isl_union_pw_multi_aff_add",'o',45,{{'t',45},{'t',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_add((isl_union_pw_multi_aff *)a[0], (isl_union_pw_multi_aff *)a[1]); }},
{"isl_union_pw_multi_aff_add_pw_multi_aff",'o',45,{{'t',45},{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_add_pw_multi_aff((isl_union_pw_multi_aff *)a[0], (isl_pw_multi_aff *)a[1]); }},
{"isl_union_pw_multi_aff_align_params",'o',45,{{'t',45},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_align_params((isl_union_pw_multi_aff *)a[0], (isl_space *)a[1]); }},
{"isl_union_pw_multi_aff_as_pw_multi_aff",'o',22,{{'t',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_as_pw_multi_aff((isl_union_pw_multi_aff *)a[0]); }},
{"isl_union_pw_multi_aff_as_union_map",'o',41,{{'t',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_as_union_map((isl_union_pw_multi_aff *)a[0]); }},
{"isl_union_pw_multi_aff_coalesce",'o',45,{{'t',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_coalesce((isl_union_pw_multi_aff *)a[0]); }},
{"isl_union_pw_multi_aff_dim",'z',-1,{{'k',45},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_pw_multi_aff_dim((isl_union_pw_multi_aff *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_union_pw_multi_aff_domain",'o',49,{{'t',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_domain((isl_union_pw_multi_aff *)a[0]); }},
{"isl_union_pw_multi_aff_drop_dims",'o',45,{{'t',45},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_drop_dims((isl_union_pw_multi_aff *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_union_pw_multi_aff_empty",'o',45,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_empty((isl_space *)a[0]); }},
{"isl_union_pw_multi_aff_empty_ctx",'o',45,{{'c',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_empty_ctx(ctx); }},
{"isl_union_pw_multi_aff_empty_space",'o',45,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_empty_space((isl_space *)a[0]); }},
{"isl_union_pw_multi_aff_extract_pw_multi_aff",'o',22,{{'k',45},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_extract_pw_multi_aff((isl_union_pw_multi_aff *)a[0], (isl_space *)a[1]); }},
{"isl_union_pw_multi_aff_find_dim_by_name",'i',-1,{{'k',45},{'d',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_pw_multi_aff_find_dim_by_name((isl_union_pw_multi_aff *)a[0], (enum isl_dim_type)n[0], s[0]); return nullptr; }},
{"isl_union_pw_multi_aff_flat_range_product",'o',45,{{'t',45},{'t',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_flat_range_product((isl_union_pw_multi_aff *)a[0], (isl_union_pw_multi_aff *)a[1]); }},
{"isl_union_pw_multi_aff_from_aff",'o',45,{{'t',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_from_aff((isl_aff *)a[0]); }},
{"isl_union_pw_multi_aff_from_domain",'o',45,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_from_domain((isl_union_set *)a[0]); }},
{"isl_union_pw_multi_aff_from_multi_aff",'o',45,{{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_from_multi_aff((isl_multi_aff *)a[0]); }},
{"isl_union_pw_multi_aff_from_pw_multi_aff",'o',45,{{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_from_pw_multi_aff((isl_pw_multi_aff *)a[0]); }},
{"isl_union_pw_multi_aff_from_union_map",'o',45,{{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_from_union_map((isl_union_map *)a[0]); }},
{"isl_union_pw_multi_aff_from_union_pw_aff",'o',45,{{'t',43}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_from_union_pw_aff((isl_union_pw_aff *)a[0]); }},
{"isl_union_pw_multi_aff_from_union_set",'o',45,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_from_union_set((isl_union_set *)a[0]); }},
{"isl_union_pw_multi_aff_get_pw_multi_aff_list",'o',23,{{'k',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_get_pw_multi_aff_list((isl_union_pw_multi_aff *)a[0]); }},
{"isl_union_pw_multi_aff_get_space",'o',36,{{'k',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_get_space((isl_union_pw_multi_aff *)a[0]); }},
{"isl_union_pw_multi_aff_get_union_pw_aff",'o',43,{{'k',45},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_get_union_pw_aff((isl_union_pw_multi_aff *)a[0], n[0]); }},
{"isl_union_pw_multi_aff_gist",'o',45,{{'t',45},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_gist((isl_union_pw_multi_aff *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_pw_multi_aff_gist_params",'o',45,{{'t',45},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_gist_params((isl_union_pw_multi_aff *)a[0], (isl_set *)a[1]); }},
{"isl_union_pw_multi_aff_intersect_domain",'o',45,{{'t',45},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_intersect_domain((isl_union_pw_multi_aff *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_pw_multi_aff_intersect_params",'o',45,{{'t',45},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_intersect_params((isl_union_pw_multi_aff *)a[0], (isl_set *)a[1]); }},
{"isl_union_pw_multi_aff_involves_locals",'b',-1,{{'k',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_pw_multi_aff_involves_locals((isl_union_pw_multi_aff *)a[0]); return nullptr; }},
{"isl_union_pw_multi_aff_involves_nan",'b',-1,{{'k',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_pw_multi_aff_involves_nan((isl_union_pw_multi_aff *)a[0]); return nullptr; }},
{"isl_union_pw_multi_aff_isa_pw_multi_aff",'b',-1,{{'k',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_pw_multi_aff_isa_pw_multi_aff((isl_union_pw_multi_aff *)a[0]); return nullptr; }},
{"isl_union_pw_multi_aff_list_add",'o',46,{{'t',46},{'t',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_list_add((isl_union_pw_multi_aff_list *)a[0], (isl_union_pw_multi_aff *)a[1]); }},
{"isl_union_pw_multi_aff_list_alloc",'o',46,{{'c',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_list_alloc(ctx, n[0]); }},
{"isl_union_pw_multi_aff_list_clear",'o',46,{{'t',46}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_list_clear((isl_union_pw_multi_aff_list *)a[0]); }},
{"isl_union_pw_multi_aff_list_concat",'o',46,{{'t',46},{'t',46}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_list_concat((isl_union_pw_multi_aff_list *)a[0], (isl_union_pw_multi_aff_list *)a[1]); }},
{"isl_union_pw_multi_aff_list_drop",'o',46,{{'t',46},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_list_drop((isl_union_pw_multi_aff_list *)a[0], n[0], n[1]); }},
{"isl_union_pw_multi_aff_list_from_union_pw_multi_aff",'o',46,{{'t',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_list_from_union_pw_multi_aff((isl_union_pw_multi_aff *)a[0]); }},
{"isl_union_pw_multi_aff_list_get_at",'o',45,{{'k',46},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_list_get_at((isl_union_pw_multi_aff_list *)a[0], n[0]); }},
{"isl_union_pw_multi_aff_list_get_union_pw_multi_aff",'o',45,{{'k',46},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_list_get_union_pw_multi_aff((isl_union_pw_multi_aff_list *)a[0], n[0]); }},
{"isl_union_pw_multi_aff_list_insert",'o',46,{{'t',46},{'p',0},{'t',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_list_insert((isl_union_pw_multi_aff_list *)a[0], n[0], (isl_union_pw_multi_aff *)a[1]); }},
{"isl_union_pw_multi_aff_list_n_union_pw_multi_aff",'z',-1,{{'k',46}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_pw_multi_aff_list_n_union_pw_multi_aff((isl_union_pw_multi_aff_list *)a[0]); return nullptr; }},
{"isl_union_pw_multi_aff_list_reverse",'o',46,{{'t',46}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_list_reverse((isl_union_pw_multi_aff_list *)a[0]); }},
{"isl_union_pw_multi_aff_list_set_union_pw_multi_aff",'o',46,{{'t',46},{'p',0},{'t',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_list_set_union_pw_multi_aff((isl_union_pw_multi_aff_list *)a[0], n[0], (isl_union_pw_multi_aff *)a[1]); }},
{"isl_union_pw_multi_aff_list_size",'z',-1,{{'k',46}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_pw_multi_aff_list_size((isl_union_pw_multi_aff_list *)a[0]); return nullptr; }},
{"isl_union_pw_multi_aff_list_swap",'o',46,{{'t',46},{'p',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_list_swap((isl_union_pw_multi_aff_list *)a[0], n[0], n[1]); }},
{"isl_union_pw_multi_aff_multi_val_on_domain",'o',45,{{'t',49},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_multi_val_on_domain((isl_union_set *)a[0], (isl_multi_val *)a[1]); }},
{"isl_union_pw_multi_aff_n_pw_multi_aff",'z',-1,{{'k',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_pw_multi_aff_n_pw_multi_aff((isl_union_pw_multi_aff *)a[0]); return nullptr; }},
{"isl_union_pw_multi_aff_neg",'o',45,{{'t',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_neg((isl_union_pw_multi_aff *)a[0]); }},
{"isl_union_pw_multi_aff_plain_is_empty",'b',-1,{{'k',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_pw_multi_aff_plain_is_empty((isl_union_pw_multi_aff *)a[0]); return nullptr; }},
{"isl_union_pw_multi_aff_plain_is_equal",'b',-1,{{'k',45},{'k',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_pw_multi_aff_plain_is_equal((isl_union_pw_multi_aff *)a[0], (isl_union_pw_multi_aff *)a[1]); return nullptr; }},
{"isl_union_pw_multi_aff_range_factor_domain",'o',45,{{'t',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_range_factor_domain((isl_union_pw_multi_aff *)a[0]); }},
{"isl_union_pw_multi_aff_range_factor_range",'o',45,{{'t',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_range_factor_range((isl_union_pw_multi_aff *)a[0]); }},
{"isl_union_pw_multi_aff_range_product",'o',45,{{'t',45},{'t',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_range_product((isl_union_pw_multi_aff *)a[0], (isl_union_pw_multi_aff *)a[1]); }},
{"isl_union_pw_multi_aff_reset_user",'o',45,{{'t',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_reset_user((isl_union_pw_multi_aff *)a[0]); }},
{"isl_union_pw_multi_aff_scale_down_val",'o',45,{{'t',45},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_scale_down_val((isl_union_pw_multi_aff *)a[0], (isl_val *)a[1]); }},
{"isl_union_pw_multi_aff_scale_multi_val",'o',45,{{'t',45},{'t',18}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_scale_multi_val((isl_union_pw_multi_aff *)a[0], (isl_multi_val *)a[1]); }},
{"isl_union_pw_multi_aff_scale_val",'o',45,{{'t',45},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_scale_val((isl_union_pw_multi_aff *)a[0], (isl_val *)a[1]); }},
{"isl_union_pw_multi_aff_set_dim_name",'o',45,{{'t',45},{'d',0},{'p',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_set_dim_name((isl_union_pw_multi_aff *)a[0], (enum isl_dim_type)n[0], n[1], s[0]); }},
{"isl_union_pw_multi_aff_sub",'o',45,{{'t',45},{'t',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_sub((isl_union_pw_multi_aff *)a[0], (isl_union_pw_multi_aff *)a[1]); }},
{"isl_union_pw_multi_aff_subtract_domain",'o',45,{{'t',45},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_subtract_domain((isl_union_pw_multi_aff *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_pw_multi_aff_subtract_domain_space",'o',45,{{'t',45},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_subtract_domain_space((isl_union_pw_multi_aff *)a[0], (isl_space *)a[1]); }},
{"isl_union_pw_multi_aff_to_list",'o',46,{{'t',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_to_list((isl_union_pw_multi_aff *)a[0]); }},
{"isl_union_pw_multi_aff_union_add",'o',45,{{'t',45},{'t',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_multi_aff_union_add((isl_union_pw_multi_aff *)a[0], (isl_union_pw_multi_aff *)a[1]); }},
{"isl_union_pw_qpolynomial_add",'o',47,{{'t',47},{'t',47}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_add((isl_union_pw_qpolynomial *)a[0], (isl_union_pw_qpolynomial *)a[1]); }},
{"isl_union_pw_qpolynomial_add_pw_qpolynomial",'o',47,{{'t',47},{'t',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_add_pw_qpolynomial((isl_union_pw_qpolynomial *)a[0], (isl_pw_qpolynomial *)a[1]); }},
{"isl_union_pw_qpolynomial_align_params",'o',47,{{'t',47},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_align_params((isl_union_pw_qpolynomial *)a[0], (isl_space *)a[1]); }},
{"isl_union_pw_qpolynomial_coalesce",'o',47,{{'t',47}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_coalesce((isl_union_pw_qpolynomial *)a[0]); }},
{"isl_union_pw_qpolynomial_dim",'z',-1,{{'k',47},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_pw_qpolynomial_dim((isl_union_pw_qpolynomial *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_union_pw_qpolynomial_domain",'o',49,{{'t',47}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_domain((isl_union_pw_qpolynomial *)a[0]); }},
{"isl_union_pw_qpolynomial_drop_dims",'o',47,{{'t',47},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_drop_dims((isl_union_pw_qpolynomial *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_union_pw_qpolynomial_eval",'o',51,{{'t',47},{'t',19}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_eval((isl_union_pw_qpolynomial *)a[0], (isl_point *)a[1]); }},
{"isl_union_pw_qpolynomial_extract_pw_qpolynomial",'o',24,{{'k',47},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_extract_pw_qpolynomial((isl_union_pw_qpolynomial *)a[0], (isl_space *)a[1]); }},
{"isl_union_pw_qpolynomial_find_dim_by_name",'i',-1,{{'k',47},{'d',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_pw_qpolynomial_find_dim_by_name((isl_union_pw_qpolynomial *)a[0], (enum isl_dim_type)n[0], s[0]); return nullptr; }},
{"isl_union_pw_qpolynomial_fold_add_union_pw_qpolynomial",'o',48,{{'t',48},{'t',47}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_fold_add_union_pw_qpolynomial((isl_union_pw_qpolynomial_fold *)a[0], (isl_union_pw_qpolynomial *)a[1]); }},
{"isl_union_pw_qpolynomial_fold_align_params",'o',48,{{'t',48},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_fold_align_params((isl_union_pw_qpolynomial_fold *)a[0], (isl_space *)a[1]); }},
{"isl_union_pw_qpolynomial_fold_coalesce",'o',48,{{'t',48}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_fold_coalesce((isl_union_pw_qpolynomial_fold *)a[0]); }},
{"isl_union_pw_qpolynomial_fold_dim",'z',-1,{{'k',48},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_pw_qpolynomial_fold_dim((isl_union_pw_qpolynomial_fold *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_union_pw_qpolynomial_fold_domain",'o',49,{{'t',48}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_fold_domain((isl_union_pw_qpolynomial_fold *)a[0]); }},
{"isl_union_pw_qpolynomial_fold_eval",'o',51,{{'t',48},{'t',19}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_fold_eval((isl_union_pw_qpolynomial_fold *)a[0], (isl_point *)a[1]); }},
{"isl_union_pw_qpolynomial_fold_extract_pw_qpolynomial_fold",'o',25,{{'k',48},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_fold_extract_pw_qpolynomial_fold((isl_union_pw_qpolynomial_fold *)a[0], (isl_space *)a[1]); }},
{"isl_union_pw_qpolynomial_fold_find_dim_by_name",'i',-1,{{'k',48},{'d',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_pw_qpolynomial_fold_find_dim_by_name((isl_union_pw_qpolynomial_fold *)a[0], (enum isl_dim_type)n[0], s[0]); return nullptr; }},
{"isl_union_pw_qpolynomial_fold_fold",'o',48,{{'t',48},{'t',48}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_fold_fold((isl_union_pw_qpolynomial_fold *)a[0], (isl_union_pw_qpolynomial_fold *)a[1]); }},
{"isl_union_pw_qpolynomial_fold_fold_pw_qpolynomial_fold",'o',48,{{'t',48},{'t',25}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_fold_fold_pw_qpolynomial_fold((isl_union_pw_qpolynomial_fold *)a[0], (isl_pw_qpolynomial_fold *)a[1]); }},
{"isl_union_pw_qpolynomial_fold_from_pw_qpolynomial_fold",'o',48,{{'t',25}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_fold_from_pw_qpolynomial_fold((isl_pw_qpolynomial_fold *)a[0]); }},
{"isl_union_pw_qpolynomial_fold_get_space",'o',36,{{'k',48}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_fold_get_space((isl_union_pw_qpolynomial_fold *)a[0]); }},
{"isl_union_pw_qpolynomial_fold_gist",'o',48,{{'t',48},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_fold_gist((isl_union_pw_qpolynomial_fold *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_pw_qpolynomial_fold_intersect_domain",'o',48,{{'t',48},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_fold_intersect_domain((isl_union_pw_qpolynomial_fold *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_pw_qpolynomial_fold_involves_nan",'b',-1,{{'k',48}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_pw_qpolynomial_fold_involves_nan((isl_union_pw_qpolynomial_fold *)a[0]); return nullptr; }},
{"isl_union_pw_qpolynomial_fold_n_pw_qpolynomial_fold",'z',-1,{{'k',48}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_pw_qpolynomial_fold_n_pw_qpolynomial_fold((isl_union_pw_qpolynomial_fold *)a[0]); return nullptr; }},
{"isl_union_pw_qpolynomial_fold_plain_is_equal",'b',-1,{{'k',48},{'k',48}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_pw_qpolynomial_fold_plain_is_equal((isl_union_pw_qpolynomial_fold *)a[0], (isl_union_pw_qpolynomial_fold *)a[1]); return nullptr; }},
{"isl_union_pw_qpolynomial_fold_zero",'o',48,{{'t',36},{'e',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_fold_zero((isl_space *)a[0], (enum isl_fold)n[0]); }},
{"isl_union_pw_qpolynomial_from_pw_qpolynomial",'o',47,{{'t',24}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_from_pw_qpolynomial((isl_pw_qpolynomial *)a[0]); }},
{"isl_union_pw_qpolynomial_get_space",'o',36,{{'k',47}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_get_space((isl_union_pw_qpolynomial *)a[0]); }},
{"isl_union_pw_qpolynomial_gist",'o',47,{{'t',47},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_gist((isl_union_pw_qpolynomial *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_pw_qpolynomial_gist_params",'o',47,{{'t',47},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_gist_params((isl_union_pw_qpolynomial *)a[0], (isl_set *)a[1]); }},
{"isl_union_pw_qpolynomial_intersect_domain",'o',47,{{'t',47},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_intersect_domain((isl_union_pw_qpolynomial *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_pw_qpolynomial_intersect_params",'o',47,{{'t',47},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_intersect_params((isl_union_pw_qpolynomial *)a[0], (isl_set *)a[1]); }},
{"isl_union_pw_qpolynomial_involves_nan",'b',-1,{{'k',47}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_pw_qpolynomial_involves_nan((isl_union_pw_qpolynomial *)a[0]); return nullptr; }},
{"isl_union_pw_qpolynomial_mul",'o',47,{{'t',47},{'t',47}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_mul((isl_union_pw_qpolynomial *)a[0], (isl_union_pw_qpolynomial *)a[1]); }},
{"isl_union_pw_qpolynomial_n_pw_qpolynomial",'z',-1,{{'k',47}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_pw_qpolynomial_n_pw_qpolynomial((isl_union_pw_qpolynomial *)a[0]); return nullptr; }},
{"isl_union_pw_qpolynomial_neg",'o',47,{{'t',47}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_neg((isl_union_pw_qpolynomial *)a[0]); }},
{"isl_union_pw_qpolynomial_plain_is_equal",'b',-1,{{'k',47},{'k',47}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_pw_qpolynomial_plain_is_equal((isl_union_pw_qpolynomial *)a[0], (isl_union_pw_qpolynomial *)a[1]); return nullptr; }},
{"isl_union_pw_qpolynomial_reset_user",'o',47,{{'t',47}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_reset_user((isl_union_pw_qpolynomial *)a[0]); }},
{"isl_union_pw_qpolynomial_scale_down_val",'o',47,{{'t',47},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_scale_down_val((isl_union_pw_qpolynomial *)a[0], (isl_val *)a[1]); }},
{"isl_union_pw_qpolynomial_scale_val",'o',47,{{'t',47},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_scale_val((isl_union_pw_qpolynomial *)a[0], (isl_val *)a[1]); }},
{"isl_union_pw_qpolynomial_set_dim_name",'o',47,{{'t',47},{'d',0},{'p',0},{'s',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_set_dim_name((isl_union_pw_qpolynomial *)a[0], (enum isl_dim_type)n[0], n[1], s[0]); }},
{"isl_union_pw_qpolynomial_sub",'o',47,{{'t',47},{'t',47}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_sub((isl_union_pw_qpolynomial *)a[0], (isl_union_pw_qpolynomial *)a[1]); }},
{"isl_union_pw_qpolynomial_subtract_domain",'o',47,{{'t',47},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_subtract_domain((isl_union_pw_qpolynomial *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_pw_qpolynomial_to_polynomial",'o',47,{{'t',47},{'i',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_to_polynomial((isl_union_pw_qpolynomial *)a[0], n[0]); }},
{"isl_union_pw_qpolynomial_zero",'o',47,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_zero((isl_space *)a[0]); }},
{"isl_union_pw_qpolynomial_zero_ctx",'o',47,{{'c',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_zero_ctx(ctx); }},
{"isl_union_pw_qpolynomial_zero_space",'o',47,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_pw_qpolynomial_zero_space((isl_space *)a[0]); }},
{"isl_union_set_add_set",'o',49,{{'t',49},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_add_set((isl_union_set *)a[0], (isl_set *)a[1]); }},
{"isl_union_set_affine_hull",'o',49,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_affine_hull((isl_union_set *)a[0]); }},
{"isl_union_set_align_params",'o',49,{{'t',49},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_align_params((isl_union_set *)a[0], (isl_space *)a[1]); }},
{"isl_union_set_apply",'o',49,{{'t',49},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_apply((isl_union_set *)a[0], (isl_union_map *)a[1]); }},
{"isl_union_set_as_set",'o',34,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_as_set((isl_union_set *)a[0]); }},
{"isl_union_set_coalesce",'o',49,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_coalesce((isl_union_set *)a[0]); }},
{"isl_union_set_coefficients",'o',49,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_coefficients((isl_union_set *)a[0]); }},
{"isl_union_set_compute_divs",'o',49,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_compute_divs((isl_union_set *)a[0]); }},
{"isl_union_set_compute_schedule",'o',31,{{'t',49},{'t',41},{'t',41}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_compute_schedule((isl_union_set *)a[0], (isl_union_map *)a[1], (isl_union_map *)a[2]); }},
{"isl_union_set_contains",'b',-1,{{'k',49},{'k',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_set_contains((isl_union_set *)a[0], (isl_space *)a[1]); return nullptr; }},
{"isl_union_set_detect_equalities",'o',49,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_detect_equalities((isl_union_set *)a[0]); }},
{"isl_union_set_dim",'z',-1,{{'k',49},{'d',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_set_dim((isl_union_set *)a[0], (enum isl_dim_type)n[0]); return nullptr; }},
{"isl_union_set_empty",'o',49,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_empty((isl_space *)a[0]); }},
{"isl_union_set_empty_ctx",'o',49,{{'c',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_empty_ctx(ctx); }},
{"isl_union_set_empty_space",'o',49,{{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_empty_space((isl_space *)a[0]); }},
{"isl_union_set_extract_set",'o',34,{{'k',49},{'t',36}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_extract_set((isl_union_set *)a[0], (isl_space *)a[1]); }},
{"isl_union_set_from_basic_set",'o',49,{{'t',4}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_from_basic_set((isl_basic_set *)a[0]); }},
{"isl_union_set_from_point",'o',49,{{'t',19}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_from_point((isl_point *)a[0]); }},
{"isl_union_set_from_set",'o',49,{{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_from_set((isl_set *)a[0]); }},
{"isl_union_set_get_basic_set_list",'o',5,{{'k',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_get_basic_set_list((isl_union_set *)a[0]); }},
{"isl_union_set_get_set_list",'o',35,{{'k',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_get_set_list((isl_union_set *)a[0]); }},
{"isl_union_set_get_space",'o',36,{{'k',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_get_space((isl_union_set *)a[0]); }},
{"isl_union_set_gist",'o',49,{{'t',49},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_gist((isl_union_set *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_set_gist_params",'o',49,{{'t',49},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_gist_params((isl_union_set *)a[0], (isl_set *)a[1]); }},
{"isl_union_set_identity",'o',41,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_identity((isl_union_set *)a[0]); }},
{"isl_union_set_identity_union_pw_multi_aff",'o',45,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_identity_union_pw_multi_aff((isl_union_set *)a[0]); }},
{"isl_union_set_intersect",'o',49,{{'t',49},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_intersect((isl_union_set *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_set_intersect_params",'o',49,{{'t',49},{'t',34}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_intersect_params((isl_union_set *)a[0], (isl_set *)a[1]); }},
{"isl_union_set_is_disjoint",'b',-1,{{'k',49},{'k',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_set_is_disjoint((isl_union_set *)a[0], (isl_union_set *)a[1]); return nullptr; }},
{"isl_union_set_is_empty",'b',-1,{{'k',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_set_is_empty((isl_union_set *)a[0]); return nullptr; }},
{"isl_union_set_is_equal",'b',-1,{{'k',49},{'k',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_set_is_equal((isl_union_set *)a[0], (isl_union_set *)a[1]); return nullptr; }},
{"isl_union_set_is_params",'b',-1,{{'k',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_set_is_params((isl_union_set *)a[0]); return nullptr; }},
{"isl_union_set_is_strict_subset",'b',-1,{{'k',49},{'k',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_set_is_strict_subset((isl_union_set *)a[0], (isl_union_set *)a[1]); return nullptr; }},
{"isl_union_set_is_subset",'b',-1,{{'k',49},{'k',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_set_is_subset((isl_union_set *)a[0], (isl_union_set *)a[1]); return nullptr; }},
{"isl_union_set_isa_set",'b',-1,{{'k',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_set_isa_set((isl_union_set *)a[0]); return nullptr; }},
{"isl_union_set_lex_ge_union_set",'o',41,{{'t',49},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_lex_ge_union_set((isl_union_set *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_set_lex_gt_union_set",'o',41,{{'t',49},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_lex_gt_union_set((isl_union_set *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_set_lex_le_union_set",'o',41,{{'t',49},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_lex_le_union_set((isl_union_set *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_set_lex_lt_union_set",'o',41,{{'t',49},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_lex_lt_union_set((isl_union_set *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_set_lexmax",'o',49,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_lexmax((isl_union_set *)a[0]); }},
{"isl_union_set_lexmin",'o',49,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_lexmin((isl_union_set *)a[0]); }},
{"isl_union_set_lift",'o',49,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_lift((isl_union_set *)a[0]); }},
{"isl_union_set_list_add",'o',50,{{'t',50},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_list_add((isl_union_set_list *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_set_list_alloc",'o',50,{{'c',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_list_alloc(ctx, n[0]); }},
{"isl_union_set_list_clear",'o',50,{{'t',50}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_list_clear((isl_union_set_list *)a[0]); }},
{"isl_union_set_list_concat",'o',50,{{'t',50},{'t',50}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_list_concat((isl_union_set_list *)a[0], (isl_union_set_list *)a[1]); }},
{"isl_union_set_list_drop",'o',50,{{'t',50},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_list_drop((isl_union_set_list *)a[0], n[0], n[1]); }},
{"isl_union_set_list_from_union_set",'o',50,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_list_from_union_set((isl_union_set *)a[0]); }},
{"isl_union_set_list_get_at",'o',49,{{'k',50},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_list_get_at((isl_union_set_list *)a[0], n[0]); }},
{"isl_union_set_list_get_union_set",'o',49,{{'k',50},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_list_get_union_set((isl_union_set_list *)a[0], n[0]); }},
{"isl_union_set_list_insert",'o',50,{{'t',50},{'p',0},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_list_insert((isl_union_set_list *)a[0], n[0], (isl_union_set *)a[1]); }},
{"isl_union_set_list_n_union_set",'z',-1,{{'k',50}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_set_list_n_union_set((isl_union_set_list *)a[0]); return nullptr; }},
{"isl_union_set_list_reverse",'o',50,{{'t',50}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_list_reverse((isl_union_set_list *)a[0]); }},
{"isl_union_set_list_set_union_set",'o',50,{{'t',50},{'p',0},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_list_set_union_set((isl_union_set_list *)a[0], n[0], (isl_union_set *)a[1]); }},
{"isl_union_set_list_size",'z',-1,{{'k',50}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_set_list_size((isl_union_set_list *)a[0]); return nullptr; }},
{"isl_union_set_list_swap",'o',50,{{'t',50},{'p',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_list_swap((isl_union_set_list *)a[0], n[0], n[1]); }},
{"isl_union_set_list_union",'o',49,{{'t',50}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_list_union((isl_union_set_list *)a[0]); }},
{"isl_union_set_min_multi_union_pw_aff",'o',18,{{'k',49},{'k',17}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_min_multi_union_pw_aff((isl_union_set *)a[0], (isl_multi_union_pw_aff *)a[1]); }},
{"isl_union_set_n_set",'z',-1,{{'k',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_union_set_n_set((isl_union_set *)a[0]); return nullptr; }},
{"isl_union_set_params",'o',34,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_params((isl_union_set *)a[0]); }},
{"isl_union_set_polyhedral_hull",'o',49,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_polyhedral_hull((isl_union_set *)a[0]); }},
{"isl_union_set_preimage_multi_aff",'o',49,{{'t',49},{'t',14}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_preimage_multi_aff((isl_union_set *)a[0], (isl_multi_aff *)a[1]); }},
{"isl_union_set_preimage_pw_multi_aff",'o',49,{{'t',49},{'t',22}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_preimage_pw_multi_aff((isl_union_set *)a[0], (isl_pw_multi_aff *)a[1]); }},
{"isl_union_set_preimage_union_pw_multi_aff",'o',49,{{'t',49},{'t',45}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_preimage_union_pw_multi_aff((isl_union_set *)a[0], (isl_union_pw_multi_aff *)a[1]); }},
{"isl_union_set_product",'o',49,{{'t',49},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_product((isl_union_set *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_set_project_out",'o',49,{{'t',49},{'d',0},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_project_out((isl_union_set *)a[0], (enum isl_dim_type)n[0], n[1], n[2]); }},
{"isl_union_set_project_out_all_params",'o',49,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_project_out_all_params((isl_union_set *)a[0]); }},
{"isl_union_set_remove_divs",'o',49,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_remove_divs((isl_union_set *)a[0]); }},
{"isl_union_set_remove_redundancies",'o',49,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_remove_redundancies((isl_union_set *)a[0]); }},
{"isl_union_set_reset_user",'o',49,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_reset_user((isl_union_set *)a[0]); }},
{"isl_union_set_sample",'o',4,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_sample((isl_union_set *)a[0]); }},
{"isl_union_set_sample_point",'o',19,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_sample_point((isl_union_set *)a[0]); }},
{"isl_union_set_simple_hull",'o',49,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_simple_hull((isl_union_set *)a[0]); }},
{"isl_union_set_solutions",'o',49,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_solutions((isl_union_set *)a[0]); }},
{"isl_union_set_subtract",'o',49,{{'t',49},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_subtract((isl_union_set *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_set_to_list",'o',50,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_to_list((isl_union_set *)a[0]); }},
{"isl_union_set_union",'o',49,{{'t',49},{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_union((isl_union_set *)a[0], (isl_union_set *)a[1]); }},
{"isl_union_set_universe",'o',49,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_universe((isl_union_set *)a[0]); }},
{"isl_union_set_unwrap",'o',41,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_unwrap((isl_union_set *)a[0]); }},
{"isl_union_set_wrapped_domain_map",'o',41,{{'t',49}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_union_set_wrapped_domain_map((isl_union_set *)a[0]); }},
{"isl_val_2exp",'o',51,{{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_2exp((isl_val *)a[0]); }},
{"isl_val_abs",'o',51,{{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_abs((isl_val *)a[0]); }},
{"isl_val_abs_eq",'b',-1,{{'k',51},{'k',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_abs_eq((isl_val *)a[0], (isl_val *)a[1]); return nullptr; }},
{"isl_val_add",'o',51,{{'t',51},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_add((isl_val *)a[0], (isl_val *)a[1]); }},
{"isl_val_add_ui",'o',51,{{'t',51},{'u',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_add_ui((isl_val *)a[0], n[0]); }},
{"isl_val_ceil",'o',51,{{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_ceil((isl_val *)a[0]); }},
{"isl_val_cmp_si",'i',-1,{{'k',51},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_cmp_si((isl_val *)a[0], n[0]); return nullptr; }},
{"isl_val_div",'o',51,{{'t',51},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_div((isl_val *)a[0], (isl_val *)a[1]); }},
{"isl_val_div_ui",'o',51,{{'t',51},{'u',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_div_ui((isl_val *)a[0], n[0]); }},
{"isl_val_eq",'b',-1,{{'k',51},{'k',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_eq((isl_val *)a[0], (isl_val *)a[1]); return nullptr; }},
{"isl_val_eq_si",'b',-1,{{'k',51},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_eq_si((isl_val *)a[0], n[0]); return nullptr; }},
{"isl_val_floor",'o',51,{{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_floor((isl_val *)a[0]); }},
{"isl_val_gcd",'o',51,{{'t',51},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_gcd((isl_val *)a[0], (isl_val *)a[1]); }},
{"isl_val_ge",'b',-1,{{'k',51},{'k',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_ge((isl_val *)a[0], (isl_val *)a[1]); return nullptr; }},
{"isl_val_get_den_si",'i',-1,{{'k',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_get_den_si((isl_val *)a[0]); return nullptr; }},
{"isl_val_get_den_val",'o',51,{{'k',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_get_den_val((isl_val *)a[0]); }},
{"isl_val_get_num_si",'i',-1,{{'k',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_get_num_si((isl_val *)a[0]); return nullptr; }},
{"isl_val_gt",'b',-1,{{'k',51},{'k',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_gt((isl_val *)a[0], (isl_val *)a[1]); return nullptr; }},
{"isl_val_gt_si",'b',-1,{{'k',51},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_gt_si((isl_val *)a[0], n[0]); return nullptr; }},
{"isl_val_infty",'o',51,{{'c',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_infty(ctx); }},
{"isl_val_int_from_si",'o',51,{{'c',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_int_from_si(ctx, n[0]); }},
{"isl_val_int_from_ui",'o',51,{{'c',0},{'u',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_int_from_ui(ctx, n[0]); }},
{"isl_val_inv",'o',51,{{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_inv((isl_val *)a[0]); }},
{"isl_val_is_divisible_by",'b',-1,{{'k',51},{'k',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_is_divisible_by((isl_val *)a[0], (isl_val *)a[1]); return nullptr; }},
{"isl_val_is_infty",'b',-1,{{'k',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_is_infty((isl_val *)a[0]); return nullptr; }},
{"isl_val_is_int",'b',-1,{{'k',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_is_int((isl_val *)a[0]); return nullptr; }},
{"isl_val_is_nan",'b',-1,{{'k',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_is_nan((isl_val *)a[0]); return nullptr; }},
{"isl_val_is_neg",'b',-1,{{'k',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_is_neg((isl_val *)a[0]); return nullptr; }},
{"isl_val_is_neginfty",'b',-1,{{'k',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_is_neginfty((isl_val *)a[0]); return nullptr; }},
{"isl_val_is_negone",'b',-1,{{'k',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_is_negone((isl_val *)a[0]); return nullptr; }},
{"isl_val_is_nonneg",'b',-1,{{'k',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_is_nonneg((isl_val *)a[0]); return nullptr; }},
{"isl_val_is_nonpos",'b',-1,{{'k',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_is_nonpos((isl_val *)a[0]); return nullptr; }},
{"isl_val_is_one",'b',-1,{{'k',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_is_one((isl_val *)a[0]); return nullptr; }},
{"isl_val_is_pos",'b',-1,{{'k',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_is_pos((isl_val *)a[0]); return nullptr; }},
{"isl_val_is_rat",'b',-1,{{'k',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_is_rat((isl_val *)a[0]); return nullptr; }},
{"isl_val_is_zero",'b',-1,{{'k',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_is_zero((isl_val *)a[0]); return nullptr; }},
{"isl_val_le",'b',-1,{{'k',51},{'k',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_le((isl_val *)a[0], (isl_val *)a[1]); return nullptr; }},
{"isl_val_list_add",'o',52,{{'t',52},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_list_add((isl_val_list *)a[0], (isl_val *)a[1]); }},
{"isl_val_list_alloc",'o',52,{{'c',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_list_alloc(ctx, n[0]); }},
{"isl_val_list_clear",'o',52,{{'t',52}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_list_clear((isl_val_list *)a[0]); }},
{"isl_val_list_concat",'o',52,{{'t',52},{'t',52}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_list_concat((isl_val_list *)a[0], (isl_val_list *)a[1]); }},
{"isl_val_list_drop",'o',52,{{'t',52},{'p',0},{'n',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_list_drop((isl_val_list *)a[0], n[0], n[1]); }},
{"isl_val_list_from_val",'o',52,{{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_list_from_val((isl_val *)a[0]); }},
{"isl_val_list_get_at",'o',51,{{'k',52},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_list_get_at((isl_val_list *)a[0], n[0]); }},
{"isl_val_list_get_val",'o',51,{{'k',52},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_list_get_val((isl_val_list *)a[0], n[0]); }},
{"isl_val_list_insert",'o',52,{{'t',52},{'p',0},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_list_insert((isl_val_list *)a[0], n[0], (isl_val *)a[1]); }},
{"isl_val_list_n_val",'z',-1,{{'k',52}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_list_n_val((isl_val_list *)a[0]); return nullptr; }},
{"isl_val_list_reverse",'o',52,{{'t',52}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_list_reverse((isl_val_list *)a[0]); }},
{"isl_val_list_set_val",'o',52,{{'t',52},{'p',0},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_list_set_val((isl_val_list *)a[0], n[0], (isl_val *)a[1]); }},
{"isl_val_list_size",'z',-1,{{'k',52}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_list_size((isl_val_list *)a[0]); return nullptr; }},
{"isl_val_list_swap",'o',52,{{'t',52},{'p',0},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_list_swap((isl_val_list *)a[0], n[0], n[1]); }},
{"isl_val_lt",'b',-1,{{'k',51},{'k',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_lt((isl_val *)a[0], (isl_val *)a[1]); return nullptr; }},
{"isl_val_max",'o',51,{{'t',51},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_max((isl_val *)a[0], (isl_val *)a[1]); }},
{"isl_val_min",'o',51,{{'t',51},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_min((isl_val *)a[0], (isl_val *)a[1]); }},
{"isl_val_mod",'o',51,{{'t',51},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_mod((isl_val *)a[0], (isl_val *)a[1]); }},
{"isl_val_mul",'o',51,{{'t',51},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_mul((isl_val *)a[0], (isl_val *)a[1]); }},
{"isl_val_mul_ui",'o',51,{{'t',51},{'u',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_mul_ui((isl_val *)a[0], n[0]); }},
{"isl_val_nan",'o',51,{{'c',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_nan(ctx); }},
{"isl_val_ne",'b',-1,{{'k',51},{'k',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_ne((isl_val *)a[0], (isl_val *)a[1]); return nullptr; }},
{"isl_val_neg",'o',51,{{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_neg((isl_val *)a[0]); }},
{"isl_val_neginfty",'o',51,{{'c',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_neginfty(ctx); }},
{"isl_val_negone",'o',51,{{'c',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_negone(ctx); }},
{"isl_val_one",'o',51,{{'c',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_one(ctx); }},
{"isl_val_pow2",'o',51,{{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_pow2((isl_val *)a[0]); }},
{"isl_val_set_si",'o',51,{{'t',51},{'p',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_set_si((isl_val *)a[0], n[0]); }},
{"isl_val_sgn",'i',-1,{{'k',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; *r = isl_val_sgn((isl_val *)a[0]); return nullptr; }},
{"isl_val_sub",'o',51,{{'t',51},{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_sub((isl_val *)a[0], (isl_val *)a[1]); }},
{"isl_val_sub_ui",'o',51,{{'t',51},{'u',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_sub_ui((isl_val *)a[0], n[0]); }},
{"isl_val_to_list",'o',52,{{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_to_list((isl_val *)a[0]); }},
{"isl_val_trunc",'o',51,{{'t',51}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_trunc((isl_val *)a[0]); }},
{"isl_val_zero",'o',51,{{'c',0}},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; return isl_val_zero(ctx); }},
#endif
