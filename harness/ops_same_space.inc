	"isl_basic_map_gist", "isl_basic_set_gist", "isl_set_gist", "isl_map_gist", "isl_set_gist_basic_set", "isl_map_gist_basic_map",
