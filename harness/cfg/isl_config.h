/* Configuration used for the harness builds of the library (gcc/clang on Linux, GMP). */
#define GCC_WARN_UNUSED_RESULT __attribute__((__warn_unused_result__))
#define HAVE_CXX11 1
#define HAVE_CXX17 1
#define HAVE_DECL_FFS 1
#define HAVE_DECL_MP_GET_MEMORY_FUNCTIONS 1
#define HAVE_DECL_SNPRINTF 1
#define HAVE_DECL_STRCASECMP 1
#define HAVE_DECL_STRNCASECMP 1
#define HAVE_DECL__BITSCANFORWARD 0
#define HAVE_DECL__SNPRINTF 0
#define HAVE_DECL__STRICMP 0
#define HAVE_DECL__STRNICMP 0
#define HAVE_DECL___BUILTIN_FFS 1
#define HAVE_DLFCN_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_LIBGMP 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define HAVE___ATTRIBUTE__ 1
#define PACKAGE "isl"
#define PACKAGE_BUGREPORT "isl-development@googlegroups.com"
#define PACKAGE_NAME "isl"
#define PACKAGE_STRING "isl 0.25"
#define PACKAGE_TARNAME "isl"
#define PACKAGE_URL ""
#define PACKAGE_VERSION "0.25"
#define STDC_HEADERS 1
#define USE_GMP_FOR_MP /**/
#define VERSION "0.25"
#include <isl_config_post.h>
