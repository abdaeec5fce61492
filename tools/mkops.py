#!/usr/bin/env python3
"""Generates harness/ops_table.inc: a table of the public isl functions that can be
called on generated objects, from the preprocessed public headers. The result is committed."""
import os, re, subprocess, sys
R = "/repo"; V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIPH = {"val_gmp.h", "hmap.h", "maybe.h", "maybe_templ.h", "maybe_ast_expr.h", "maybe_basic_set.h", "maybe_id.h", "maybe_pw_aff.h", "version.h",
         "id_to_ast_expr.h", "map_to_basic_set.h", "stream.h", "obj.h", "arg.h", "ast.h", "ast_type.h", "ast_build.h", "multi.h", "list.h", "hmap_templ.c"}
src = "".join(f"#include <isl/{h}>\n" for h in sorted(os.listdir(R + "/include/isl")) if h.endswith(".h") and h not in SKIPH)
pre = subprocess.run(["gcc", "-E", "-P", "-D__isl_give=GIVE_", "-D__isl_take=TAKE_", "-D__isl_keep=KEEP_", "-D__isl_null=NULL_",
                      f"-I{R}/_build/include", f"-I{R}/include", "-xc", "-"], input=src, capture_output=True, text=True).stdout
pre = re.sub(r"__attribute__\s*\(\(.*?\)\)", "", pre)
pre = re.sub(r"\bstruct (isl_\w+)\b", r"\1", pre)
pre = re.sub(r"\s+", " ", pre)
decls = re.findall(r"((?:GIVE_ |NULL_ |const )?(?:unsigned )?\w+ \**)(isl_\w+)\(([^;{}]*)\);", pre)
funcs = {}
for ret, name, args in decls:
    if "(*" in args: continue
    funcs[name] = (" ".join(ret.split()), [a.strip() for a in args.split(",")])
types = sorted({m.group(1) for n in funcs for m in [re.match(r"isl_(\w+)_copy$", n)] if m and f"isl_{m.group(1)}_free" in funcs})
types = [t for t in types if t not in ("ast_print_options", "mat", "vec", "id_to_id", "id_to_pw_aff", "morph")]
T = {t: i for i, t in enumerate(types)}
SKIP = re.compile(r"(_free|_copy|_dump|_get_ctx|_read_from_file|_print_\w+|_to_str|_set_user|_get_user|_get_free_user|_get_user\w*)$|^isl_(ctx|options|printer|arg|stream|hmap|obj|vec|mat|handle|args)_|"
                  r"read_from|foreach|_from_gmp|get_d$|_get_num_gmp|isl_\w+_print|_get_hash|isl_val_chunks|get_abs_num_chunks|_n_abs_num_chunks|hash|gmp|_fn$|solve_lp|_lp_|"
                  r"union_disjoint$|isl_set_size|isl_map_get_dim_hash|isl_val_int_from_chunks|schedule_node_(first_child|get_ancestor)|isl_id_list_to")
out, n, names = [], 0, []
def conv(a):
    m = re.match(r"(TAKE_|KEEP_) (?:const )?isl_(\w+) \*\s*(\w*)$", a)
    if m:
        if m.group(2) in T: return ("t" if m.group(1) == "TAKE_" else "k", T[m.group(2)], m.group(2))
        return None
    if re.match(r"enum isl_dim_type", a): return ("d", 0, None)
    m = re.match(r"(unsigned int|unsigned|int|long|unsigned long|uint32_t|isl_bool)\s*(\w*)$", a)
    if m:
        v = m.group(2)
        if re.match(r"(n|n_\w+|max)$", v): k = "n"
        elif re.match(r"(\w*pos\d?|first|index|i|dim|src_pos|dst_pos|pos1|pos2|column|row|depth)$", v): k = "p"
        elif m.group(1).startswith("unsigned"): k = "u"
        else: k = "i"
        return (k, 0, m.group(1))
    if re.match(r"const char \*\s*\w*$", a): return ("s", 0, None)
    if re.match(r"(enum isl_fold|enum isl_ast_loop_type)", a): return ("e", 0, a.rsplit(" ", 1)[0])
    if re.match(r"isl_ctx \*", a): return ("c", 0, None)
    return None
for name in sorted(funcs):
    ret, args = funcs[name]
    if SKIP.search(name): continue
    if args == ["void"]: continue
    m = re.match(r"(GIVE_ )?isl_(\w+) \*$", ret)
    if m and m.group(2) in T and ret.startswith("GIVE_"): rk, rt = "o", T[m.group(2)]
    elif ret == "isl_bool": rk, rt = "b", -1
    elif ret == "isl_size": rk, rt = "z", -1
    elif ret in ("int", "unsigned", "long"): rk, rt = "i", -1
    elif ret == "const char *": rk, rt = "s", -1
    elif ret == "GIVE_ char *": rk, rt = "S", -1
    else: continue
    cv = [conv(a) for a in args]
    if any(x is None for x in cv): continue
    if not any(x[0] in "tk" for x in cv) and not (rk == "o" and cv and cv[0][0] == "c"): continue
    ca, oi, ni, si = [], 0, 0, 0
    for k, t, nm in cv:
        if k in "tk": ca.append(f"(isl_{nm} *)a[{oi}]"); oi += 1
        elif k == "d": ca.append(f"(enum isl_dim_type)n[{ni}]"); ni += 1
        elif k == "e": ca.append(f"({nm})n[{ni}]"); ni += 1
        elif k == "s": ca.append(f"s[{si}]"); si += 1
        elif k == "c": ca.append("ctx")
        elif nm == "isl_bool": ca.append(f"(isl_bool)(n[{ni}] & 1)"); ni += 1
        else: ca.append(f"n[{ni}]"); ni += 1
    if oi > 4 or ni > 5: continue
    call = f"{name}({', '.join(ca)})"
    if rk == "o": body = f"return {call};"
    elif rk in "bzi": body = f"*r = {call}; return nullptr;"
    else: body = f"return (void *){call};"
    sig = ",".join("{'%s',%d}" % (k, t) for k, t, nm in cv)
    out.append("{\"%s\",'%s',%d,{%s},[](isl_ctx *ctx, void **a, const long *n, const char **s, long *r) -> void * { (void)ctx; (void)a; (void)n; (void)s; (void)r; %s }}," % (name, rk, rt, sig, body))
    names.append(name)
o = ["// generated by tools/mkops.py from the public headers", "#ifdef OPS_TYPES"]
for t in types:
    st = f"[](void *p) -> char * {{ return isl_{t}_to_str((isl_{t} *)p); }}" if f"isl_{t}_to_str" in funcs else "nullptr"
    eq = "nullptr"; kind = 0
    for k, f in enumerate([f"isl_{t}_is_equal", f"isl_{t}_plain_is_equal", f"isl_{t}_eq"]):
        if f in funcs: eq = f"[](void *p, void *q) -> int {{ return {f}((isl_{t} *)p, (isl_{t} *)q); }}"; kind = k + 1; break
    dim = f"[](void *p, int d) -> int {{ return isl_{t}_dim((isl_{t} *)p, (enum isl_dim_type)d); }}" if f"isl_{t}_dim" in funcs and len(funcs[f"isl_{t}_dim"][1]) == 2 else "nullptr"
    rd = f"[](isl_ctx *c, const char *s) -> void * {{ return isl_{t}_read_from_str(c, s); }}" if re.search(rf"isl_{t}_read_from_str\(", pre) else "nullptr"
    sp = f"[](void *p) -> isl_space * {{ return isl_{t}_get_space((isl_{t} *)p); }}" if f"isl_{t}_get_space" in funcs else "nullptr"
    n_ = f"[](void *p) -> int {{ return isl_{t}_size((isl_{t} *)p); }}" if f"isl_{t}_size" in funcs else "nullptr"
    o.append(f'{{"{t}",[](void *p) -> void * {{ return isl_{t}_copy((isl_{t} *)p); }},[](void *p) {{ isl_{t}_free((isl_{t} *)p); }},{st},{eq},{kind},{dim},{rd},{sp},{n_}}},')
o += ["#endif", "#ifdef OPS_OPS"] + out + ["#endif"]
open(V + "/harness/ops_table.inc", "w").write("\n".join(o) + "\n")
print(len(types), "types", len(out), "operations")
