// C15: arbitrary text is either rejected cleanly or read as a valid object.
// Run under AddressSanitizer and UndefinedBehaviorSanitizer with a census of
// the library's memory blocks.
#include "ops.h"
#include "notation.h"
#include <cstring>
#include <isl/schedule.h>
#include <isl/stream.h>
#include <isl/obj.h>
#include <isl/flow.h>

using namespace vp;
#define R_(e) R(c, e, #e)
#include "sig.inc"
#include "reread.inc"
static std::string take(char *s) { if (!s) return "NULL"; std::string r = s; free(s); return r; }
#include "textgen.inc"

static const struct { const char *t, *s; } corpus[] = {
	{"schedule", "{ domain: \"[n] -> { A[i] : 0 <= i < n; B[i,j] }\", child: { context: \"[n] -> { [] : n > 3 }\", child: { sequence: [ { filter: \"{ A[i] }\", child: { mark: \"m\" } }, { filter: \"{ B[i,j] }\", child: { guard: \"[n] -> { : n > 4 }\", child: { schedule: \"[{ B[i,j] -> [(i)] }, { B[i,j] -> [(j)] }]\", permutable: 1, coincident: [ 1, 0 ], options: \"{ separate[x] : x > 3; atomic[0] }\" } } } ] } } }"},
	{"schedule", "{ domain: \"{ A[i] }\", child: { set: [ { filter: \"{ A[i] : i > 3 }\", child: { expansion: \"{ A[i] -> B[i,j] : j > 3 }\", contraction: \"{ B[i,j] -> A[i] }\" } }, { filter: \"{ A[i] : i <= 3 }\", child: { extension: \"{ [] -> C[3] }\" } } ] } }"},
	{"schedule", "domain: \"{ A[i] : 0 <= i <= 7 }\"\nchild:\n  schedule: \"[{ A[i] -> [(i)] }]\"\n  permutable: 1\n  coincident: [ 1 ]\n  child:\n    sequence:\n    - filter: \"{ A[i] : i > 2 }\"\n    - filter: \"{ A[i] : i <= 2 }\"\n"},
	{"schedule_constraints", "{ domain: \"{ A[i] }\", context: \"{ : }\", validity: \"{ A[i] -> A[i + 1] }\", coincidence: \"{ A[i] -> A[i] }\", condition: \"{ [A[i] -> B[]] -> [A[i] -> B[]] }\", \"conditional validity\": \"{ A[i] -> A[i + 1] }\", proximity: \"{ A[i] -> A[i + 2] }\" }"},
	{"multi_id", "{ A[a, b, \"c d\"] }"}, {"id", "A"}, {"id", "\"x y\""}, {"id_list", "(a, b, c)"},
	{"val", "-5/3"}, {"val", "infty"}, {"val", "-infty"}, {"val", "NaN"}, {"val_list", "(1, -2/3, infty)"},
	{"multi_val", "[n] -> { A[1, -2/3] }"}, {"multi_val", "{ [infty, NaN] }"},
	{"space", "[n] -> { A[x] -> [B[] -> C[y]] }"}, {"space", "[n] -> { : }"}, {"space", "{ A[x, y] }"},
	{"pw_qpolynomial_fold", "[n] -> { [i] -> max(3 * i^2, n * i - 1/2) : i > 0; [i] -> max(0) : i <= 0 }"},
	{"pw_qpolynomial", "[n] -> { [i] -> (1/2 * n * i^3 + floor((i + n)/3)^2) : i > 0 }"},
	{"pw_aff", "[n] -> { [i] -> [i > 3 ? n : i < 2 ? 4 : -i] }"}, {"pw_aff", "[n] -> { [i] -> [(floor((i + [n/3])/4) + 1)/2] : i > 0 }"},
	{"set", "{ [i, j] : exists (e = [i/3], f : i - 3 e <= 2 and f = 2j) or (i, j) in { [x, y] : x > y } }"},
	{"set", "[N] -> { [i] : i << 3 or (not (i >= 4 implies i = N)) }"}, {"set", "{ rat: [i] : 2i = 1 }"},
	{"set", "{ [i = 0:10, j = 0:i] }"}, {"set", "{ A[B[i, *] -> C[]] : i % 3 = 1 and i mod 4 <= 2 and -5 <= i, 3 < 7 }"},
	{"set", "2\n3 4\n1 1 0 0\n1 -1 0 5\n0 0 1 2\n1 3\n1 1 0\n"}, {"map", "1\n2 6 1 1 1 1\n1 1 0 0 -1 3\n0 1 -1 2 0 0\n"}, {"set", "3 5\n1 1 0 0 0\n1 -1 0 1 0\n1 0 1 0 0\n"},
	{"map", "{ A[i] -> B[i'] : (exists a, b : i' = a + 2b and 0 <= a < 7) }"}, {"map", "{ [i, j] -> [-i + floord(j, 3), ceild(i, 2)] : min(i, j) > max(3, -j) }"},
	{"union_map", "{ A[i] -> B[]; [A[i] -> B[]] -> C[2, i] : i > 3; [] -> [] }"}, {"union_set", "[a, b] -> { A[]; B[a]; [C[] -> D[i]] : i > b }"},
	{"union_pw_aff", "{ A[i] -> [(i)] : i > 3; B[] -> [(2)] }"}, {"multi_union_pw_aff", "C[{ A[i] -> [(i)]; B[] -> [(2)] }, { A[i] -> [(-i)] }]"}, {"multi_union_pw_aff", "([] : { A[i] : i > 3 })"},
	{"union_pw_multi_aff", "{ A[i] -> B[i]; C[] -> [D[] -> E[2]] }"}, {"multi_pw_aff", "{ [i] -> A[(i : i > 3; -i : i < 0), 4] }"}, {"multi_pw_aff", "{ [i] -> [] : i > 3 }"},
	{"union_pw_qpolynomial", "{ A[i] -> i * i; B[] -> 3/4 }"}, {"aff_list", "({ A[i] -> [(i)] }, { A[i] -> [(2)] })"}, {"set_list", "({ A[] }, { B[i] : i > 3 })"},
	{"pw_multi_aff", "{ A[i, j] -> B[i + 1, [j/2]] : i > 0; A[i, j] -> B[0, 0] : i < 0 }"}, {"multi_aff", "[n] -> { A[i] -> [B[i] -> C[n]] }"}, {"aff", "{ A[i] -> [(i + 3)/7] }"},
};
static const char *const dict[] = {"{", "}", "[", "]", "(", ")", "->", ":", ";", ",", "=", "!=", "<", ">", "<=", ">=", "<<", "<<=", ">>", ">>=", "+", "-", "*", "/", "^", "%", "mod", "and", "or", "not", "!", "&&", "||", "|", "exists", "implies", "=>", "?", "min", "max", "floor", "ceil", "floord", "ceild", "infty", "infinity", "NaN", "rat", "true", "false", "0", "1", "2", "-1", "7", "0", "4294967296", "2147483648", "-2147483649", "9223372036854775808", "99999999999999999999999999", "i", "j", "n", "A", "B", "x'", "_", "*", "\"a\"", "\"", "'", "#c\n", "\n", " ", "\t", "domain", "child", "schedule", "filter", "sequence", "set", "permutable", "coincident", "options", "context", "mark", "guard", "extension", "expansion", "contraction", "validity", "condition", "\n- ", "\n  ", ":=", "..", ".", "$", "\\", "\x01", "\x80", "\xff", "$a", "@", "~", "union", "separate", "atomic", "unroll", "isolate", "<=>", "==", "1/0", "3/0", "^2", "**", "%0", "/0", "mod 0", "^-1", "^99", "rat:", "[]", "{}", "()", "-> [", "} ->"};

static std::vector<std::string> tokens(const std::string &s)
{
	std::vector<std::string> o;
	size_t i = 0;
	while (i < s.size()) {
		size_t b = i;
		if (isalpha((unsigned char)s[i]) || s[i] == '_') while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_' || s[i] == '\'')) ++i;
		else if (isdigit((unsigned char)s[i])) while (i < s.size() && isdigit((unsigned char)s[i])) ++i;
		else ++i;
		o.push_back(s.substr(b, i - b));
	}
	return o;
}
static std::string join(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += x; return s; }
static void pick_text(Case &c, std::string &t, std::string &s)
{
	if (c.t.chance(1, 2)) { auto &e = corpus[c.t.below(sizeof(corpus) / sizeof(corpus[0]))]; t = e.t; s = e.s; return; }
	if (c.t.chance(1, 3)) {
		TG g{c};
		g.vars = {"n"};
		static const char *const ty[] = {"set", "map", "union_set", "basic_set"};
		t = ty[c.t.below(4)];
		bool nested = true;
		Tup u = gen_tup(c, 3, nested), v = gen_tup(c, 2, nested);
		s = "[n] -> { " + g.tuple(u, false) + (t == "map" ? " -> " + g.tuple(v, false) : "") + " : ";
		s += g.form(3) + " }";
		return;
	}
	auto v = gen_seeds(c);
	auto &e = v[c.t.below(v.size())];
	t = otypes[e.type].name;
	s = e.s;
}
static int depth(const std::string &s)
{
	int d = 0, m = 0;
	for (char ch : s) { if (strchr("([{", ch)) m = std::max(m, ++d); if (strchr(")]}", ch)) --d; }
	return m;
}
static std::string mutate(Case &c, std::string s)
{
	int n = c.t.weighted({1, 5, 4, 3, 2, 2});
	for (int k = 0; k < n && s.size() < 3000; ++k) {
		auto v = tokens(s);
		auto at = [&]() { return (size_t)c.t.below(v.size() + 1); };
		auto word = [&]() { return std::string(dict[c.t.below(sizeof(dict) / sizeof(dict[0]))]); };
		switch (c.t.below(11)) {
		case 0: if (!v.empty()) v.erase(v.begin() + c.t.below(v.size())); break;
		case 1: v.insert(v.begin() + at(), word()); break;
		case 2: if (!v.empty()) v[c.t.below(v.size())] = word(); break;
		case 3: if (v.size() > 1) { size_t a = c.t.below(v.size()), b = c.t.below(v.size()); std::swap(v[a], v[b]); } break;
		case 4: if (!v.empty()) { size_t a = c.t.below(v.size()), l = 1 + c.t.below(12); std::vector<std::string> cp(v.begin() + a, v.begin() + std::min(v.size(), a + l)); size_t p = at(); v.insert(v.begin() + p, cp.begin(), cp.end()); } break;
		case 5: if (!v.empty()) { size_t a = c.t.below(v.size()), l = 1 + c.t.below(8); v.erase(v.begin() + a, v.begin() + std::min(v.size(), a + l)); } break;
		case 6: v.resize(c.t.below(v.size() + 1)); break;
		case 7: { std::string t2, s2; pick_text(c, t2, s2); auto w = tokens(s2); size_t a = c.t.below(w.size() + 1), l = c.t.below(15); std::vector<std::string> cp(w.begin() + a, w.begin() + std::min(w.size(), a + l)); size_t p = at(); v.insert(v.begin() + p, cp.begin(), cp.end()); break; }
		case 8: { s = join(v); size_t p = c.t.below(s.size() + 1); s.insert(p, 1, (char)(1 + c.t.below(255))); v = tokens(s); break; }
		case 9: { s = join(v); if (!s.empty()) s[c.t.below(s.size())] = (char)(1 + c.t.below(255)); v = tokens(s); break; }
		default: { // another identifier or number of the text itself
			if (v.empty()) break;
			size_t a = c.t.below(v.size()), b = c.t.below(v.size());
			if (isalnum((unsigned char)v[a][0]) && isalnum((unsigned char)v[b][0])) v[a] = v[b];
			break; }
		}
		s = join(v);
	}
	return s;
}
static std::string esc(const std::string &s) { std::string r; char b[8]; for (unsigned char ch : s) if (ch >= 32 && ch < 127 || ch == '\n' || ch == '\t') r += ch; else { snprintf(b, 8, "\\x%02x", ch); r += b; } return r; }

namespace vp { extern thread_local isl_ctx *print_ctx; }
static void run(Case &c)
{
	vp::print_ctx = c.ctx;
	std::string t, s;
	pick_text(c, t, s);
	s = mutate(c, s);
	if (depth(s) > 60) c.discard("too deep");
	// numbers that are too large for the memory by construction
	for (size_t i = s.find('^'); i != std::string::npos; i = s.find('^', i + 1)) {
		size_t j = i + 1, d = 0;
		while (j < s.size() && (isspace((unsigned char)s[j]) || s[j] == '^')) ++j;
		for (; j < s.size() && isdigit((unsigned char)s[j]); ++j) ++d;
		if (d > 2) c.discard("huge exponent");
	}
	int ty = type_of(t);
	if (c.t.chance(1, 5)) do ty = c.t.below(otypes.size()); while (!otypes[ty].read);
	c.log << otypes[ty].name << ": " << esc(s) << "\n";
	isl_ctx_set_max_operations(c.ctx, 40000);
	isl_ctx_reset_operations(c.ctx);
	void *o = nullptr;
	int how = c.t.weighted({8, 1, 1});
	std::string n = otypes[ty].name;
	if (how == 1) {
		c.log << "isl_stream_read_obj\n";
		isl_stream *st = isl_stream_new_str(c.ctx, s.c_str());
		struct isl_obj ob = isl_stream_read_obj(st);
		isl_stream_free(st);
		if (ob.v) {
			static const struct { isl_obj_type t; const char *n; } m[] = {{isl_obj_set, "set"}, {isl_obj_map, "map"}, {isl_obj_union_set, "union_set"}, {isl_obj_union_map, "union_map"}, {isl_obj_pw_multi_aff, "pw_multi_aff"}, {isl_obj_pw_qpolynomial, "pw_qpolynomial"}, {isl_obj_pw_qpolynomial_fold, "pw_qpolynomial_fold"}, {isl_obj_union_pw_qpolynomial, "union_pw_qpolynomial"}, {isl_obj_union_pw_qpolynomial_fold, "union_pw_qpolynomial_fold"}, {isl_obj_val, "val"}, {isl_obj_schedule, "schedule"}};
			bool hit = false;
			for (auto &e : m) if (ob.type == e.t) { n = e.n; ty = type_of(n); o = ob.v; hit = true; }
			c.label("obj:" + (hit ? n : std::string("other")));
			if (!hit) { isl_printer *p = isl_printer_to_str(c.ctx); p = ob.type->print(p, ob.v); take(isl_printer_get_str(p)); isl_printer_free(p); ob.type->free(ob.v); return; }
		}
	} else if (how == 2 && (n == "set" || n == "map" || n == "basic_set" || n == "basic_map" || n == "union_set" || n == "union_map" || n == "pw_qpolynomial" || n == "schedule" || n == "schedule_constraints") && !s.empty()) {
		c.log << "from file\n";
		FILE *f = fmemopen((void *)s.data(), s.size(), "r");
		if (n == "set") o = isl_set_read_from_file(c.ctx, f);
		else if (n == "map") o = isl_map_read_from_file(c.ctx, f);
		else if (n == "basic_set") o = isl_basic_set_read_from_file(c.ctx, f);
		else if (n == "basic_map") o = isl_basic_map_read_from_file(c.ctx, f);
		else if (n == "union_set") o = isl_union_set_read_from_file(c.ctx, f);
		else if (n == "union_map") o = isl_union_map_read_from_file(c.ctx, f);
		else if (n == "schedule") o = isl_schedule_read_from_file(c.ctx, f);
		else if (n == "schedule_constraints") o = isl_schedule_constraints_read_from_file(c.ctx, f);
		else o = isl_pw_qpolynomial_read_from_file(c.ctx, f);
		fclose(f);
	} else o = otypes[ty].read(c.ctx, s.c_str());
	c.step();
	if (!o) {
		int e = isl_ctx_last_error(c.ctx);
		const char *m = isl_ctx_last_error_msg(c.ctx);
		c.label(e == isl_error_quota ? "quota" : "rejected:" + n);
		if (e == isl_error_none) c.fail("no-error", n + " reader failed without reporting an error");
		if (e == isl_error_internal || e == isl_error_unknown && m && strncmp(m, "syntax", 6)) c.label(std::string("internal:") + (m ? m : ""));
		clear_error(c);
		isl_ctx_reset_operations(c.ctx);
		Set u = R_(isl_set_read_from_str(c.ctx, "[n] -> { [i] : 0 <= i < n }"));
		if (S(u) != "[n] -> { [i] : 0 <= i < n }") c.fail("unusable", "after a rejected text, reading is broken: " + S(u));
		c.nontrivial = true;
		return;
	}
	struct Fr { int ty; void *o; ~Fr() { otypes[ty].free(o); } } fr{ty, o};
	c.label("accepted:" + n);
	clear_error(c);
	if (!otypes[ty].str) return;
	isl_ctx_reset_operations(c.ctx);
	std::string text = ostr(ty, o);
	c.log << "read as " << text << "\n";
	if (text == "(no string)") {
		if (isl_ctx_last_error(c.ctx) == isl_error_quota) { clear_error(c); return; }
		const char *m = isl_ctx_last_error_msg(c.ctx);
		c.fail("unprintable", n + " read from the text cannot be printed: " + (m ? m : ""));
	}
	c.nontrivial = true;
	if (text.size() > 3000 || has_weird(text)) return;
	// identifiers are printed without quotes
	if ((n == "id" || n == "multi_id" || n == "id_list") && s.find('"') != std::string::npos) { c.label("quoted:" + n); return; }
	if (!well_typed(c.ctx, ty, o)) { c.label("ill-typed:" + n); return; }
	isl_ctx_reset_operations(c.ctx);
	reread(c, n.c_str(), o, text);
}
Prop vp::the_prop = {"C15", "texts of all readable types mutated by tokens and bytes, read by every reader (string, file and generic) under AddressSanitizer/UBSan with a leak census; accepted texts are printed and read back; non-trivial: rejected with the context still usable, or accepted and printed",
	run, 120000, 6000000, 0};
static struct Init { Init() { vp::the_prop.leak_check = true; } } init_;
