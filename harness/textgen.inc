// random texts in the documented notation
struct TG {
	Case &c;
	std::vector<std::string> vars;
	int depth_ex = 0;
	std::string sp() { static const char *const s[] = {" ", " ", " ", "  ", "\n", "\t"}; return s[c.t.below(6)]; }
	std::string osp() { return c.t.chance(1, 4) ? "" : sp(); }
	std::string num(int lo, int hi) { return std::to_string(c.t.range(lo, hi)); }
	std::string pos() { return std::to_string(1 + c.t.below(5)); }
	std::string var() { return vars.empty() ? num(0, 3) : vars[c.t.below(vars.size())]; }
	std::string atom(int d)
	{
		switch (c.t.weighted({6, 4, d > 0 ? 2 : 0, d > 0 ? 3 : 0})) {
		case 0: return var();
		case 1: return num(0, 7);
		case 2: return "(" + osp() + lin(d - 1) + osp() + ")";
		default:
			switch (c.t.below(6)) {
			case 0: return "floor((" + lin(d - 1) + ")/" + pos() + ")";
			case 1: return "[(" + lin(d - 1) + ")/" + pos() + "]";
			case 2: return "ceil((" + lin(d - 1) + ")/" + pos() + ")";
			case 3: return "floord(" + lin(d - 1) + "," + osp() + pos() + ")";
			case 4: return "ceild(" + lin(d - 1) + "," + osp() + pos() + ")";
			default: return "((" + lin(d - 1) + ")" + (c.t.chance(1, 3) ? " mod " : c.t.chance(1, 2) ? " % " : "%") + pos() + ")";
			}
		}
	}
	std::string term(int d)
	{
		switch (c.t.weighted({5, 3, 2, 2})) {
		case 0: return atom(d);
		case 1: return std::to_string(2 + c.t.below(3)) + (c.t.chance(1, 2) ? "*" : c.t.chance(1, 2) ? " * " : "*") + atom(d);
		case 2: { std::string v = var(); return isdigit((unsigned char)v[0]) ? v : std::to_string(2 + c.t.below(3)) + (c.t.chance(1, 3) ? " " : "") + v; }
		default: { std::string a = atom(d); return a + osp() + "*" + osp() + pos(); }
		}
	}
	std::string lin(int d)
	{
		std::string r = c.t.chance(1, 5) ? "-" + osp() + term(d) : term(d);
		int n = c.t.weighted({4, 4, 1});
		for (int i = 0; i < n; ++i) r += osp() + (c.t.chance(1, 2) ? "+" : "-") + osp() + term(d);
		return r;
	}
	std::string mm(int d)
	{
		if (c.t.chance(1, 8)) {
			std::string r = c.t.chance(1, 2) ? "min(" : "max(";
			int n = 2 + c.t.below(2);
			for (int i = 0; i < n; ++i) r += (i ? "," + osp() : "") + lin(d - 1);
			return r + ")";
		}
		return lin(d);
	}
	std::string cmpop() { static const char *const o[] = {">=", "<=", ">", "<", "=", "!=", "=="}; return o[c.t.weighted({5, 5, 2, 2, 3, 1, 1})]; }
	std::string cmp()
	{
		if (c.t.chance(1, 12)) {
			static const char *const o[] = {"<<", "<<=", ">>", ">>="};
			return var() + ", " + lin(0) + osp() + o[c.t.below(4)] + " " + lin(0) + "," + osp() + var();
		}
		std::string r = mm(2);
		if (c.t.chance(1, 8)) r += "," + osp() + lin(1);
		int n = c.t.weighted({5, 2});
		r += osp() + cmpop() + osp() + mm(1);
		if (n) { if (c.t.chance(1, 6)) r += "," + lin(0); r += osp() + cmpop() + osp() + lin(1); }
		return r;
	}
	std::string form(int d)
	{
		switch (c.t.weighted({8, d > 0 ? 5 : 0, d > 0 ? 3 : 0, d > 0 ? 2 : 0, d > 0 && depth_ex < 2 ? 3 : 0, 1, d > 0 ? 1 : 0})) {
		case 0: return cmp();
		case 1: return fsub(d) + (c.t.chance(2, 3) ? " and " : " && ") + fsub(d);
		case 2: return fsub(d) + (c.t.chance(2, 3) ? " or " : " || ") + fsub(d);
		case 3: return (c.t.chance(1, 2) ? "not (" : "!(") + nform(d - 1) + ")";
		case 4: return exists(d);
		case 5: return c.t.chance(3, 4) ? (c.t.chance(1, 2) ? "true" : "True") : "false";
		default: return "(" + nform(d - 1) + ")" + " implies " + "(" + form(d - 1) + ")";
		}
	}
	std::string nform(int d) { depth_ex += 5; std::string r = form(d); depth_ex -= 5; return r; }
	std::string fsub(int d) { std::string r = form(d - 1); return "(" + r + ")"; }
	std::string exists(int d)
	{
		static const char *const kw[] = {"exists", "exists", "Exists", "EXISTS"};
		int n = 1 + c.t.below(2);
		std::string r = std::string(kw[c.t.below(4)]) + (c.t.chance(1, 2) ? " (" : "(");
		auto save = vars;
		depth_ex++;
		for (int i = 0; i < n; ++i) {
			std::string e = (i ? "f" : "e") + std::to_string(depth_ex);
			bool def = c.t.chance(1, 3);
			std::string body = def ? (c.t.chance(1, 2) ? "[(" + lin(0) + ")/" + pos() + "]" : "floor((" + lin(0) + ")/" + pos() + ")") : "";
			r += (i ? "," + osp() : "") + e + (def ? osp() + "=" + osp() + body : "");
			vars.push_back(e);
		}
		// refer to the variables
		std::string e = "e" + std::to_string(depth_ex);
		std::string w = lin(1) + " = " + std::to_string(1 + c.t.below(4)) + e + (n > 1 && c.t.chance(1, 2) ? " + " + std::to_string(1 + c.t.below(3)) + "f" + std::to_string(depth_ex) : "");
		r += osp() + ":" + osp() + (c.t.chance(1, 2) ? w : w + " and " + fsub(d));
		vars = save;
		depth_ex--;
		return r + ")";
	}
	// tuple; new variables appended to vars
	int cnt = 0;
	std::string tuple(const Tup &t, bool plain)
	{
		std::string r = t.name;
		r += "[";
		if (!t.sub.empty()) return r + tuple(t.sub[0], plain) + osp() + "->" + osp() + tuple(t.sub[1], plain) + "]";
		for (int i = 0; i < t.n; ++i) {
			if (i) r += "," + osp();
			static const char *const base[] = {"i", "j", "k", "x", "y", "i'", "a_1", "Q"};
			std::string nm = base[cnt % 8] + std::string(cnt >= 8 ? std::to_string(cnt) : "");
			cnt++;
			switch (plain ? 0 : c.t.weighted({8, 2, 1, 1})) {
			case 0: r += nm; vars.push_back(nm); break;
			case 1: r += (vars.empty() ? num(0, 4) : lin(1)); break;
			case 2: { std::string e = vars.empty() ? num(0, 4) : lin(1); r += nm + osp() + "=" + osp() + e; vars.push_back(nm); break; }
			default: r += "*"; break;
			}
		}
		return r + "]";
	}
};
