// Unicode 15.0.0 reference data and the rule monitors.
#pragma once
#include "engine.h"
#include <fstream>
#include <sstream>

struct ClassTab {
	std::vector<std::string> names;
	std::map<std::string, int> id;
	std::vector<uint8_t> of; /* per codepoint */
	bool load(const std::string &file) {
		std::ifstream f(file);
		if (!f) return false;
		of.assign(0x110000, 255);
		std::string line;
		while (std::getline(f, line)) {
			std::istringstream s(line);
			std::string a, b, c;
			if (!(s >> a >> b >> c)) continue;
			auto it = id.find(c);
			if (it == id.end()) { it = id.emplace(c, (int)names.size()).first; names.push_back(c); }
			u32 lo = strtoul(a.c_str(), 0, 16), hi = strtoul(b.c_str(), 0, 16);
			for (u32 x = lo; x <= hi && x < 0x110000; x++) of[x] = it->second;
		}
		for (auto x : of) if (x == 255) return false;
		return true;
	}
	mutable std::unordered_map<const char *, int> lit;
	int operator[](const char *n) const {
		auto it = lit.find(n);
		if (it != lit.end()) return it->second;
		return lit[n] = (*this)[std::string(n)];
	}
	int operator[](const std::string &n) const {
		auto it = id.find(n);
		if (it == id.end()) { fprintf(stderr, "class %s missing in reference data\n", n.c_str()); exit(3); }
		return it->second;
	}
};

/* base of the next-break monitors: left context is a vector of small ints */
struct BreakMonitor : Monitor {
	ClassTab T;
	int dflt = 0, inval = 0;
	std::vector<Mask> cm; /* block mask per class */
	bool safety = false;  /* only check offsets, not rules */
	void setup() override {
		cm.assign(T.names.size(), Mask());
		auto &U = E->U;
		for (int b = 0; b < U.nblk; b++) if (!U.ranges[b].empty()) cm[T.of[U.ranges[b][0].first]].set(b);
		for (auto &o : U.oor) cm[dflt].set(o.blk);
		if (U.shortBlk >= 0) cm[inval].set(U.shortBlk);
	}
	Mask m(std::initializer_list<const char *> l) { Mask r; for (auto n : l) r = r | cm[T[n]]; return r; }
	void init(State &S) override { S.mon.q = { 0 }; }
	bool started(State &S) { return S.mon.q[0]; }
	virtual bool isBreak(State &, int) { return false; }
	virtual void stepClass(State &, int) {}
	void foldIn(State &S, int i) override {
		if (!safety) {
			if (started(S) && isBreak(S, i)) E->report(S, "missed-break", "the function passes over a boundary the rules require here", nullptr, true, "missed|" + ctx(S, i));
			int c = E->symClass(S, S.tape[0].n[i].sym, cm);
			stepClass(S, c);
		}
		S.mon.q[0] = 1;
	}
	std::string ctx(State &S, int i) {
		std::string s = show(S) + "|";
		for (int k = 0; k < 2; k++) {
			i = E->skipEmpty(S, 0, i);
			if (i >= (int)S.tape[0].n.size()) { s += " eot"; break; }
			Node &n = S.tape[0].n[i];
			if (n.k != N_CELL && n.k != N_MANY) break;
			Mask mk = n.k == N_CELL ? S.syms[n.sym] : n.mask;
			int first = -1, cnt = 0;
			for (size_t c = 0; c < cm.size(); c++) if (mk.inter(cm[c])) { if (first < 0) first = c; cnt++; }
			s += " " + (first < 0 ? "?" : T.names[first] + (cnt > 1 ? "+" : ""));
			i++;
		}
		return s;
	}
	std::string cls(int c) const { return c < 0 ? "-" : T.names[c]; }
	int retBarrier(State &S) override {
		Tape &T0 = S.tape[0];
		if (S.ret.k == K_INT && S.ret.c == 0) return 0;
		if (S.ret.k != K_INT && S.ret.k != K_LIN) {
			if (S.ret.k == K_UNDEF) E->report(S, "uninit", "the function returns an uninitialised value");
			throw Imprecise{ "return value is not a position" };
		}
		if (S.ret.k == K_INT && (i64)S.ret.c < 0) E->report(S, "offset", "the function returns a huge offset");
		Lin l = E->toLin(S.ret);
		i64 beyond[2];
		int i = E->locate(S, 0, l, true, beyond);
		if (i == -1 || i == -5) E->report(S, "offset", "the returned offset lies outside the text");
		if (i < 0) {
			if (i == -6) E->report(S, "offset", "the returned offset is not the end of a decoded sequence");
			throw Imprecise{ "returned offset cannot be located" };
		}
		i = E->skipEmpty(S, 0, i);
		S.ret = E->mkLin(E->pos(T0.b[i]));
		int end = -1;
		for (size_t k = 0; k < T0.b.size(); k++) if (T0.b[k] == T0.endB) end = k;
		for (int k = 0; k < i; k++) if (T0.n[k].k == N_TRUNC || T0.n[k].k == N_OVER) E->report(S, "offset", "the returned offset lies beyond the decoded text");
		if (i > end) { bool real = false; for (int k = end; k < i; k++) if (T0.n[k].k != N_EMPTY) real = true; if (real) E->report(S, "offset", "the returned offset lies beyond the end of the text"); }
		return i;
	}
	void finish(State &S) override {
		E->nObl++;
		int i = retBarrier(S);
		if (!(S.ret.k == K_INT && S.ret.c == 0)) {
			if (!started(S)) E->report(S, "offset", "a non-zero offset is returned for an empty text");
			if (safety) return;
			int j = i;
			if (E->eot(S, 0, j)) return;
			if (!isBreak(S, j)) E->report(S, "wrong-break", "the function returns an offset where the rules forbid a boundary", nullptr, true, "wrong|" + ctx(S, j));
			return;
		}
		/* zero */
		if (started(S)) E->report(S, "offset", "zero is returned for a non-empty text");
		int j = 0;
		if (!S.tape[0].isnull && !E->eot(S, 0, j)) E->report(S, "offset", "zero is returned for a non-empty text");
	}
};

struct SafetyMonitor : BreakMonitor {
	SafetyMonitor() { safety = true; }
	void setup() override {}
	int retBarrier(State &S) override {
		const std::string &f = E->scens[S.scen].fn;
		if (f.find("grapheme_next_") != 0) return 0;
		return BreakMonitor::retBarrier(S);
	}
	void finish(State &S) override {
		const std::string &f = E->scens[S.scen].fn;
		if (f.find("grapheme_next_") != 0) return;
		BreakMonitor::finish(S);
	}
};

struct GBMon : BreakMonitor {
	/* q: 1 last class, 2 pictographic state, 3 regional indicator parity */
	void init(State &S) override { S.mon.q = { 0, -1, 0, 0 }; }
	std::string show(State &S) override { return "after " + cls(S.mon.q[1]) + " ep" + std::to_string(S.mon.q[2]) + " ri" + std::to_string(S.mon.q[3]); }
	bool isL(int c, std::initializer_list<const char *> l) { for (auto n : l) if (T[n] == c) return true; return false; }
	bool isBreak(State &S, int i) override {
		auto &q = S.mon.q;
		int l = q[1];
		auto R = [&](std::initializer_list<const char *> s) { return E->in(S, 0, i, m(s)); };
		if (isL(l, { "CR" }) && R({ "LF" })) return false;
		if (isL(l, { "CR", "LF", "Control" })) return true;
		if (R({ "CR", "LF", "Control" })) return true;
		if (isL(l, { "L" }) && R({ "L", "V", "LV", "LVT" })) return false;
		if (isL(l, { "LV", "V" }) && R({ "V", "T" })) return false;
		if (isL(l, { "LVT", "T" }) && R({ "T" })) return false;
		if (R({ "Extend", "ZWJ", "SpacingMark" })) return false;
		if (isL(l, { "Prepend" })) return false;
		if (q[2] == 2 && R({ "Other+ExtPict" })) return false;
		if (q[3] == 1 && R({ "Regional_Indicator" })) return false;
		return true;
	}
	void stepClass(State &S, int c) override {
		auto &q = S.mon.q;
		if (isL(c, { "Other+ExtPict" })) q[2] = 1;
		else if (q[2] == 1 && isL(c, { "Extend" })) q[2] = 1;
		else if (q[2] == 1 && isL(c, { "ZWJ" })) q[2] = 2;
		else q[2] = 0;
		q[3] = isL(c, { "Regional_Indicator" }) ? !q[3] : 0;
		q[1] = c;
	}
};

struct WBMon : BreakMonitor {
	/* q: 1 raw last, 2 last (skipping), 3 second last, 4 RI parity */
	void init(State &S) override { S.mon.q = { 0, -1, -1, -1, 0 }; }
	std::string show(State &S) override { return "after " + cls(S.mon.q[3]) + " " + cls(S.mon.q[2]) + " (raw " + cls(S.mon.q[1]) + ") ri" + std::to_string(S.mon.q[4]); }
	bool is(int c, std::initializer_list<const char *> l) { for (auto n : l) if (c >= 0 && T[n] == c) return true; return false; }
	std::vector<Mask> coarse() override { Mask x = m({ "Extend", "Format", "ZWJ" }); return { x, E->U.all.minus(x) }; }
	bool isBreak(State &S, int i) override {
		auto &q = S.mon.q;
		auto R = [&](const Mask &s) { return E->in(S, 0, i, s); };
		Mask ext = m({ "Extend", "Format", "ZWJ" }), nl = m({ "CR", "LF", "Newline" });
		Mask ahl = m({ "ALetter", "ALetter+ExtPict", "Hebrew_Letter" });
		auto A = [&](int c) { return is(c, { "ALetter", "ALetter+ExtPict", "Hebrew_Letter" }); };
		auto next = [&](const Mask &s) { int j = E->skip(S, 0, E->after(S, 0, i), ext); if (E->eot(S, 0, j)) return false; return E->in(S, 0, j, s); };
		if (is(q[1], { "CR" }) && R(m({ "LF" }))) return false;
		if (is(q[1], { "CR", "LF", "Newline" })) return true;
		if (R(nl)) return true;
		if (is(q[1], { "ZWJ" }) && R(m({ "Other+ExtPict", "ALetter+ExtPict" }))) return false;
		if (is(q[1], { "WSegSpace" }) && R(m({ "WSegSpace" }))) return false;
		if (R(ext)) return false;
		int l = q[2], l2 = q[3];
		if (A(l) && R(ahl)) return false;
		if (A(l) && R(m({ "MidLetter", "MidNumLet", "Single_Quote" })) && next(ahl)) return false;
		if (A(l2) && is(l, { "MidLetter", "MidNumLet", "Single_Quote" }) && R(ahl)) return false;
		if (is(l, { "Hebrew_Letter" }) && R(m({ "Single_Quote" }))) return false;
		if (is(l, { "Hebrew_Letter" }) && R(m({ "Double_Quote" })) && next(m({ "Hebrew_Letter" }))) return false;
		if (is(l2, { "Hebrew_Letter" }) && is(l, { "Double_Quote" }) && R(m({ "Hebrew_Letter" }))) return false;
		Mask num = m({ "Numeric" });
		if (is(l, { "Numeric" }) && R(num)) return false;
		if (A(l) && R(num)) return false;
		if (is(l, { "Numeric" }) && R(ahl)) return false;
		if (is(l2, { "Numeric" }) && is(l, { "MidNum", "MidNumLet", "Single_Quote" }) && R(num)) return false;
		if (is(l, { "Numeric" }) && R(m({ "MidNum", "MidNumLet", "Single_Quote" })) && next(num)) return false;
		if (is(l, { "Katakana" }) && R(m({ "Katakana" }))) return false;
		if ((A(l) || is(l, { "Numeric", "Katakana", "ExtendNumLet" })) && R(m({ "ExtendNumLet" }))) return false;
		if (is(l, { "ExtendNumLet" }) && R(ahl | m({ "Numeric", "Katakana" }))) return false;
		if (q[4] == 1 && R(m({ "Regional_Indicator" }))) return false;
		return true;
	}
	void stepClass(State &S, int c) override {
		auto &q = S.mon.q;
		bool skip = is(c, { "Extend", "Format", "ZWJ" }) && q[1] >= 0 && !is(q[1], { "CR", "LF", "Newline" });
		q[1] = c;
		if (skip) return;
		/* the second last class only matters behind a mid character */
		q[3] = is(c, { "MidLetter", "MidNumLet", "MidNum", "Single_Quote", "Double_Quote" }) ? q[2] : -1;
		q[2] = c;
		q[4] = is(c, { "Regional_Indicator" }) ? !q[4] : 0;
	}
};

struct SBMon : BreakMonitor {
	/* q: 1 raw last, 2 last (skipping), 3 second last is Upper/Lower, 4 term state, 5 term was ATerm */
	void init(State &S) override { S.mon.q = { 0, -1, -1, 0, 0, 0 }; }
	std::string show(State &S) override { return "after " + cls(S.mon.q[2]) + " (raw " + cls(S.mon.q[1]) + ") ul" + std::to_string(S.mon.q[3]) + " term" + std::to_string(S.mon.q[4]) + (S.mon.q[5] ? "A" : ""); }
	bool is(int c, std::initializer_list<const char *> l) { for (auto n : l) if (c >= 0 && T[n] == c) return true; return false; }
	std::vector<Mask> coarse() override {
		Mask x = m({ "Extend", "Format" }), y = m({ "OLetter", "Upper", "Lower", "Sep", "CR", "LF", "STerm", "ATerm" });
		return { x, y, E->U.all.minus(x).minus(y) };
	}
	bool isBreak(State &S, int i) override {
		auto &q = S.mon.q;
		auto R = [&](const Mask &s) { return E->in(S, 0, i, s); };
		Mask ps = m({ "Sep", "CR", "LF" }), sa = m({ "STerm", "ATerm" });
		if (is(q[1], { "CR" }) && R(m({ "LF" }))) return false;
		if (is(q[1], { "CR", "LF", "Sep" })) return true;
		if (R(m({ "Extend", "Format" }))) return false;
		int t = q[4];
		if (t == 0) return false;
		bool at = q[5];
		if (at && t == 1 && R(m({ "Numeric" }))) return false;
		if (at && t == 1 && q[3] && R(m({ "Upper" }))) return false;
		if (t && R(m({ "SContinue" }) | sa)) return false;
		if (t <= 2 && R(m({ "Close", "Sp" }) | ps)) return false;
		if (t && R(m({ "Sp" }) | ps)) return false;
		if (at) {
			Mask stop = m({ "OLetter", "Upper", "Lower" }) | ps | sa;
			int j = E->skip(S, 0, i, E->U.all.minus(stop));
			if (!E->eot(S, 0, j) && E->in(S, 0, j, m({ "Lower" }))) return false;
		}
		return true;
	}
	void stepClass(State &S, int c) override {
		auto &q = S.mon.q;
		bool skip = is(c, { "Extend", "Format" }) && q[1] >= 0 && !is(q[1], { "CR", "LF", "Sep" });
		q[1] = c;
		if (skip) return;
		bool ul = is(q[2], { "Upper", "Lower" });
		q[2] = c;
		if (is(c, { "ATerm", "STerm" })) { q[4] = 1; q[5] = is(c, { "ATerm" }); q[3] = ul; return; }
		if (is(c, { "Close" }) && q[4] && q[4] <= 2) { q[4] = 2; q[3] = 0; return; }
		if (is(c, { "Sp" }) && q[4]) { q[4] = 3; q[3] = 0; return; }
		q[3] = q[4] = q[5] = 0;
	}
};

struct LBMon : BreakMonitor {
	/* q: 1 raw last, 2 base class, 3 class before the spaces (if base is SP), 4 number state,
	 *    5 HL before BA/HY, 6 RI parity */
	void init(State &S) override { S.mon.q = { 0, -1, -1, -1, 0, 0, 0 }; }
	std::string show(State &S) override {
		auto &q = S.mon.q;
		return "after " + cls(q[3]) + " " + cls(q[2]) + " (raw " + cls(q[1]) + ") num" + std::to_string(q[4]) + " hl" + std::to_string(q[5]) + " ri" + std::to_string(q[6]);
	}
	bool is(int c, std::initializer_list<const char *> l) { for (auto n : l) if (c >= 0 && T[n] == c) return true; return false; }
	std::vector<Mask> coarse() override { Mask x = m({ "CM", "ZWJ" }); return { x, E->U.all.minus(x) }; }
	bool attaches(const std::vector<int> &q) { return q[2] >= 0 && !is(q[2], { "BK", "CR", "LF", "NL", "SP", "ZW" }); }
	bool isBreak(State &S, int i) override {
		auto &q = S.mon.q;
		Mask cmz = m({ "CM", "ZWJ" });
		bool asAL = false;
		auto R = [&](std::initializer_list<const char *> s) {
			if (asAL) { for (auto n : s) if (!strcmp(n, "AL")) return true; return false; }
			return E->in(S, 0, i, m(s));
		};
		int l = q[2], p = q[3];
		if (is(l, { "BK" })) return true;
		if (is(l, { "CR" }) && R({ "LF" })) return false;
		if (is(l, { "CR", "LF", "NL" })) return true;
		if (R({ "BK", "CR", "LF", "NL", "SP", "ZW" })) return false;
		if (is(l, { "ZW" }) || (is(l, { "SP" }) && is(p, { "ZW" }))) return true;
		if (is(q[1], { "ZWJ" })) return false;
		if (E->in(S, 0, i, cmz)) { if (attaches(q)) return false; asAL = true; }
		if (R({ "WJ" }) || is(l, { "WJ" })) return false;
		if (is(l, { "GL" })) return false;
		if (!is(l, { "SP", "BA", "HY" }) && R({ "GL" })) return false;
		if (R({ "EX" })) return false;
		if (!is(l, { "NU" }) && R({ "CL", "CP", "IS", "SY" })) return false;
		if (is(l, { "OP", "OP+EA" }) || (is(l, { "SP" }) && is(p, { "OP", "OP+EA" }))) return false;
		if ((is(l, { "QU" }) || (is(l, { "SP" }) && is(p, { "QU" }))) && R({ "OP", "OP+EA" })) return false;
		if ((is(l, { "CL", "CP" }) || (is(l, { "SP" }) && is(p, { "CL", "CP" }))) && R({ "NS" })) return false;
		if ((is(l, { "B2" }) || (is(l, { "SP" }) && is(p, { "B2" }))) && R({ "B2" })) return false;
		if (is(l, { "SP" })) return true;
		if (R({ "QU" }) || is(l, { "QU" })) return false;
		if (R({ "CB" }) || is(l, { "CB" })) return true;
		if (R({ "BA", "HY", "NS" }) || is(l, { "BB" })) return false;
		if (q[5] && is(l, { "HY", "BA" })) return false;
		if (is(l, { "SY" }) && R({ "HL" })) return false;
		if (R({ "IN" })) return false;
		bool al = is(l, { "AL", "HL" });
		if (al && R({ "NU" })) return false;
		if (is(l, { "NU" }) && R({ "AL", "HL" })) return false;
		if (is(l, { "PR" }) && R({ "ID", "ID+CnEP", "EB", "EM" })) return false;
		if (is(l, { "ID", "ID+CnEP", "EB", "EM" }) && R({ "PO" })) return false;
		if (is(l, { "PR", "PO" }) && R({ "AL", "HL" })) return false;
		if (al && R({ "PR", "PO" })) return false;
		/* numbers */
		if (is(l, { "PR", "PO" }) && R({ "NU" })) return false;
		if (is(l, { "PR", "PO" }) && R({ "OP", "OP+EA", "HY" })) {
			int j = E->skip(S, 0, E->after(S, 0, i), cmz);
			if (!E->eot(S, 0, j) && E->in(S, 0, j, m({ "NU" }))) return false;
		}
		if (is(l, { "OP", "OP+EA", "HY" }) && R({ "NU" })) return false;
		if (q[4] == 1 && R({ "NU", "SY", "IS", "CL", "CP" })) return false;
		if (q[4] >= 1 && R({ "PO", "PR" })) return false;
		if (is(l, { "JL" }) && R({ "JL", "JV", "H2", "H3" })) return false;
		if (is(l, { "JV", "H2" }) && R({ "JV", "JT" })) return false;
		if (is(l, { "JT", "H3" }) && R({ "JT" })) return false;
		if (is(l, { "JL", "JV", "JT", "H2", "H3" }) && R({ "PO" })) return false;
		if (is(l, { "PR" }) && R({ "JL", "JV", "JT", "H2", "H3" })) return false;
		if (al && R({ "AL", "HL" })) return false;
		if (is(l, { "IS" }) && R({ "AL", "HL" })) return false;
		if ((al || is(l, { "NU" })) && R({ "OP" })) return false;
		if (is(l, { "CP" }) && R({ "AL", "HL", "NU" })) return false;
		if (q[6] == 1 && R({ "RI" })) return false;
		if (is(l, { "EB", "ID+CnEP" }) && R({ "EM" })) return false;
		return true;
	}
	void stepClass(State &S, int c) override {
		auto &q = S.mon.q;
		q[1] = c;
		if (is(c, { "CM", "ZWJ" })) {
			if (attaches(q)) return;
			c = T["AL"];
		}
		int l = q[2];
		if (is(c, { "SP" })) {
			if (!is(l, { "SP" })) q[3] = is(l, { "ZW", "OP", "OP+EA", "QU", "CL", "CP", "B2" }) ? l : -1;
		} else q[3] = -1;
		if (is(c, { "NU" })) q[4] = 1;
		else if (q[4] == 1 && is(c, { "SY", "IS" })) q[4] = 1;
		else if (q[4] == 1 && is(c, { "CL", "CP" })) q[4] = 2;
		else q[4] = 0;
		q[5] = is(c, { "HY", "BA" }) && is(l, { "HL" });
		q[6] = is(c, { "RI" }) ? !q[6] : 0;
		q[2] = c;
	}
};
