// Monitors for case conversion and the case tests.
#pragma once
#include "spec.h"

struct CaseData {
	std::map<u32, std::vector<u32>> map[3]; /* upper, lower, title */
	ClassTab cp;                            /* "--", "-I", "C-", "CI" */
	bool load(const std::string &dir) {
		static const char *nm[] = { "map_upper", "map_lower", "map_title" };
		for (int k = 0; k < 3; k++) {
			std::ifstream f(dir + "/" + nm[k]);
			if (!f) return false;
			std::string line;
			while (std::getline(f, line)) {
				std::istringstream s(line);
				std::string a;
				if (!(s >> a)) continue;
				u32 c = strtoul(a.c_str(), 0, 16);
				while (s >> a) map[k][c].push_back(strtoul(a.c_str(), 0, 16));
			}
			if (map[k].size() < 1000) return false;
		}
		return cp.load(dir + "/casep");
	}
	int units(int k, u32 c) const { auto it = map[k].find(c); return it == map[k].end() ? 1 : it->second.size(); }
	bool changes(int k, u32 c) const { return map[k].count(c); }
	u64 unit(int k, int i, u64 c) const {
		if (c >= 0x110000) return c;
		auto it = map[k].find(c);
		if (it == map[k].end()) return i == 0 ? c : 0;
		return i < (int)it->second.size() ? it->second[i] : 0;
	}
	u64 key(u32 c) const {
		u64 r = 0;
		for (int k = 0; k < 3; k++) r = r * 8 + units(k, c) * 2 + changes(k, c);
		r = r * 4 + cp.of[c];
		return r * 2 + (c == 0x3A3);
	}
};

/* what both conversions and tests share */
struct CaseBase : Monitor {
	CaseData *C = nullptr;
	int kind = 0; /* 0 upper, 1 lower, 2 title */
	Mask mu[3][4], mc[3], I, CI, CC, other, sigma, none;
	int specId[3][3];
	void addSpec() {
		for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) {
			CaseData *c = C;
			specId[k][i] = E->D.spec.size();
			E->D.spec.push_back([c, k, i](u64 x) { return c->unit(k, i, x); });
		}
	}
	void setup() override {
		auto &U = E->U;
		for (int k = 0; k < 3; k++) { for (auto &m : mu[k]) m = Mask(); mc[k] = Mask(); }
		I = CI = CC = other = sigma = Mask();
		auto put = [&](int b, bool in, u32 c) {
			for (int k = 0; k < 3; k++) {
				mu[k][in ? C->units(k, c) : 1].set(b);
				if (in && C->changes(k, c)) mc[k].set(b);
			}
			std::string n = in ? C->cp.names[C->cp.of[c]] : "--";
			(n == "-I" ? I : n == "CI" ? CI : n == "C-" ? CC : other).set(b);
			if (in && c == 0x3A3) sigma.set(b);
		};
		for (int b = 0; b < U.nblk; b++) if (!U.ranges[b].empty()) put(b, true, U.ranges[b][0].first);
		for (auto &o : U.oor) put(o.blk, false, 0);
		if (U.shortBlk >= 0) put(U.shortBlk, true, 0xFFFD);
	}
	std::vector<Mask> coarse() override { return { I, CI, CC, other }; }
	int endIdx(State &S) { for (size_t k = 0; k < S.tape[0].b.size(); k++) if (S.tape[0].b[k] == S.tape[0].endB) return k; return 0; }
	/* the sigma in cell i is not followed by ignorable letters and a cased one (within the word) */
	bool finalSigma(State &S, int i) {
		i = E->after(S, 0, i);
		Mask ign = I | CI;
		for (;;) {
			Tape &T = S.tape[0];
			if (kind == 2 && (T.bf[i] & BF_WB)) return true;
			if (i >= (int)T.n.size()) return true;
			Node &n = T.n[i];
			if (n.k == N_EMPTY) { i++; continue; }
			if (n.k == N_TRUNC || n.k == N_OVER) return true;
			if (n.k == N_OPEN) E->splitAt(S, 0, i, &ign);
			if (n.k == N_MANY) {
				if (n.mask.subset(ign)) { i++; continue; }
				if (n.mask.inter(ign)) E->splitAt(S, 0, i, &ign);
			} else {
				if (n.k != N_CELL) throw Imprecise{ "look at unreadable text" };
				if (E->symIn(S, n.sym, ign)) { i++; continue; }
			}
			return !E->in(S, 0, i, CC);
		}
	}
	/* a word begins at cell i */
	bool wordStart(State &S, int i) {
		Tape &T = S.tape[0];
		for (;; i--) {
			if (T.bf[i] & BF_WB) return true;
			if (i == 0 || T.n[i - 1].k != N_EMPTY) return false;
		}
	}
	/* L: a cased letter and case-ignorable ones precede */
	int stepL(State &S, int L, int sym) {
		if (E->symIn(S, sym, CC | CI)) return 1;
		if (L && E->symIn(S, sym, I)) return 1;
		return 0;
	}
	Val unitVal(int map, int u, int sym) {
		int x = E->D.var(32, 0);
		int d = E->D.mk(O_SELECT, 32, E->D.mk(O_ULE, 1, x, E->D.con(32, 0x10FFFF)), E->D.mk(O_SPEC, 32, x, -1, -1, specId[map][u]), x);
		return E->mkFn(32, d, { sym });
	}
};

struct CaseMon : CaseBase {
	/* q: 0 L, 1 phase (title: 0 before the first cased letter of the word, 1 behind it) */
	void init(State &S) override {
		S.mon.q = { 0, 0 };
		S.tape[1].bf[0] |= BF_SO;
		if (kind == 2) S.tape[0].bf[0] |= BF_WB;
	}
	std::string show(State &S) override { return "L" + std::to_string(S.mon.q[0]) + " phase" + std::to_string(S.mon.q[1]); }
	int findF(State &S, int flag) { Tape &T = S.tape[1]; for (size_t i = 0; i < T.bf.size(); i++) if (T.bf[i] & flag) return i; return -1; }
	void foldIn(State &S, int i) override {
		const Scenario &sc = E->scens[S.scen];
		int sym = S.tape[0].n[i].sym;
		int L = S.mon.q[0], ph = S.mon.q[1];
		int map = kind;
		bool copy = false;
		if (kind == 2) {
			if (wordStart(S, i)) { L = 0; ph = 0; }
			if (ph == 0) {
				if (E->symIn(S, sym, CC | CI)) map = 2;
				else copy = true;
			} else map = 1;
		}
		std::vector<Val> us;
		const char *what = "case-map";
		if (copy) us.push_back(E->mkSym(sym, 32));
		else if (map == 1 && E->symIn(S, sym, sigma)) {
			us.push_back(E->mkInt(32, L && finalSigma(S, i) ? 0x3C2 : 0x3C3));
			what = "sigma";
		} else {
			int n = E->symClass(S, sym, std::vector<Mask>(mu[map], mu[map] + 4));
			for (int u = 0; u < n; u++) us.push_back(unitVal(map, u, sym));
		}
		(void)what;
		if (map == 1 && !copy) { if (kind != 2 || ph) L = stepL(S, L, sym); }
		if (kind == 2 && ph == 0 && !copy) { ph = 1; L = 1; }
		/* widths */
		Tape &T = S.tape[1];
		std::vector<int> w;
		for (auto &y : us) {
			if (T.kind == T_OUT32) { w.push_back(1); continue; }
			auto K = [&](u64 c) { return E->mkInt(32, c); };
			auto op = [&](uint8_t o, const Val &a, const Val &b) { return E->dagop(o, o >= O_EQ && o <= O_SLE ? 1 : 32, &a, &b); };
			auto sel = [&](const Val &c, const Val &a, const Val &b) { return c.k == K_INT ? (c.c ? a : b) : E->dagop(O_SELECT, 32, &c, &a, &b); };
			Val v = sel(op(O_ULT, y, K(0x80)), K(1), sel(op(O_ULT, y, K(0x800)), K(2), sel(op(O_ULT, y, K(0x10000)), K(3), K(4))));
			w.push_back((int)E->constOf(S, v));
		}
		int so = findF(S, BF_SO), np = findF(S, BF_NULPOS);
		Lin at = E->pos(T.b[so]);
		int nfit = 0, tot = 0, fitw = 0;
		bool full = np >= 0 || sc.destNull;
		for (int x : w) {
			if (!full) {
				Lin l = Engine::ladd(at, E->pos(T.endB), -1);
				l.c += tot + x;
				if (E->lt0(S, l)) { nfit++; fitw += x; } else full = true;
			}
			tot += x;
		}
		Lin e = at;
		e.c += tot;
		int j = E->locate(S, 1, e, true);
		if (j < 0) throw Imprecise{ "output position of the result" };
		/* commit */
		so = findF(S, BF_SO);
		int c = so;
		if (sc.track) for (int u = 0; u < nfit; u++) {
			for (int k = 0; k < w[u]; k++) {
				c = E->skipEmpty(S, 1, c);
				Node &n = T.n[c];
				if (n.k != N_CELL) throw Imprecise{ "output cell of the result" };
				n.expect = T.kind == T_OUT32 ? us[u] : byteOf(us[u], w[u], k);
				n.expect.prov = -1;
				c++;
			}
		}
		T.bf[so] &= ~BF_SO;
		if (!sc.destNull && np < 0 && nfit < (int)w.size()) {
			Lin z = at;
			z.c += fitw;
			int q = E->locate(S, 1, z, false);
			if (q < 0) throw Imprecise{ "output position of the terminator" };
			T.bf[E->skipEmpty(S, 1, q)] |= BF_NULPOS;
		}
		j = E->locate(S, 1, e, false);
		T.bf[j] |= BF_SO;
		S.mon.q[0] = L;
		S.mon.q[1] = ph;
	}
	Val byteOf(const Val &x, int n, int k) {
		auto K = [&](u64 c) { return E->mkInt(32, c); };
		auto op = [&](uint8_t o, const Val &a, const Val &b) { return E->dagop(o, 32, &a, &b); };
		Val b;
		if (n == 1) b = x;
		else if (k == 0) { b = op(O_LSHR, x, K(6 * (n - 1))); b = op(O_OR, b, K(n == 2 ? 0xC0 : n == 3 ? 0xE0 : 0xF0)); }
		else { b = op(O_LSHR, x, K(6 * (n - 1 - k))); b = op(O_AND, b, K(0x3F)); b = op(O_OR, b, K(0x80)); }
		return E->dagop(O_TRUNC, 8, &b);
	}
	bool isZero(const Val &v) { return v.k == K_INT && v.c == 0; }
	void check(State &S) {
		if (!E->scens[S.scen].track) return;
		Tape &T = S.tape[1];
		int np = findF(S, BF_NULPOS);
		for (size_t i = 0; i < T.n.size(); i++) {
			if (T.n[i].k != N_CELL) continue;
			if (T.n[i].expect.k != K_UNDEF && T.n[i].content.k != K_UNDEF) {
				std::string cex;
				const Val a = T.n[i].content, b = T.n[i].expect;
				bool sig = b.k == K_INT;
				bool eq = E->fnEqual(S, a, b, cex);
				/* a terminator written for the time being may still be replaced */
				if (!eq && isZero(a) && !S.isRet) continue;
				if (!eq) E->report(S, sig ? "sigma" : "case-map", std::string(sig ? "a capital sigma is not converted as the Final_Sigma condition demands" : "a written unit is not the one the full case mapping demands") + " (" + cex + ")", nullptr, true, sig ? "sigma" : "map");
				T.n[i].k = N_PAST;
				T.n[i].content = Val();
				T.n[i].expect = Val();
			} else if (np >= 0 && (int)i >= np && T.n[i].content.k != K_UNDEF) {
				if ((int)i == E->skipEmpty(S, 1, np)) { if (!isZero(T.n[i].content)) T.n[i].content = E->mkTop(T.kind == T_OUT32 ? 32 : 8); }
				else T.n[i].content = Val();
			}
		}
	}
	void atHeader(State &S) override { if (!S.isRet) check(S); }
	int retBarrier(State &S) override { return S.tape[0].isnull ? 0 : S.tape[0].n.size(); }
	void finish(State &S) override {
		const Scenario &sc = E->scens[S.scen];
		E->nObl++;
		Tape &T = S.tape[1];
		if (S.ret.k == K_UNDEF) E->report(S, "uninit", "the function returns an uninitialised value");
		if (S.ret.k != K_INT && S.ret.k != K_LIN) throw Imprecise{ "return value is not a position" };
		Lin l = Engine::ladd(E->toLin(S.ret), E->pos(T.b[findF(S, BF_SO)]), -1);
		if (!E->eq0(S, l)) E->report(S, "case-len", "the returned length is not that of the complete result", nullptr, false, "len");
		if (sc.destNull) return;
		/* the terminator first: it may also complete the text */
		int z = findF(S, BF_NULPOS);
		if (z < 0) z = findF(S, BF_SO);
		Lin d = Engine::ladd(E->pos(T.b[z]), E->pos(T.endB), -1);
		if (E->lt0(S, d)) {
			int q = E->skipEmpty(S, 1, z);
			if (T.n[q].k == N_OPEN || T.n[q].k == N_MANY) E->splitAt(S, 1, q);
			std::string cex;
			if (T.n[q].k != N_CELL || T.n[q].content.k == K_UNDEF || !E->fnEqual(S, T.n[q].content, E->mkInt(T.kind == T_OUT32 ? 32 : 8, 0), cex))
				E->report(S, "case-nul", "the output is not NUL-terminated behind the part of the result that fits", nullptr, false, "nul");
		}
		check(S);
		for (auto &n : T.n) if (n.k == N_CELL && n.expect.k != K_UNDEF) E->report(S, "case-missing", "a part of the result that fits is not written", nullptr, true, "missing");
	}
};

/* the case tests: true exactly when no codepoint would change, and where the first one is */
struct IsCaseMon : CaseBase {
	/* q: 0 a codepoint that changes was met, 1 phase of the word (title) */
	void init(State &S) override {
		S.mon.q = { 0, 0 };
		if (kind == 2) S.tape[0].bf[0] |= BF_WB;
	}
	std::string show(State &S) override { return "changed" + std::to_string(S.mon.q[0]) + " phase" + std::to_string(S.mon.q[1]); }
	void foldIn(State &S, int i) override {
		int ph = S.mon.q[1], map = kind;
		if (S.mon.q[0]) return;
		int sym = S.tape[0].n[i].sym;
		bool copy = false;
		if (kind == 2) {
			if (wordStart(S, i)) ph = 0;
			if (ph == 0) {
				if (E->symIn(S, sym, CC | CI)) ph = 1;
				else copy = true;
			} else map = 1;
		}
		bool change = !copy && E->symIn(S, sym, mc[map]);
		/* commit */
		S.mon.q[1] = ph;
		if (change) { S.mon.q[0] = 1; S.tape[0].bf[i] |= BF_SO; }
	}
	int retBarrier(State &S) override { return S.tape[0].isnull || S.mon.q[0] ? 0 : S.tape[0].n.size(); }
	void finish(State &S) override {
		const Scenario &sc = E->scens[S.scen];
		E->nObl++;
		Tape &T = S.tape[0];
		if (S.ret.k == K_UNDEF) E->report(S, "uninit", "the function returns an uninitialised value");
		std::string cex;
		bool want = !S.mon.q[0];
		if (!E->fnEqual(S, S.ret, E->mkInt(S.ret.w, want), cex))
			E->report(S, "iscase-result", want ? "the test fails although conversion leaves the text unchanged" : "the test succeeds although conversion changes the text", nullptr, false, want ? "false-negative" : "false-positive");
		if (sc.poNull) return;
		Val got;
		for (auto &s : S.objs[0].s) if (s.off == 0 && s.size == 8) got = s.v;
		if (got.k == K_UNDEF) E->report(S, "iscase-offset", "the offset is not reported", nullptr, false, "unset");
		if (got.k != K_INT && got.k != K_LIN) throw Imprecise{ "reported offset is not a position" };
		int at = -1;
		if (S.mon.q[0]) { for (size_t k = 0; k < T.bf.size(); k++) if (T.bf[k] & BF_SO) at = k; }
		else if (!T.isnull) {
			at = endIdx(S);
			for (int k = 0; k < at; k++) if (T.n[k].k == N_TRUNC) at = k;
		} else at = 0;
		Lin l = Engine::ladd(E->toLin(got), E->pos(T.b[at]), -1);
		if (!E->eq0(S, l)) E->report(S, "iscase-offset", S.mon.q[0] ? "the reported offset is not that of the first codepoint that changes" : "the reported offset is not the length of the text", nullptr, false, S.mon.q[0] ? "first" : "end");
	}
};
