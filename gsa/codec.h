// Monitors for the UTF-8 decoder and encoder.
#pragma once
#include "spec.h"

struct DecodeMon : Monitor {
	bool foldsInput() override { return false; }
	Mask range(int a, int b) { Mask m; for (int i = a; i <= b; i++) m.set(i); return m; }
	bool is(State &S, const Val &v, i64 n, std::string &cex) {
		if (v.k == K_LIN) { Lin l = E->lins[v.id]; l.c -= n; return E->eq0(S, l); }
		if (v.k == K_UNDEF) E->report(S, "uninit", "the decoder returns an uninitialised value");
		return E->fnEqual(S, v, E->mkInt(64, n), cex);
	}
	void finish(State &S) override {
		const Scenario &sc = E->scens[S.scen];
		E->nObl++;
		Mask cont = range(0x80, 0xBF);
		i64 ret = 0;
		Val cp = E->mkInt(32, 0xFFFD);
		bool wellformed = false;
		std::string form;
		int i = 0;
		std::vector<int> sy;
		if (!sc.srcNull && !E->eot(S, 0, i)) {
			if (S.tape[0].n[i].k != N_CELL) E->splitAt(S, 0, i);
			std::vector<Mask> lead = { range(0, 0x7F), range(0x80, 0xBF) | range(0xF8, 0xFF), range(0xC0, 0xDF), range(0xE0, 0xEF), range(0xF0, 0xF7) };
			static const char *nm[] = { "ASCII", "no lead byte", "lead of 2", "lead of 3", "lead of 4" };
			sy.push_back(S.tape[0].n[i].sym);
			int c = E->symClass(S, sy[0], lead);
			form = nm[c];
			if (c == 0) { ret = 1; cp = E->mkSym(sy[0], 32); wellformed = true; }
			else if (c == 1) ret = 1;
			else {
				int n = c, k;
				for (k = 1; k < n; k++) {
					i = E->skipEmpty(S, 0, i + 1);
					if (E->eot(S, 0, i)) { ret = sc.nul ? k : n; form += sc.nul ? ", NUL" : ", length ends"; break; }
					if (S.tape[0].n[i].k != N_CELL) E->splitAt(S, 0, i);
					if (!E->in(S, 0, i, cont)) { ret = k; form += ", interrupted"; break; }
					sy.push_back(S.tape[0].n[i].sym);
				}
				if (k == n) {
					ret = n;
					form += ", complete";
					auto sym = [&](int q) { return E->mkSym(sy[q], 32); };
					auto K = [&](u64 c) { return E->mkInt(32, c); };
					Val m = K(n == 2 ? 0x1F : n == 3 ? 0x0F : 0x07), b = sym(0), v = E->dagop(O_AND, 32, &b, &m);
					for (int q = 1; q < n; q++) {
						Val s6 = K(6), m6 = K(0x3F), x = sym(q);
						v = E->dagop(O_SHL, 32, &v, &s6);
						x = E->dagop(O_AND, 32, &x, &m6);
						v = E->dagop(O_OR, 32, &v, &x);
					}
					Val mn = K(n == 2 ? 0x80 : n == 3 ? 0x800 : 0x10000), sl = K(0xD800), sh = K(0xDFFF), mx = K(0x10FFFF);
					Val lo = E->dagop(O_ULT, 1, &v, &mn);
					Val a1 = E->dagop(O_ULE, 1, &sl, &v), a2 = E->dagop(O_ULE, 1, &v, &sh);
					Val bad = E->dagop(O_AND, 1, &a1, &a2), hi = E->dagop(O_ULT, 1, &mx, &v);
					bad = E->dagop(O_OR, 1, &bad, &lo);
					bad = E->dagop(O_OR, 1, &bad, &hi);
					wellformed = !E->constOf(S, bad);
					form = std::string(nm[c]) + (wellformed ? ", well-formed" : ", overlong, surrogate or out of range");
					if (wellformed) cp = v;
				}
			}
		} else if (sc.nul) { form = "NUL"; ret = 1; cp = E->mkInt(32, 0); wellformed = true; }
		else form = "empty";
		std::string cex;
		if (!is(S, S.ret, ret, cex)) {
			E->report(S, wellformed ? "decode-length-complete" : "decode-length", "the decoder does not return " + std::to_string(ret) + " for " + form + (cex.empty() ? "" : " (" + cex + ")"), nullptr, false, "len|" + form);
		}
		if (!sc.poNull) {
			Val got = E->load(S, E->mkPtr(0, E->mkInt(64, 0)), 4, 32, nullptr);
			if (got.k == K_UNDEF) E->report(S, "decode-value", "the decoder stores no codepoint for " + form, nullptr, true, "val|" + form);
			if (!E->fnEqual(S, got, cp, cex)) E->report(S, "decode-value", "the decoder stores a wrong codepoint for " + form + " (" + cex + ")", nullptr, true, "val|" + form);
		}
	}
};

struct EncodeMon : Monitor {
	bool foldsInput() override { return false; }
	Mask wm[4];
	void setup() override {}
	static int widthOf(u64 c) { return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 || c > 0x10FFFF ? 3 : 4; }
	void finish(State &S) override {
		const Scenario &sc = E->scens[S.scen];
		E->nObl++;
		/* symbol 0 is the codepoint */
		Val x = E->mkSym(0, 32);
		auto K = [&](u64 c) { return E->mkInt(32, c); };
		auto op = [&](uint8_t o, const Val &a, const Val &b) { return E->dagop(o, o >= O_EQ && o <= O_SLE ? 1 : 32, &a, &b); };
		auto sel = [&](const Val &c, const Val &a, const Val &b) { return E->dagop(O_SELECT, 32, &c, &a, &b); };
		Val bad1 = op(O_ULE, K(0xD800), x), bad2 = op(O_ULE, x, K(0xDFFF));
		Val sur = E->dagop(O_AND, 1, &bad1, &bad2);
		x = sel(sur, K(0xFFFD), x);
		x = sel(op(O_ULT, K(0x10FFFF), x), K(0xFFFD), x);
		Val w = sel(op(O_ULT, x, K(0x80)), K(1), sel(op(O_ULT, x, K(0x800)), K(2), sel(op(O_ULT, x, K(0x10000)), K(3), K(4))));
		int n = (int)E->constOf(S, w);
		std::string form = "codepoints of " + std::to_string(n) + " bytes", cex;
		Val r = S.ret;
		if (r.k == K_UNDEF) E->report(S, "uninit", "the encoder returns an uninitialised value");
		bool ok;
		if (r.k == K_LIN) { Lin l = E->lins[r.id]; l.c -= n; ok = E->eq0(S, l); }
		else ok = E->fnEqual(S, r, E->mkInt(64, n), cex);
		if (!ok) E->report(S, "encode-length", "the encoder does not return " + std::to_string(n) + " for " + form + " (" + cex + ")", nullptr, false, "len|" + form);
		if (sc.destNull) return;
		Tape &T = S.tape[1];
		Lin l = E->pos(T.endB); l.c -= n;
		bool fits = !E->lt0(S, l);
		int i = 0;
		for (int k = 0;; k++) {
			i = E->skipEmpty(S, 1, i);
			if (i >= (int)T.n.size() || T.n[i].k != N_CELL) {
				if (fits && k < n) E->report(S, "encode-bytes", "the encoder does not write byte " + std::to_string(k) + " for " + form, nullptr, true, "miss|" + form);
				break;
			}
			Val c = T.n[i].content;
			if (k >= n || !fits) {
				if (c.k != K_UNDEF) E->report(S, fits ? "encode-extra" : "encode-partial", fits ? "the encoder writes behind its result for " + form : "the encoder writes although the buffer is too short for " + form, nullptr, true, "extra|" + form);
			} else {
				if (c.k == K_UNDEF) E->report(S, "encode-bytes", "the encoder does not write byte " + std::to_string(k) + " for " + form, nullptr, true, "miss|" + form);
				Val b;
				if (n == 1) b = x;
				else if (k == 0) { b = op(O_LSHR, x, K(6 * (n - 1))); b = op(O_OR, b, K(n == 2 ? 0xC0 : n == 3 ? 0xE0 : 0xF0)); }
				else { b = op(O_LSHR, x, K(6 * (n - 1 - k))); b = op(O_AND, b, K(0x3F)); b = op(O_OR, b, K(0x80)); }
				b = E->dagop(O_TRUNC, 8, &b);
				if (!E->fnEqual(S, c, b, cex)) E->report(S, "encode-bytes", "the encoder writes a wrong byte " + std::to_string(k) + " for " + form + " (" + cex + ")", nullptr, true, "byte|" + form);
			}
			i++;
		}
	}
};
