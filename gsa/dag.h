// Finite-domain value expressions ("FN" values): hash-consed DAGs over input
// symbols, evaluated blockwise over a partition of the symbol universe.
#pragma once
#include <memory>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
typedef uint64_t u64;
typedef uint32_t u32;
typedef int64_t i64;
typedef __int128 i128;

struct Mask {
	static const int N = 8; /* 512 blocks */
	u64 w[N];
	Mask() { for (auto &x : w) x = 0; }
	static Mask one(int b) { Mask m; m.w[b >> 6] |= 1ULL << (b & 63); return m; }
	bool test(int b) const { return w[b >> 6] >> (b & 63) & 1; }
	void set(int b) { w[b >> 6] |= 1ULL << (b & 63); }
	void reset(int b) { w[b >> 6] &= ~(1ULL << (b & 63)); }
	bool any() const { for (auto x : w) if (x) return true; return false; }
	int count() const { int c = 0; for (auto x : w) c += __builtin_popcountll(x); return c; }
	Mask operator&(const Mask &o) const { Mask m; for (int i = 0; i < N; i++) m.w[i] = w[i] & o.w[i]; return m; }
	Mask operator|(const Mask &o) const { Mask m; for (int i = 0; i < N; i++) m.w[i] = w[i] | o.w[i]; return m; }
	Mask minus(const Mask &o) const { Mask m; for (int i = 0; i < N; i++) m.w[i] = w[i] & ~o.w[i]; return m; }
	bool subset(const Mask &o) const { for (int i = 0; i < N; i++) if (w[i] & ~o.w[i]) return false; return true; }
	bool inter(const Mask &o) const { for (int i = 0; i < N; i++) if (w[i] & o.w[i]) return true; return false; }
	bool operator==(const Mask &o) const { for (int i = 0; i < N; i++) if (w[i] != o.w[i]) return false; return true; }
	bool operator!=(const Mask &o) const { return !(*this == o); }
	bool operator<(const Mask &o) const { for (int i = 0; i < N; i++) if (w[i] != o.w[i]) return w[i] < o.w[i]; return false; }
	int first() const { for (int i = 0; i < N; i++) if (w[i]) return i * 64 + __builtin_ctzll(w[i]); return -1; }
	template <class F> void each(F f) const {
		for (int i = 0; i < N; i++) for (u64 x = w[i]; x; x &= x - 1) f(i * 64 + __builtin_ctzll(x));
	}
};

enum Op : uint8_t {
	O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_UDIV, O_UREM, O_SDIV, O_SREM,
	O_ZEXT, O_SEXT, O_TRUNC, O_EQ, O_NE, O_ULT, O_ULE, O_SLT, O_SLE, O_SELECT, O_GLOAD, O_SPEC
};

struct GBytes {
	std::string name;
	std::vector<uint8_t> b;
	std::vector<std::pair<u64, u64>> reloc; /* byte ranges holding pointers */
	std::vector<std::pair<int, u64>> target; /* global and offset each of them points to (-1: unknown) */
	bool isconst = true;
};

struct DNode {
	uint8_t op, w;
	int a, b, c;
	u64 k;
	u32 vars;
	bool hasload;
};

static inline u64 wmask(int w) { return w >= 64 ? ~0ULL : (1ULL << w) - 1; }
static inline i64 sx(u64 v, int w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

struct Dag {
	std::vector<DNode> n;
	struct H { size_t operator()(const std::vector<u64> &v) const { u64 h = 1469598103934665603ULL; for (u64 x : v) { h ^= x; h *= 1099511628211ULL; h ^= h >> 29; } return h; } };
	std::unordered_map<std::vector<u64>, int, H> tab;
	std::vector<GBytes> *globals = nullptr;
	std::vector<std::function<u64(u64)>> spec;
	bool oob = false; /* set by eval when a table load is out of bounds */

	int raw(uint8_t op, int w, int a, int b, int c, u64 k) {
		std::vector<u64> key = { op, (u64)w, (u64)(i64)a, (u64)(i64)b, (u64)(i64)c, k };
		auto it = tab.find(key);
		if (it != tab.end()) return it->second;
		DNode d; d.op = op; d.w = w; d.a = a; d.b = b; d.c = c; d.k = k;
		d.vars = op == O_VAR ? 1u << k : 0;
		d.hasload = op == O_GLOAD;
		for (int x : { a, b, c }) if (x >= 0) { d.vars |= n[x].vars; d.hasload |= n[x].hasload; }
		n.push_back(d);
		return tab[key] = (int)n.size() - 1;
	}
	int con(int w, u64 v) { return raw(O_CONST, w, -1, -1, -1, v & wmask(w)); }
	int var(int w, int i) { return raw(O_VAR, w, -1, -1, -1, i); }
	static u64 alu(uint8_t op, int w, int aw, u64 a, u64 b, u64 c) {
		u64 r;
		switch (op) {
		case O_ADD: r = a + b; break;
		case O_SUB: r = a - b; break;
		case O_MUL: r = a * b; break;
		case O_AND: r = a & b; break;
		case O_OR: r = a | b; break;
		case O_XOR: r = a ^ b; break;
		case O_SHL: r = b >= 64 ? 0 : a << b; break;
		case O_LSHR: r = b >= 64 ? 0 : a >> b; break;
		case O_ASHR: r = (u64)(sx(a, w) >> (b >= 63 ? 63 : b)); break;
		case O_UDIV: r = b ? a / b : 0; break;
		case O_UREM: r = b ? a % b : 0; break;
		case O_SDIV: r = sx(b, w) ? (u64)(sx(a, w) / sx(b, w)) : 0; break;
		case O_SREM: r = sx(b, w) ? (u64)(sx(a, w) % sx(b, w)) : 0; break;
		case O_ZEXT: r = a; break;
		case O_SEXT: r = (u64)sx(a, aw); break;
		case O_TRUNC: r = a; break;
		case O_EQ: r = a == b; break;
		case O_NE: r = a != b; break;
		case O_ULT: r = a < b; break;
		case O_ULE: r = a <= b; break;
		case O_SLT: r = sx(a, aw) < sx(b, aw); break;
		case O_SLE: r = sx(a, aw) <= sx(b, aw); break;
		case O_SELECT: r = a ? b : c; break;
		default: abort();
		}
		return r & wmask(w);
	}
	int mk(uint8_t op, int w, int a, int b = -1, int c = -1, u64 k = 0) {
		bool con_ = (a < 0 || n[a].op == O_CONST) && (b < 0 || n[b].op == O_CONST) && (c < 0 || n[c].op == O_CONST);
		if (op == O_GLOAD || op == O_SPEC) {
			if (con_ && op == O_GLOAD) { int d = raw(op, w, a, b, c, k); return con(w, eval(d, nullptr)); }
			return raw(op, w, a, b, c, k);
		}
		if (con_) return con(w, alu(op, w, n[a].w, n[a].k, b >= 0 ? n[b].k : 0, c >= 0 ? n[c].k : 0));
		if (op == O_SELECT && n[a].op == O_CONST) return n[a].k ? b : c;
		if (op == O_SELECT && b == c) return b;
		if ((op == O_ADD || op == O_OR || op == O_XOR) && n[a].op == O_CONST && n[b].op != O_CONST) std::swap(a, b);
		if ((op == O_MUL || op == O_AND || op == O_EQ || op == O_NE) && n[a].op == O_CONST && n[b].op != O_CONST) std::swap(a, b);
		if ((op == O_ADD || op == O_SUB || op == O_OR || op == O_XOR || op == O_SHL || op == O_LSHR || op == O_ASHR) &&
		    n[b].op == O_CONST && n[b].k == 0) return a;
		if (op == O_AND && n[b].op == O_CONST && n[b].k == 0) return con(w, 0);
		if (op == O_AND && n[b].op == O_CONST && n[b].k == wmask(w)) return a;
		if (op == O_MUL && n[b].op == O_CONST && n[b].k == 1) return a;
		if ((op == O_ZEXT || op == O_SEXT || op == O_TRUNC) && n[a].w == w) return a;
		if (op == O_ZEXT && n[a].op == O_ZEXT) return mk(O_ZEXT, w, n[a].a);
		if (op == O_TRUNC && (n[a].op == O_ZEXT || n[a].op == O_SEXT)) {
			int s = n[a].a;
			if (n[s].w == w) return s;
			if (n[s].w > w) return mk(O_TRUNC, w, s);
			return mk(n[a].op, w, s);
		}
		if ((op == O_EQ || op == O_ULE || op == O_SLE) && a == b) return con(w, 1);
		if ((op == O_NE || op == O_ULT || op == O_SLT) && a == b) return con(w, 0);
		/* (zext i1 x) != 0  ->  x */
		if ((op == O_NE || op == O_EQ) && n[b].op == O_CONST && n[b].k == 0 && n[a].op == O_ZEXT && n[n[a].a].w == 1)
			return op == O_NE ? n[a].a : mk(O_XOR, 1, n[a].a, con(1, 1));
		return raw(op, w, a, b, c, k);
	}
	std::vector<u64> mv;
	std::vector<u32> ms;
	std::vector<char> mo;
	u32 stamp = 0;
	void begin() {
		if (mv.size() < n.size()) { mv.resize(n.size() + 1024); ms.resize(n.size() + 1024, 0); }
		stamp++;
	}
	void seed(int d, u64 x) { mv[d] = x; ms[d] = stamp; }
	/* evaluate with the nodes seeded since begin() taken as given */
	u64 ev(int d, const u64 *v) {
		const DNode &x = n[d];
		if (x.op == O_CONST) return x.k;
		if (x.op == O_VAR) { if (ms[d] == stamp) return mv[d]; return v[x.k] & wmask(x.w); }
		if (ms[d] == stamp) return mv[d];
		u64 r;
		switch (x.op) {
		case O_GLOAD: {
			u64 off = ev(x.a, v);
			auto &g = (*globals)[x.k];
			unsigned s = (x.w + 7) / 8;
			r = 0;
			if (off > g.b.size() || g.b.size() - off < s) { oob = true; break; }
			for (unsigned i = 0; i < s; i++) r |= (u64)g.b[off + i] << (8 * i);
			r &= wmask(x.w);
			break;
		}
		case O_SPEC: r = spec[x.k](ev(x.a, v)) & wmask(x.w); break;
		case O_SELECT: r = ev(x.a, v) ? ev(x.b, v) : ev(x.c, v); break;
		default: {
			u64 a = ev(x.a, v), b = x.b >= 0 ? ev(x.b, v) : 0;
			r = alu(x.op, x.w, n[x.a].w, a, b, 0);
		}
		}
		mv[d] = r;
		ms[d] = stamp;
		return r;
	}
	u64 eval(int d, const u64 *v) { begin(); return ev(d, v); }
	/* many values of variable 0 at once; yo[i] tells of reads beyond a table */
	struct Many {
		Dag &D;
		std::vector<int> ord;
		std::vector<std::vector<u64>> val;
		std::vector<std::vector<char>> oo;
		std::vector<int> slot; /* per entry of ord: children */
		static const int N = 1024;
		Many(Dag &D_, int d) : D(D_) {
			std::map<int, int> idx;
			std::function<void(int)> go = [&](int q) {
				if (q < 0 || idx.count(q)) return;
				const DNode &x = D.n[q];
				go(x.a); go(x.b); go(x.c);
				idx[q] = ord.size();
				ord.push_back(q);
				for (int k : { x.a, x.b, x.c }) slot.push_back(k >= 0 ? idx[k] : -1);
			};
			go(d);
			val.assign(ord.size(), std::vector<u64>(N));
			oo.assign(ord.size(), std::vector<char>(N));
			for (size_t i = 0; i < ord.size(); i++) if (D.n[ord[i]].op == O_CONST) for (auto &v : val[i]) v = D.n[ord[i]].k;
		}
		void run(const u32 *in, int m) {
			for (size_t i = 0; i < ord.size(); i++) {
				const DNode &x = D.n[ord[i]];
				if (x.op == O_CONST) continue;
				u64 *y = val[i].data();
				char *o = oo[i].data();
				const u64 M = wmask(x.w);
				int sa = slot[3 * i], sb = slot[3 * i + 1], sc = slot[3 * i + 2];
				const u64 *a = sa >= 0 ? val[sa].data() : nullptr, *b = sb >= 0 ? val[sb].data() : nullptr, *c = sc >= 0 ? val[sc].data() : nullptr;
				if (x.op == O_VAR) { for (int k = 0; k < m; k++) y[k] = in[k] & M; continue; }
				if (x.hasload) {
					const char *oa = oo[sa].data(), *ob = sb >= 0 ? oo[sb].data() : nullptr, *oc = sc >= 0 ? oo[sc].data() : nullptr;
					if (x.op == O_SELECT) for (int k = 0; k < m; k++) o[k] = oa[k] | (a[k] ? ob[k] : oc[k]);
					else for (int k = 0; k < m; k++) o[k] = oa[k] | (ob ? ob[k] : 0);
				}
				switch (x.op) {
				case O_GLOAD: {
					auto &g = (*D.globals)[x.k];
					unsigned s = (x.w + 7) / 8;
					const size_t gs = g.b.size();
					for (int k = 0; k < m; k++) {
						if (a[k] > gs || gs - a[k] < s) { o[k] = 1; y[k] = 0; continue; }
						u64 r = 0;
						for (unsigned j = 0; j < s; j++) r |= (u64)g.b[a[k] + j] << (8 * j);
						y[k] = r & M;
					}
					break;
				}
				case O_SPEC: for (int k = 0; k < m; k++) y[k] = D.spec[x.k](a[k]) & M; break;
				case O_ADD: for (int k = 0; k < m; k++) y[k] = (a[k] + b[k]) & M; break;
				case O_SUB: for (int k = 0; k < m; k++) y[k] = (a[k] - b[k]) & M; break;
				case O_AND: for (int k = 0; k < m; k++) y[k] = a[k] & b[k]; break;
				case O_OR: for (int k = 0; k < m; k++) y[k] = a[k] | b[k]; break;
				case O_XOR: for (int k = 0; k < m; k++) y[k] = a[k] ^ b[k]; break;
				case O_EQ: for (int k = 0; k < m; k++) y[k] = a[k] == b[k]; break;
				case O_NE: for (int k = 0; k < m; k++) y[k] = a[k] != b[k]; break;
				case O_ULT: for (int k = 0; k < m; k++) y[k] = a[k] < b[k]; break;
				case O_ULE: for (int k = 0; k < m; k++) y[k] = a[k] <= b[k]; break;
				case O_ZEXT: case O_TRUNC: for (int k = 0; k < m; k++) y[k] = a[k] & M; break;
				case O_SELECT: for (int k = 0; k < m; k++) y[k] = a[k] ? b[k] : c[k]; break;
				default: { int aw = D.n[x.a].w; for (int k = 0; k < m; k++) y[k] = alu(x.op, x.w, aw, a[k], b ? b[k] : 0, c ? c[k] : 0); }
				}
			}
		}
		const u64 *out() { return val.back().data(); }
		const char *bad() { return oo.back().data(); }
	};
	/* rename variables: map[i] = new index */
	int remap(int d, const std::vector<int> &map) {
		const u32 vars = n[d].vars;
		u64 key = 0;
		bool ident = true, small = !(vars >> 8);
		for (u32 m = vars; m; m &= m - 1) {
			int i = __builtin_ctz(m);
			if (map[i] != i) ident = false;
			if (small) { if (map[i] >= 256) small = false; else key |= (u64)map[i] << (8 * i); }
		}
		if (ident) return d;
		if (small) {
			auto it = remaps[d].find(key);
			if (it != remaps[d].end()) return it->second;
		}
		std::unordered_map<int, int> memo;
		int r = remap_(d, map, memo);
		if (small) remaps[d][key] = r;
		return r;
	}
	std::unordered_map<int, std::unordered_map<u64, int>> remaps;
	int remap_(int d, const std::vector<int> &map, std::unordered_map<int, int> &memo) {
		DNode x = n[d];
		if (!x.vars) return d;
		auto it = memo.find(d);
		if (it != memo.end()) return it->second;
		int r;
		if (x.op == O_VAR) r = var(x.w, map[x.k]);
		else {
			int a = x.a >= 0 ? remap_(x.a, map, memo) : -1, b = x.b >= 0 ? remap_(x.b, map, memo) : -1, c = x.c >= 0 ? remap_(x.c, map, memo) : -1;
			r = raw(x.op, x.w, a, b, c, x.k);
		}
		return memo[d] = r;
	}
	/* interval evaluation of a unary dag for v in [lo,hi] */
	struct Iv { u64 lo, hi; bool oob; };
	Iv iv(int d, u64 lo, u64 hi) {
		const DNode x = n[d];
		Iv full = { 0, wmask(x.w), false };
		if (!x.vars) { u64 z = 0; u64 r = eval(d, &z); return { r, r, false }; }
		switch (x.op) {
		case O_VAR: return { lo, hi, false };
		case O_SPEC: return full;
		case O_GLOAD: {
			Iv a = iv(x.a, lo, hi);
			auto &g = (*globals)[x.k];
			unsigned s = (x.w + 7) / 8;
			full.oob = a.oob || a.hi + s > g.b.size() || a.hi + s < a.hi;
			if (a.lo == a.hi && !full.oob) { u64 z = lo; u64 r = eval(d, &z); return { r, r, false }; }
			return full;
		}
		case O_SELECT: {
			Iv a = iv(x.a, lo, hi);
			if (a.lo == a.hi) { Iv r = iv(a.lo ? x.b : x.c, lo, hi); r.oob |= a.oob; return r; }
			Iv b = iv(x.b, lo, hi), c = iv(x.c, lo, hi);
			return { std::min(b.lo, c.lo), std::max(b.hi, c.hi), a.oob || b.oob || c.oob };
		}
		default: break;
		}
		Iv a = iv(x.a, lo, hi), b = x.b >= 0 ? iv(x.b, lo, hi) : Iv{ 0, 0, false };
		bool oo = a.oob || b.oob;
		full.oob = oo;
		int aw = n[x.a].w;
		if (a.lo == a.hi && b.lo == b.hi) { u64 r = alu(x.op, x.w, aw, a.lo, b.lo, 0); return { r, r, oo }; }
		i128 M = (i128)wmask(x.w);
		switch (x.op) {
		case O_ADD: { i128 l = (i128)a.lo + b.lo, h = (i128)a.hi + b.hi; if (h <= M) return { (u64)l, (u64)h, oo };
			if (l > M && h - (M + 1) <= M) return { (u64)(l - M - 1), (u64)(h - M - 1), oo }; return full; }
		case O_SUB: { i128 l = (i128)a.lo - b.hi, h = (i128)a.hi - b.lo; if (l >= 0) return { (u64)l, (u64)h, oo }; return full; }
		case O_MUL: { i128 h = (i128)a.hi * b.hi; if (h <= M) return { a.lo * b.lo, (u64)h, oo }; return full; }
		case O_AND: return { 0, std::min(a.hi, b.hi), oo };
		case O_LSHR: if (b.lo == b.hi) return { b.lo >= 64 ? 0 : a.lo >> b.lo, b.lo >= 64 ? 0 : a.hi >> b.lo, oo }; return full;
		case O_SHL: if (b.lo == b.hi && b.lo < 64 && ((i128)a.hi << b.lo) <= M) return { a.lo << b.lo, a.hi << b.lo, oo }; return full;
		case O_ZEXT: return { a.lo, a.hi, oo };
		case O_SEXT: if (a.hi <= wmask(aw) >> 1) return { a.lo, a.hi, oo }; return full;
		case O_TRUNC: if (a.hi <= wmask(x.w)) return { a.lo, a.hi, oo }; return full;
		case O_EQ: if (a.hi < b.lo || b.hi < a.lo) return { 0, 0, oo }; return { 0, 1, oo };
		case O_NE: if (a.hi < b.lo || b.hi < a.lo) return { 1, 1, oo }; return { 0, 1, oo };
		case O_ULT: if (a.hi < b.lo) return { 1, 1, oo }; if (a.lo >= b.hi) return { 0, 0, oo }; return { 0, 1, oo };
		case O_ULE: if (a.hi <= b.lo) return { 1, 1, oo }; if (a.lo > b.hi) return { 0, 0, oo }; return { 0, 1, oo };
		case O_SLT: case O_SLE: {
			u64 sm = wmask(aw) >> 1;
			if (a.hi <= sm && b.hi <= sm) {
				if (x.op == O_SLT) { if (a.hi < b.lo) return { 1, 1, oo }; if (a.lo >= b.hi) return { 0, 0, oo }; }
				else { if (a.hi <= b.lo) return { 1, 1, oo }; if (a.lo > b.hi) return { 0, 0, oo }; }
			}
			return { 0, 1, oo };
		}
		default: return full;
		}
	}
	/* partial evaluation of a unary dag for v in [lo,hi] */
	int simp(int d, u64 lo, u64 hi) {
		std::unordered_map<int, int> memo;
		std::function<int(int)> go = [&](int q) -> int {
			const DNode x = n[q];
			if (!x.vars || x.op == O_VAR) return q;
			auto it = memo.find(q);
			if (it != memo.end()) return it->second;
			Iv r = iv(q, lo, hi);
			int res;
			if (r.lo == r.hi && !r.oob) res = con(x.w, r.lo);
			else if (x.op == O_SELECT) {
				int a = go(x.a);
				if (n[a].op == O_CONST) res = go(n[a].k ? x.b : x.c);
				else { int b = go(x.b), c = go(x.c); res = mk(O_SELECT, x.w, a, b, c, x.k); }
			} else {
				int a = x.a >= 0 ? go(x.a) : -1, b = x.b >= 0 ? go(x.b) : -1, c = x.c >= 0 ? go(x.c) : -1;
				res = mk(x.op, x.w, a, b, c, x.k);
			}
			return memo[q] = res;
		};
		return go(d);
	}
	std::string str(int d) const {
		static const char *nm[] = { "", "", "+", "-", "*", "&", "|", "^", "<<", ">>", ">>a", "/", "%", "s/", "s%", "zext", "sext", "trunc", "==", "!=", "<", "<=", "s<", "s<=", "?", "load", "spec" };
		const DNode &x = n[d];
		char buf[64];
		if (x.op == O_CONST) { snprintf(buf, sizeof buf, "0x%llx", (unsigned long long)x.k); return buf; }
		if (x.op == O_VAR) { snprintf(buf, sizeof buf, "x%llu", (unsigned long long)x.k); return buf; }
		if (x.op == O_GLOAD) return (*globals)[x.k].name + "[" + str(x.a) + "]";
		if (x.op == O_SPEC) return "spec" + std::to_string(x.k) + "(" + str(x.a) + ")";
		if (x.op == O_SELECT) return "(" + str(x.a) + "?" + str(x.b) + ":" + str(x.c) + ")";
		if (x.b < 0) return str(x.a);
		return "(" + str(x.a) + nm[x.op] + str(x.b) + ")";
	}
};

struct Imprecise { std::string why; };
struct RestartEx {};

/* The universe of input symbols and its current partition into blocks. */
struct Universe {
	bool bytes = false;
	static const u32 NCP = 0x110000;
	std::vector<uint16_t> blk; /* in-range elements */
	struct Iv { u64 lo, hi; int blk; };
	std::vector<Iv> oor;
	int shortBlk = -1; /* pseudo element: ill-formed unit cut by the following byte */
	int nblk = 0;
	std::vector<std::vector<std::pair<u32, u32>>> ranges; /* per block */
	std::vector<u64> rep;
	std::vector<uint8_t> wlo, whi; /* UTF-8 widths of the block's elements */
	static int uw(u32 c) { return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4; }
	Mask all;
	int version = 0;
	Dag *D = nullptr;
	struct BV { int version; std::vector<u64> val; std::vector<char> nonconst; std::vector<char> oob; };
	std::unordered_map<int, BV> cache;

	u32 size() const { return bytes ? 256 : NCP; }
	void initBytes() {
		bytes = true;
		blk.resize(256);
		for (int i = 0; i < 256; i++) blk[i] = i;
		nblk = 256;
		rebuild();
	}
	/* key(cp) for in-range elements; out-of-range and short element get own blocks */
	void initCps(const std::function<u64(u32)> &key) {
		bytes = false;
		blk.assign(NCP, 0);
		std::map<u64, int> m;
		for (u32 c = 0; c < NCP; c++) {
			auto it = m.emplace(key(c), (int)m.size()).first;
			blk[c] = it->second;
		}
		nblk = m.size();
		oor = { { 0x110000, 0xFFFFFFFFu, nblk++ } };
		shortBlk = nblk++;
		rebuild();
	}
	void rebuild() {
		if (nblk > 500) throw Imprecise{ "partition too fine (" + std::to_string(nblk) + " blocks)" };
		version++;
		ranges.assign(nblk, {});
		rep.assign(nblk, 0);
		for (u32 c = 0; c < size();) {
			u32 e = c;
			while (e + 1 < size() && blk[e + 1] == blk[c]) e++;
			ranges[blk[c]].push_back({ c, e });
			c = e + 1;
		}
		all = Mask();
		for (int i = 0; i < nblk; i++) {
			all.set(i);
			if (!ranges[i].empty()) rep[i] = ranges[i][0].first;
		}
		for (auto &o : oor) rep[o.blk] = o.lo;
		if (shortBlk >= 0) rep[shortBlk] = 0xFFFD;
		wlo.assign(nblk, 1);
		whi.assign(nblk, 4);
		if (!bytes) for (int i = 0; i < nblk; i++) {
			if (i == shortBlk) { whi[i] = 3; continue; }
			int lo = 9, hi = 0;
			for (auto &r : ranges[i]) {
				lo = std::min(lo, uw(r.first));
				hi = std::max(hi, uw(r.second));
				/* an ill-formed sequence decodes to U+FFFD as well */
				if (r.first <= 0xFFFD && r.second >= 0xFFFD) { lo = 1; hi = 4; }
			}
			if (hi) { wlo[i] = lo; whi[i] = hi; }
		}
		cache.clear();
		/* blocks that did not change keep what is known about them */
		bid.assign(nblk, 0);
		for (int i = 0; i < nblk; i++) {
			std::vector<std::pair<u32, u32>> k = ranges[i];
			for (auto &o : oor) if (o.blk == i) { k.push_back({ 0xFFFFFFFF, 1 }); k.push_back({ (u32)o.lo, (u32)(o.lo >> 32) }); k.push_back({ (u32)o.hi, (u32)(o.hi >> 32) }); }
			if (i == shortBlk) k.push_back({ 0xFFFFFFFF, 2 });
			bid[i] = bids.emplace(k, (int)bids.size()).first->second;
		}
	}
	std::vector<int> bid;
	std::map<std::vector<std::pair<u32, u32>>, int> bids;
	struct BR { u64 val; char nonconst, oob; };
	std::unordered_map<int, std::unordered_map<int, BR>> old;
	const BV &vals(int d) {
		auto it = cache.find(d);
		if (it != cache.end()) return it->second;
		BV bv;
		bv.version = version;
		bv.val.assign(nblk, 0);
		bv.nonconst.assign(nblk, 0);
		bv.oob.assign(nblk, 0);
		/* cheap path: children constant per block */
		const DNode x = D->n[d];
		bool cheap = x.op != O_VAR && x.op != O_CONST && x.op != O_GLOAD && x.op != O_SPEC && !bytes;
		std::vector<const BV *> ch;
		if (cheap) {
			for (int k : { x.a, x.b, x.c }) if (k >= 0 && D->n[k].vars) vals(k);
		}
		auto &ob = old[d];
		std::unique_ptr<Dag::Many> many;
		for (int b = 0; b < nblk; b++) {
			auto oi = ob.find(bid[b]);
			if (oi != ob.end()) { bv.val[b] = oi->second.val; bv.nonconst[b] = oi->second.nonconst; bv.oob[b] = oi->second.oob; continue; }
			struct Save { BV &bv; int b; std::unordered_map<int, BR> &ob; int id; ~Save() { ob[id] = { bv.val[b], bv.nonconst[b], bv.oob[b] }; } } save{ bv, b, ob, bid[b] };
			if (cheap) {
				bool nc = false, oo = false;
				int skip = -1; /* the branch of a selection that is not taken does not count */
				if (x.op == O_SELECT && (!D->n[x.a].vars || !cache[x.a].nonconst[b])) {
					u64 zz = 0, cv = D->n[x.a].vars ? cache[x.a].val[b] : D->eval(x.a, &zz);
					skip = cv ? 2 : 1;
				}
				int ki = 0;
				for (int k : { x.a, x.b, x.c }) { if (ki++ != skip && k >= 0 && D->n[k].vars) { auto &c = cache[k]; nc |= c.nonconst[b]; oo |= c.oob[b]; } }
				if (!nc) {
					u64 z[3] = { 0, 0, 0 };
					int i = 0;
					for (int k : { x.a, x.b, x.c }) { if (k >= 0) { u64 zz = 0; z[i] = D->n[k].vars ? cache[k].val[b] : D->eval(k, &zz); } i++; }
					bv.val[b] = x.op == O_SELECT ? (z[0] ? z[1] : z[2]) : Dag::alu(x.op, x.w, D->n[x.a].w, z[0], z[1], 0);
					bv.oob[b] = oo;
					continue;
				}
			}
			bool first = true;
			if (!many) many = std::make_unique<Dag::Many>(*D, d);
			u32 in[Dag::Many::N];
			int m = 0;
			auto flush = [&]() {
				many->run(in, m);
				const u64 *y = many->out();
				const char *o = many->bad();
				if (m && first) { bv.val[b] = y[0]; first = false; }
				for (int k = 0; k < m; k++) { if (o[k]) bv.oob[b] = 1; if (y[k] != bv.val[b]) bv.nonconst[b] = 1; }
				m = 0;
				return bv.nonconst[b] && !x.hasload;
			};
			bool done = false;
			for (auto &r : ranges[b]) { if (done) break; for (u32 c = r.first; c <= r.second; c++) {
				in[m++] = c;
				if (m == Dag::Many::N && flush()) { done = true; break; }
			} }
			if (m) flush();
			for (auto &o : oor) if (o.blk == b) {
				auto r = D->iv(d, o.lo, o.hi);
				if (r.oob) bv.oob[b] = 1;
				if (r.lo == r.hi) { if (!first && bv.val[b] != r.lo) bv.nonconst[b] = 1; bv.val[b] = r.lo; first = false; }
				else bv.nonconst[b] = 1;
			}
			if (b == shortBlk) { u64 v = 0xFFFD; D->oob = false; bv.val[b] = D->eval(d, &v); bv.oob[b] = D->oob; }
		}
		return cache[d] = bv;
	}
	/* refine the partition so that d is constant on every block (or on the blocks of `in`) */
	void refine(int d, const Mask *in = nullptr) {
		if (bytes) throw Imprecise{ "byte blocks cannot be refined" };
		/* prefer refining by the table value below, if it has few values */
		int t = d;
		for (;;) {
			const DNode &x = D->n[t];
			if (x.op == O_GLOAD || x.op == O_SELECT) break;
			int nx = -1, cnt = 0;
			for (int k : { x.a, x.b, x.c }) if (k >= 0 && D->n[k].hasload) { nx = k; cnt++; }
			if (cnt != 1) { t = -1; break; }
			t = nx;
		}
		auto apply = [&](int q, size_t maxv) -> bool {
			std::map<std::pair<int, u64>, int> m;
			std::vector<uint16_t> nb(NCP);
			std::set<u64> distinct;
			int nn = 0;
			/* blocks outside `in` stay whole */
			Dag::Many many(*D, q);
			u32 buf[Dag::Many::N];
			for (u32 c = 0; c < NCP; c++) {
				u64 y = 0;
				if (c % Dag::Many::N == 0) { for (int k = 0; k < Dag::Many::N; k++) buf[k] = c + k; many.run(buf, Dag::Many::N); }
				if (!in || in->test(blk[c])) { y = many.out()[c % Dag::Many::N]; distinct.insert(y); if (distinct.size() > maxv) return false; }
				auto it = m.find({ blk[c], y });
				if (it == m.end()) it = m.emplace(std::make_pair((int)blk[c], y), nn++).first;
				nb[c] = it->second;
				if (nn > 450) return false;
			}
			blk = nb;
			nblk = nn;
			std::vector<Iv> no;
			std::map<std::pair<int, u64>, int> om;
			int pieces = 0;
			std::function<void(Iv)> go = [&](Iv o) {
				if (in && !in->test(o.blk)) {
					auto it = om.find({ o.blk, 0 });
					if (it == om.end()) it = om.emplace(std::make_pair(o.blk, (u64)0), nblk++).first;
					no.push_back({ o.lo, o.hi, it->second });
					return;
				}
				auto r = D->iv(q, o.lo, o.hi);
				if (r.lo == r.hi || o.lo == o.hi) {
					auto it = om.find({ o.blk, r.lo });
					if (it == om.end()) it = om.emplace(std::make_pair(o.blk, r.lo), nblk++).first;
					no.push_back({ o.lo, o.hi, it->second });
					return;
				}
				if (++pieces > 2000) throw Imprecise{ "out-of-range values depend on " + D->str(q) };
				u64 mid = o.lo + (o.hi - o.lo) / 2;
				go({ o.lo, mid, o.blk });
				go({ mid + 1, o.hi, o.blk });
			};
			for (auto &o : oor) go(o);
			oor = no;
			shortBlk = nblk++;
			return true;
		};
		bool done = false;
		if (t >= 0 && t != d) done = apply(t, 64);
		if (!done && !apply(d, 256)) throw Imprecise{ "decision depends on too many values of " + D->str(d) };
		rebuild();
	}
	int blockOf(u64 v) const {
		if (v < size()) return blk[v];
		for (auto &o : oor) if (v >= o.lo && v <= o.hi) return o.blk;
		return -1;
	}
	std::string show(const Mask &m) const {
		if (m == all) return "any";
		std::string s;
		int k = 0, tot = m.count();
		m.each([&](int b) {
			if (k++ >= 3) return;
			char buf[32];
			if (b == shortBlk) snprintf(buf, sizeof buf, "SHORT");
			else snprintf(buf, sizeof buf, bytes ? "%02llX" : "U+%04llX", (unsigned long long)rep[b]);
			if (!s.empty()) s += ",";
			s += buf;
		});
		if (tot > 3) s += ",..." + std::to_string(tot - 3);
		return "{" + s + "}";
	}
};
