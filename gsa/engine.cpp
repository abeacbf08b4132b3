#include "engine.h"
#include <llvm/Passes/PassBuilder.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <algorithm>
#include <chrono>
#include <deque>

double nowSec() {
	using namespace std::chrono;
	return duration<double>(steady_clock::now().time_since_epoch()).count();
}

/* ------------------------------------------------------------------ values */
Val Engine::mkFn(int w, int dag, const std::vector<int> &syms) {
	/* drop unused variables and merge duplicates */
	const DNode &n = D.n[dag];
	if (!n.vars) { u64 z = 0; return mkInt(w, D.eval(dag, &z)); }
	std::vector<int> ns, map(32, 0);
	bool ident = true;
	for (size_t i = 0; i < syms.size(); i++) {
		if (!(n.vars >> i & 1)) { ident = false; continue; }
		size_t j = 0;
		while (j < ns.size() && ns[j] != syms[i]) j++;
		if (j == ns.size()) ns.push_back(syms[i]);
		map[i] = j;
		if (j != i) ident = false;
	}
	if (!ident) dag = D.remap(dag, map);
	Val v;
	v.k = K_FN; v.w = w;
	v.id = fnId({ dag, ns });
	return v;
}

Val Engine::dagop(uint8_t op, int w, const Val *a, const Val *b, const Val *c, u64 k) {
	std::vector<int> syms;
	auto conv = [&](const Val *v) -> int {
		if (!v) return -1;
		if (v->k == K_INT) return D.con(v->w, v->c);
		const FnV f = fns[v->id];
		std::vector<int> map(32, 0);
		for (size_t i = 0; i < f.syms.size(); i++) {
			size_t j = 0;
			while (j < syms.size() && syms[j] != f.syms[i]) j++;
			if (j == syms.size()) syms.push_back(f.syms[i]);
			map[i] = j;
		}
		return D.remap(f.dag, map);
	};
	int x = conv(a), y = conv(b), z = conv(c);
	if (syms.size() > 6) throw Imprecise{ "value depends on too many symbols" };
	int d = D.mk(op, w, x, y, z, k);
	return mkFn(w, d, syms);
}

static void maxUnary(Dag &D, int d, std::vector<int> &out) {
	std::unordered_set<int> seen;
	std::function<void(int)> go = [&](int d) {
		const DNode &x = D.n[d];
		if (!x.vars || !seen.insert(d).second) return;
		if (!(x.vars & (x.vars - 1))) { out.push_back(d); return; }
		for (int k : { x.a, x.b, x.c }) if (k >= 0) go(k);
	};
	go(d);
}

u64 Engine::constOf(State &S, const Val &v) {
	if (v.k == K_INT) return v.c;
	if (v.k != K_FN) throw Imprecise{ "undetermined value" };
	const FnV f = fns[v.id];
	nDecide++;
	if (f.syms.size() == 1) {
		int sym = f.syms[0];
		Mask m = S.syms[sym];
		int dag = f.dag;
		/* normalise to variable 0 */
		const Universe::BV &bv = U.vals(dag);
		bool nc = false;
		m.each([&](int b) { nc |= bv.nonconst[b]; });
		if (nc) { U.refine(dag, &m); throw RestartEx{}; }
		auto &ob = observed[dag];
		ob = ob | m;
		std::map<u64, Mask> g;
		m.each([&](int b) { g[bv.val[b]].set(b); });
		if (g.size() == 1) return g.begin()->first;
		SplitEx e;
		for (auto &p : g) { Mask pm = p.second; e.alts.push_back([sym, pm](State &s) { s.syms[sym] = s.syms[sym] & pm; return s.syms[sym].any(); }); }
		throw e;
	}
	/* several symbols */
	std::vector<int> mu;
	maxUnary(D, f.dag, mu);
	if (!U.bytes) for (int d : mu) {
		int vi = __builtin_ctz(D.n[d].vars);
		std::vector<int> map(32, 0);
		int d0 = D.remap(d, map);
		const Universe::BV &bv = U.vals(d0);
		Mask m = S.syms[f.syms[vi]];
		bool nc = false;
		m.each([&](int b) { nc |= bv.nonconst[b]; });
		if (nc) { U.refine(d0, &m); throw RestartEx{}; }
		auto &ob = observed[d0];
		ob = ob | m;
	}
	size_t ns = f.syms.size();
	std::vector<std::vector<u64>> vals(ns);
	std::vector<std::vector<int>> blks(ns);
	double prod = 1;
	for (size_t i = 0; i < ns; i++) {
		S.syms[f.syms[i]].each([&](int b) { blks[i].push_back(b); vals[i].push_back(U.rep[b]); });
		prod *= vals[i].size();
	}
	if (prod > 2e7) throw Imprecise{ "joint decision over too many blocks" };
	/* one-symbol parts are looked up, only the rest is evaluated */
	struct Seed { int d, sym; std::vector<u64> val; };
	std::vector<Seed> seeds;
	if (!U.bytes) for (int d : mu) {
		int vi = __builtin_ctz(D.n[d].vars);
		std::vector<int> map(32, 0);
		const Universe::BV &bv = U.vals(D.remap(d, map));
		Seed sd; sd.d = d; sd.sym = vi;
		for (int b : blks[vi]) sd.val.push_back(bv.val[b]);
		seeds.push_back(sd);
	}
	/* row hashes for every symbol in one sweep */
	std::vector<std::vector<u64>> h(ns);
	for (size_t i = 0; i < ns; i++) h[i].assign(vals[i].size(), 1469598103934665603ULL);
	std::vector<size_t> ix(ns, 0);
	std::vector<u64> x(ns);
	bool same = true, first = true;
	u64 v0 = 0;
	for (;;) {
		for (size_t i = 0; i < ns; i++) x[i] = vals[i][ix[i]];
		D.begin();
		for (auto &sd : seeds) D.seed(sd.d, sd.val[ix[sd.sym]]);
		u64 r = D.ev(f.dag, x.data());
		if (first) { v0 = r; first = false; }
		else if (r != v0) same = false;
		for (size_t i = 0; i < ns; i++) { u64 &q = h[i][ix[i]]; q = (q ^ (r + 0x9e3779b97f4a7c15ULL)) * 1099511628211ULL; q ^= q >> 31; }
		size_t k = ns;
		while (k-- > 0) { if (++ix[k] < vals[k].size()) break; ix[k] = 0; if (!k) goto done; }
	}
done:
	if (same) return v0;
	/* split the symbol with the fewest distinct rows (but at least two) */
	int best = -1; size_t bestn = 1u << 30;
	for (size_t i = 0; i < ns; i++) {
		std::set<u64> d(h[i].begin(), h[i].end());
		if (d.size() > 1 && d.size() < bestn) { bestn = d.size(); best = i; }
	}
	if (best < 0) best = 0; /* symmetric hashes cannot happen when values differ, but stay safe */
	std::map<u64, Mask> g;
	for (size_t j = 0; j < blks[best].size(); j++) g[bestn == (1u << 30) ? j : h[best][j]].set(blks[best][j]);
	SplitEx e;
	int sym = f.syms[best];
	for (auto &p : g) { Mask pm = p.second; e.alts.push_back([sym, pm](State &s) { s.syms[sym] = s.syms[sym] & pm; return s.syms[sym].any(); }); }
	throw e;
}

bool Engine::fnEqual(State &S, const Val &a, const Val &b, std::string &cex) {
	if (a.same(b)) return true;
	if ((a.k != K_INT && a.k != K_FN) || (b.k != K_INT && b.k != K_FN)) { cex = "undetermined value"; return false; }
	std::vector<int> syms;
	int da, db;
	{
		Val t = dagop(O_EQ, 1, &a, &b);
		(void)da; (void)db;
		if (t.k == K_INT) { if (!t.c) cex = "values differ always"; return t.c; }
		const FnV f = fns[t.id];
		nObl++;
		if (f.syms.size() == 1) {
			Mask m = S.syms[f.syms[0]];
			auto &pr = proved[f.dag];
			if (pr.first != U.version) { pr.first = U.version; pr.second = Mask(); }
			m = m.minus(pr.second);
			if (!m.any()) return true;
			bool ok = true;
			char buf[96];
			m.each([&](int bl) {
				if (!ok) return;
				auto &pb = provedCp[f.dag];
				if (pb.empty()) pb.resize(0x110000);
				for (auto &r : U.ranges[bl]) for (u32 c = r.first; c <= r.second && ok; c++) {
					if (pb[c]) continue;
					u64 v = c;
					if (D.eval(f.dag, &v)) pb[c] = true;
					else { ok = false; snprintf(buf, sizeof buf, "for symbol 0x%X", c); cex = buf; }
				}
				if (bl == U.shortBlk) { u64 v = 0xFFFD; if (!D.eval(f.dag, &v)) { ok = false; cex = "for an ill-formed sequence"; } }
				for (auto &o : U.oor) if (ok && o.blk == bl) {
					auto r = D.iv(f.dag, o.lo, o.hi);
					if (r.lo == 1) continue;
					int sd = D.simp(f.dag, o.lo, o.hi);
					if (D.n[sd].op == O_CONST && D.n[sd].k == 1) continue;
					/* interval evaluation lost precision: a witness refutes, otherwise bisect */
					for (int k = 0; k <= 64 && ok; k++) {
						u64 v = k == 64 ? o.hi : o.lo + (o.hi - o.lo) / 64 * k;
						if (!D.eval(f.dag, &v)) { ok = false; snprintf(buf, sizeof buf, "for symbol 0x%llX", (unsigned long long)v); cex = buf; }
					}
					int budget = 20000;
					std::function<bool(u64, u64)> bis = [&](u64 lo, u64 hi) {
						if (D.iv(f.dag, lo, hi).lo == 1) return true;
						int q = D.simp(f.dag, lo, hi);
						if (D.n[q].op == O_CONST) return D.n[q].k == 1;
						if (lo == hi) return D.eval(f.dag, &lo) != 0;
						if (!budget--) throw Imprecise{ "comparison of two functions over many values" };
						u64 mid = lo + (hi - lo) / 2;
						return bis(lo, mid) && bis(mid + 1, hi);
					};
					if (ok && !bis(o.lo, o.hi)) { ok = false; cex = "for a symbol beyond 0x10FFFF"; }
				}
			});
			if (ok) pr.second = pr.second | m;
			return ok;
		}
		if (!U.bytes) {
			/* decide everything but the symbol the expected value depends on */
			int keep = f.syms[0];
			if (b.k == K_FN) keep = fns[b.id].syms[0];
			std::vector<int> mu;
			maxUnary(D, f.dag, mu);
			for (int d : mu) {
				int vi = __builtin_ctz(D.n[d].vars);
				if (f.syms[vi] == keep) continue;
				std::vector<int> map(32, 0);
				constOf(S, mkFn(D.n[d].w, D.remap(d, map), { f.syms[vi] }));
			}
			bool ok = true;
			std::vector<u64> x(f.syms.size());
			int ki = -1;
			for (size_t i = 0; i < f.syms.size(); i++) { if (f.syms[i] == keep) ki = i; else x[i] = U.rep[S.syms[f.syms[i]].first()]; }
			S.syms[keep].each([&](int bl) {
				auto tryv = [&](u64 v) {
					if (!ok) return;
					char buf[64];
					if (ki >= 0) x[ki] = v;
					if (!D.eval(f.dag, x.data())) { ok = false; snprintf(buf, sizeof buf, "for symbol 0x%llX", (unsigned long long)v); cex = buf; }
				};
				for (auto &r : U.ranges[bl]) for (u32 c = r.first; c <= r.second && ok; c++) tryv(c);
				if (bl == U.shortBlk) tryv(0xFFFD);
				for (auto &o : U.oor) if (o.blk == bl) for (int k = 0; k <= 64; k++) tryv(k == 64 ? o.hi : o.lo + (o.hi - o.lo) / 64 * k);
			});
			return ok;
		}
		size_t ns = f.syms.size();
		std::vector<std::vector<u64>> vals(ns);
		for (size_t i = 0; i < ns; i++) S.syms[f.syms[i]].each([&](int bl) { vals[i].push_back(bl); });
		std::vector<size_t> ix(ns, 0);
		std::vector<u64> x(ns);
		for (;;) {
			for (size_t i = 0; i < ns; i++) x[i] = vals[i][ix[i]];
			if (!D.eval(f.dag, x.data())) {
				char buf[96]; cex = "for bytes";
				for (size_t i = 0; i < ns; i++) { snprintf(buf, sizeof buf, " %02llX", (unsigned long long)x[i]); cex += buf; }
				return false;
			}
			size_t k = ns;
			while (k-- > 0) { if (++ix[k] < vals[k].size()) break; ix[k] = 0; if (!k) return true; }
		}
	}
}

/* ------------------------------------------------------------------ tapes */
void Engine::width(const State &S, const Tape &T, const Node &n, i64 &lo, i64 &hi) {
	if (n.wd) { lo = hi = n.wd; return; }
	switch (n.k) {
	case N_CELL:
		lo = 1; hi = 1;
		if (T.kind == T_UNITS) {
			lo = 4;
			if (n.sym < 0) { lo = 1; hi = 4; }
			else S.syms[n.sym].each([&](int b) { lo = std::min(lo, (i64)U.wlo[b]); hi = std::max(hi, (i64)U.whi[b]); });
		}
		break;
	case N_MANY: case N_PAST: lo = 1; hi = BIG; break;
	case N_OPEN: lo = 0; hi = BIG; break;
	case N_EMPTY: lo = hi = 0; break;
	case N_TRUNC: lo = 1; hi = 3; break;
	case N_OVER: lo = 1; hi = 3; break;
	default: lo = 0; hi = BIG; break; /* INF */
	}
}

/* tell the widths of a decoded unit apart */
void Engine::splitWidth(State &S, int t, int idx) {
	Node N = S.tape[t].n[idx];
	int left = S.tape[t].b[idx];
	if (N.wd || (N.k != N_CELL && N.k != N_TRUNC && N.k != N_OVER)) throw Imprecise{ "width of a sequence" };
	SplitEx e;
	auto fixw = [=](State &s, int w) { Tape &T = s.tape[t]; for (size_t i = 0; i < T.n.size(); i++) if (T.b[i] == left && T.n[i].k == N.k) T.n[i].wd = w; };
	if (N.k == N_CELL) {
		int x = D.var(32, 0);
		int d = D.mk(O_SELECT, 32, D.mk(O_ULT, 1, x, D.con(32, 0x10000)), D.con(32, 3), D.con(32, 4));
		d = D.mk(O_SELECT, 32, D.mk(O_ULT, 1, x, D.con(32, 0x800)), D.con(32, 2), d);
		d = D.mk(O_SELECT, 32, D.mk(O_ULT, 1, x, D.con(32, 0x80)), D.con(32, 1), d);
		d = D.mk(O_SELECT, 32, D.mk(O_EQ, 1, x, D.con(32, 0xFFFD)), D.con(32, 5), d);
		Mask m = S.syms[N.sym];
		const Universe::BV &bv = U.vals(d);
		bool nc = false;
		m.each([&](int b) { nc |= bv.nonconst[b]; });
		if (nc) { U.refine(d, &m); throw RestartEx{}; }
		Mask g[6];
		m.each([&](int b) { g[b == U.shortBlk ? 0 : bv.val[b]].set(b); });
		for (int v = 0; v < 6; v++) {
			if (!g[v].any()) continue;
			Mask gm = g[v];
			int sym = N.sym;
			for (int w = 1; w <= 4; w++) {
				if (v ? v < 5 && w != v : w > 3) continue;
				e.alts.push_back([=](State &s) { s.syms[sym] = s.syms[sym] & gm; if (v == 0 || v == 5) fixw(s, w); return s.syms[sym].any(); });
			}
		}
	} else for (int w = 1; w <= 3; w++) e.alts.push_back([=](State &s) { fixw(s, w); return true; });
	throw e;
}

bool Engine::Kvec(State &S, const Lin &l, int t, std::vector<i64> &K) {
	Tape &T = S.tape[t];
	K.assign(T.n.size(), 0);
	bool any = false;
	for (auto &x : l.t) {
		for (size_t i = 0; i < T.b.size(); i++) if (T.b[i] == x.first) {
			any = true;
			for (size_t j = 0; j < i; j++) K[j] += x.second;
		}
	}
	return any;
}

void Engine::bounds(State &S, const Lin &l, i64 &lo, i64 &hi) {
	i128 L = l.c, H = l.c;
	size_t matched = 0;
	for (int t = 0; t < 3; t++) {
		Tape &T = S.tape[t];
		std::vector<i64> K(T.n.size(), 0);
		bool any = false;
		for (auto &x : l.t) for (size_t i = 0; i < T.b.size(); i++) if (T.b[i] == x.first) {
			any = true; matched++;
			for (size_t j = 0; j < i; j++) K[j] += x.second;
			break;
		}
		if (!any) continue;
		for (size_t j = 0; j < K.size(); j++) if (K[j]) {
			i64 a, b;
			width(S, T, T.n[j], a, b);
			if (K[j] > 0) { L += (i128)K[j] * a; H += (i128)K[j] * b; }
			else { L += (i128)K[j] * b; H += (i128)K[j] * a; }
		}
	}
	if (matched != l.t.size()) throw Imprecise{ "position refers to an unknown boundary" };
	i128 m = (i128)1 << 62;
	lo = L < -m ? -(i64)m : L > m ? (i64)m : (i64)L;
	hi = H > m ? (i64)m : H < -m ? -(i64)m : (i64)H;
}

void Engine::refineLin(State &S, const Lin &l) {
	/* prefer a node that can be made determinate */
	for (int pass = 0; pass < 2; pass++) for (int t = 0; t < 3; t++) {
		std::vector<i64> K;
		if (!Kvec(S, l, t, K)) continue;
		for (size_t j = 0; j < K.size(); j++) if (K[j]) {
			uint8_t k = S.tape[t].n[j].k;
			if (k == N_OPEN || k == N_MANY) splitAt(S, t, j);
			if (pass && S.tape[t].kind == T_UNITS && (k == N_CELL || k == N_TRUNC || k == N_OVER)) {
				i64 lo, hi;
				width(S, S.tape[t], S.tape[t].n[j], lo, hi);
				if (lo < hi) splitWidth(S, t, j);
			}
		}
	}
	std::string d = std::to_string(l.c);
	for (auto &x : l.t) d += " " + std::to_string(x.second) + "*p" + std::to_string(x.first);
	throw Imprecise{ "order of two positions cannot be decided (" + d + ") " + showTape(S) };
}

bool Engine::lt0(State &S, const Lin &l) {
	nDecide++;
	i64 lo, hi;
	bounds(S, l, lo, hi);
	if (hi < 0) return true;
	if (lo >= 0) return false;
	refineLin(S, l);
}
bool Engine::eq0(State &S, const Lin &l) {
	nDecide++;
	i64 lo, hi;
	bounds(S, l, lo, hi);
	if (lo == 0 && hi == 0) return true;
	if (lo > 0 || hi < 0) return false;
	refineLin(S, l);
}

static int bidx(const Tape &T, int bid) {
	for (size_t i = 0; i < T.b.size(); i++) if (T.b[i] == bid) return i;
	return -1;
}

/* replace node at idx by the list of nodes ns (fresh boundaries in between) */
static void replaceNode(State &S, int t, int idx, const std::vector<Node> &ns) {
	Tape &T = S.tape[t];
	std::vector<int> nb;
	for (size_t i = 1; i < ns.size(); i++) nb.push_back(S.nextB++);
	T.n.erase(T.n.begin() + idx);
	T.n.insert(T.n.begin() + idx, ns.begin(), ns.end());
	T.b.insert(T.b.begin() + idx + 1, nb.begin(), nb.end());
	T.bf.insert(T.bf.begin() + idx + 1, nb.size(), 0);
}

bool Engine::fixShort(State &S) {
	Tape &T = S.tape[0];
	if (T.kind != T_UNITS || T.nul || U.shortBlk < 0) return true;
	int e = bidx(T, T.endB) - 1;
	while (e >= 0 && T.n[e].k == N_EMPTY) e--;
	if (e >= 0 && T.n[e].k == N_CELL) {
		if (T.n[e].sym >= 0) { S.syms[T.n[e].sym].reset(U.shortBlk); return S.syms[T.n[e].sym].any(); }
	}
	return true;
}

void Engine::splitAt(State &S, int t, int idx, const Mask *set) {
	Tape &T = S.tape[t];
	Node N = T.n[idx];
	int left = T.b[idx];
	bool out = T.kind == T_OUT32 || T.kind == T_OUT8 || T.kind == T_LEN;
	SplitEx e;
	Engine *E = this;
	auto cell = [E, out](State &s, const Mask &m) { Node c; c.k = N_CELL; if (!out) c.sym = E->newSym(s, m); return c; };
	if (N.k == N_OPEN) {
		e.alts.push_back([=](State &s) { int i = bidx(s.tape[t], left); Node z; z.k = N_EMPTY; replaceNode(s, t, i, { z }); return E->fixShort(s); });
		if (set && !out) {
			Mask inn = N.mask & *set, outm = N.mask.minus(*set);
			if (inn.any()) e.alts.push_back([=](State &s) { int i = bidx(s.tape[t], left); Node m; m.k = N_MANY; m.mask = inn; replaceNode(s, t, i, { m }); return true; });
			if (outm.any()) {
				e.alts.push_back([=](State &s) { int i = bidx(s.tape[t], left); Node c = cell(s, outm); replaceNode(s, t, i, { c, N }); return E->fixShort(s); });
				if (inn.any()) e.alts.push_back([=](State &s) { int i = bidx(s.tape[t], left); Node m; m.k = N_MANY; m.mask = inn; Node c = cell(s, outm); replaceNode(s, t, i, { m, c, N }); return E->fixShort(s); });
			}
		} else {
			e.alts.push_back([=](State &s) { int i = bidx(s.tape[t], left); Node c = cell(s, N.mask); replaceNode(s, t, i, { c, N }); return true; });
		}
	} else if (N.k == N_MANY) {
		if (set && !out) {
			/* the part of the run in the set, then the first element that is not */
			Mask inn = N.mask & *set, outm = N.mask.minus(*set);
			if (inn.any()) e.alts.push_back([=](State &s) { int i = bidx(s.tape[t], left); Node m; m.k = N_MANY; m.mask = inn; replaceNode(s, t, i, { m }); return true; });
			for (int k = 0; k < 2; k++) for (int rest = 0; rest < 2; rest++) {
				if (!outm.any() || (k && !inn.any())) continue;
				e.alts.push_back([=](State &s) {
					int i = bidx(s.tape[t], left);
					std::vector<Node> v;
					if (k) { Node m; m.k = N_MANY; m.mask = inn; v.push_back(m); }
					v.push_back(cell(s, outm));
					if (rest) v.push_back(N);
					replaceNode(s, t, i, v);
					return rest || E->fixShort(s);
				});
			}
		} else {
			e.alts.push_back([=](State &s) { int i = bidx(s.tape[t], left); Node c = cell(s, N.mask); replaceNode(s, t, i, { c }); return E->fixShort(s); });
			e.alts.push_back([=](State &s) { int i = bidx(s.tape[t], left); Node c = cell(s, N.mask); replaceNode(s, t, i, { c, N }); return true; });
		}
	} else throw Imprecise{ "cannot refine tape node" };
	throw e;
}

int Engine::locate(State &S, int t, const Lin &e, bool mayThrow, i64 *beyond) {
	Tape &T = S.tape[t];
	std::vector<i64> K;
	Kvec(S, e, t, K);
	size_t matched = 0;
	for (auto &x : e.t) if (bidx(T, x.first) >= 0) matched++;
	if (matched != e.t.size()) return -3;
	size_t i = 0;
	i64 c = e.c;
	while (i < K.size() && (K[i] == 1 || T.n[i].k == N_EMPTY)) i++;
	/* step back over trailing EMPTY nodes with K 0 is harmless */
	for (size_t j = i; j < K.size(); j++) if (K[j] != 0 && T.n[j].k != N_EMPTY) {
		/* exact cells with other coefficients contribute constants */
		if (T.n[j].k == N_CELL) {
			i64 lo, hi;
			width(S, T, T.n[j], lo, hi);
			if (lo == hi) { c += K[j] * lo; continue; }
		}
		return -3;
	}
	if (i < K.size()) { /* cells before i had K==1 */ }
	while (c > 0) {
		if (i >= T.n.size()) { return -1; }
		Node &n = T.n[i];
		if (n.k == N_EMPTY) { i++; continue; }
		if (n.k == N_CELL || (T.kind == T_UNITS && n.k == N_TRUNC)) {
			i64 lo, hi;
			width(S, T, n, lo, hi);
			if (lo < hi) { if (!mayThrow) return -4; splitWidth(S, t, i); }
			if (c < lo) { if (beyond) { beyond[0] = i; beyond[1] = c; } return -6; } /* inside a sequence */
			c -= lo; i++;
			continue;
		}
		if (n.k == N_INF) { Node cc; cc.k = N_CELL; Node inf = n; replaceNode(S, t, i, { cc, inf }); c--; i++; continue; }
		if (n.k == N_PAST) return -2;
		if (n.k == N_OVER || n.k == N_TRUNC) return -3;
		if (!mayThrow) return -4;
		splitAt(S, t, i);
	}
	while (c < 0) {
		if (i == 0) return -5; /* before the start */
		Node &n = T.n[i - 1];
		if (n.k == N_EMPTY) { i--; continue; }
		if (n.k == N_CELL) {
			i64 lo, hi;
			width(S, T, n, lo, hi);
			if (lo < hi) { if (!mayThrow) return -4; splitWidth(S, t, i - 1); }
			if (-c < lo) { if (beyond) { beyond[0] = i - 1; beyond[1] = lo + c; } return -6; }
			c += lo; i--;
			continue;
		}
		if (n.k == N_PAST) return -2;
		if (n.k == N_MANY && mayThrow) {
			/* split the run at its right end */
			int left = T.b[i - 1];
			Node N = n;
			bool out = T.kind == T_OUT32 || T.kind == T_OUT8 || T.kind == T_LEN;
			SplitEx ex;
			Engine *E = this;
			ex.alts.push_back([=](State &s) { int q = bidx(s.tape[t], left); Node cc; cc.k = N_CELL; if (!out) cc.sym = E->newSym(s, N.mask); replaceNode(s, t, q, { cc }); return true; });
			ex.alts.push_back([=](State &s) { int q = bidx(s.tape[t], left); Node cc; cc.k = N_CELL; if (!out) cc.sym = E->newSym(s, N.mask); replaceNode(s, t, q, { N, cc }); return true; });
			throw ex;
		}
		if (n.k == N_OPEN && mayThrow) {
			int left = T.b[i - 1];
			Node N = n;
			bool out = T.kind == T_OUT32 || T.kind == T_OUT8 || T.kind == T_LEN;
			SplitEx ex;
			Engine *E = this;
			ex.alts.push_back([=](State &s) { int q = bidx(s.tape[t], left); Node z; z.k = N_EMPTY; replaceNode(s, t, q, { z }); return true; });
			ex.alts.push_back([=](State &s) { int q = bidx(s.tape[t], left); Node cc; cc.k = N_CELL; if (!out) cc.sym = E->newSym(s, N.mask); replaceNode(s, t, q, { N, cc }); return true; });
			throw ex;
		}
		return -4;
	}
	return i;
}

bool Engine::eot(State &S, int t, int &idx) {
	Tape &T = S.tape[t];
	idx = skipEmpty(S, t, idx);
	if (idx >= (int)T.n.size()) return true;
	uint8_t k = T.n[idx].k;
	if (k == N_TRUNC || k == N_OVER) return true;
	if (k == N_OPEN) splitAt(S, t, idx);
	return false;
}
bool Engine::symIn(State &S, int sym, const Mask &set) {
	Mask m = S.syms[sym];
	nDecide++;
	if (m.subset(set)) return true;
	if (!m.inter(set)) return false;
	SplitEx e;
	Mask a = m & set, b = m.minus(set);
	e.alts.push_back([=](State &s) { s.syms[sym] = s.syms[sym] & a; return s.syms[sym].any(); });
	e.alts.push_back([=](State &s) { s.syms[sym] = s.syms[sym] & b; return s.syms[sym].any(); });
	throw e;
}
int Engine::symClass(State &S, int sym, const std::vector<Mask> &cl) {
	Mask m = S.syms[sym];
	int hit = -1, n = 0;
	for (size_t i = 0; i < cl.size(); i++) if (m.inter(cl[i])) { hit = i; n++; }
	if (n == 1) return hit;
	if (!n) throw Imprecise{ "symbol outside all classes" };
	SplitEx e;
	for (auto &c : cl) if (m.inter(c)) { Mask a = m & c; e.alts.push_back([=](State &s) { s.syms[sym] = s.syms[sym] & a; return s.syms[sym].any(); }); }
	throw e;
}
bool Engine::in(State &S, int t, int idx, const Mask &set) {
	Node &n = S.tape[t].n[idx];
	if (n.k == N_CELL) return symIn(S, n.sym, set);
	if (n.k == N_MANY) {
		if (n.mask.subset(set)) return true;
		if (!n.mask.inter(set)) return false;
		splitAt(S, t, idx, &set);
	}
	throw Imprecise{ "look at unreadable text" };
}
int Engine::skip(State &S, int t, int idx, const Mask &set) {
	for (;;) {
		idx = skipEmpty(S, t, idx);
		Tape &T = S.tape[t];
		if (idx >= (int)T.n.size()) return idx;
		Node &n = T.n[idx];
		if (n.k == N_TRUNC || n.k == N_OVER) return idx;
		if (n.k == N_OPEN) splitAt(S, t, idx, &set);
		if (n.k == N_MANY) {
			if (n.mask.subset(set)) { idx++; continue; }
			if (!n.mask.inter(set)) return idx;
			splitAt(S, t, idx, &set);
		}
		if (n.k != N_CELL) throw Imprecise{ "look at unreadable text" };
		if (!symIn(S, n.sym, set)) return idx;
		idx++;
	}
}
int Engine::after(State &S, int t, int idx) {
	if (S.tape[t].n[idx].k == N_MANY) splitAt(S, t, idx);
	return idx + 1;
}

/* ------------------------------------------------------------------ compare */
bool Engine::cmpLin(State &S, CmpInst::Predicate p, const Lin &a, const Lin &b) {
	Lin d = ladd(a, b, -1);
	switch (p) {
	case CmpInst::ICMP_EQ: return eq0(S, d);
	case CmpInst::ICMP_NE: return !eq0(S, d);
	case CmpInst::ICMP_SLT: return lt0(S, d);
	case CmpInst::ICMP_SGE: return !lt0(S, d);
	case CmpInst::ICMP_SGT: return lt0(S, ladd(b, a, -1));
	case CmpInst::ICMP_SLE: return !lt0(S, ladd(b, a, -1));
	case CmpInst::ICMP_ULT: case CmpInst::ICMP_UGE: {
		/* all values stay far below 2^62 in magnitude, negative means wrapped */
		bool r;
		i64 al, ah, bl, bh;
		bounds(S, a, al, ah);
		bounds(S, b, bl, bh);
		bool an, bn;
		if (al >= 0 && bl >= 0) { an = bn = false; }
		else { an = lt0(S, a); bn = lt0(S, b); }
		if (an == bn) r = lt0(S, d);
		else r = bn;
		return p == CmpInst::ICMP_ULT ? r : !r;
	}
	case CmpInst::ICMP_UGT: return cmpLin(S, CmpInst::ICMP_ULT, b, a);
	case CmpInst::ICMP_ULE: return !cmpLin(S, CmpInst::ICMP_ULT, b, a);
	default: throw Imprecise{ "predicate" };
	}
}

Val Engine::icmp(State &S, CmpInst::Predicate p, const Val &a0, const Val &b0) {
	Val a = a0, b = b0;
	auto isnullp = [&](const Val &v) {
		if (v.k == K_INT) return v.c == 0;
		if (v.k != K_PTR) return false;
		if (v.obj == OBJ_NULL) return true;
		if (v.obj <= OBJ_TAPE0 && v.obj >= OBJ_TAPE2) return S.tape[OBJ_TAPE0 - v.obj].isnull && v.ok == 0 && v.c == 0;
		return false;
	};
	if (a.k == K_UNDEF || b.k == K_UNDEF) return mkUndef(1);
	if (a.k == K_PTR || b.k == K_PTR || a.k == K_FUNC || b.k == K_FUNC) {
		if (a.k == K_TOP || b.k == K_TOP) return mkTop(1);
		bool na = isnullp(a), nb = isnullp(b);
		if (na || nb || a.k != K_PTR || b.k != K_PTR || a.obj != b.obj) {
			bool eq = (na && nb) || (!na && !nb && a.same(b));
			if (p == CmpInst::ICMP_EQ) return mkInt(1, eq);
			if (p == CmpInst::ICMP_NE) return mkInt(1, !eq);
			if (a.k == K_PTR && b.k == K_PTR && a.obj == b.obj) {}
			else throw Imprecise{ "ordering of unrelated pointers" };
		}
		return mkInt(1, cmpLin(S, CmpInst::isUnsigned(p) ? CmpInst::getSignedPredicate(p) : p, toLin(ptrOff(a)), toLin(ptrOff(b))));
	}
	if (a.k == K_TOP || b.k == K_TOP) return mkTop(1);
	if (a.k == K_LIN || b.k == K_LIN) {
		if (a.k == K_FN) a = mkInt(a.w, constOf(S, a));
		if (b.k == K_FN) b = mkInt(b.w, constOf(S, b));
		return mkInt(1, cmpLin(S, p, toLin(a), toLin(b)));
	}
	uint8_t op; bool sw = false, neg = false;
	switch (p) {
	case CmpInst::ICMP_EQ: op = O_EQ; break;
	case CmpInst::ICMP_NE: op = O_NE; break;
	case CmpInst::ICMP_ULT: op = O_ULT; break;
	case CmpInst::ICMP_ULE: op = O_ULE; break;
	case CmpInst::ICMP_UGT: op = O_ULT; sw = true; break;
	case CmpInst::ICMP_UGE: op = O_ULE; sw = true; break;
	case CmpInst::ICMP_SLT: op = O_SLT; break;
	case CmpInst::ICMP_SLE: op = O_SLE; break;
	case CmpInst::ICMP_SGT: op = O_SLT; sw = true; break;
	case CmpInst::ICMP_SGE: op = O_SLE; sw = true; break;
	default: throw Imprecise{ "predicate" };
	}
	(void)neg;
	return sw ? dagop(op, 1, &b, &a) : dagop(op, 1, &a, &b);
}

bool Engine::truth(State &S, const Val &v, const Instruction *I) {
	if (v.k == K_UNDEF) report(S, "uninit", "branch on an uninitialised value", I);
	return constOf(S, v) & 1;
}

Val Engine::alu(State &S, Instruction *I, uint8_t op, int w, const Val &a0, const Val &b0) {
	Val a = a0, b = b0;
	if (a.k == K_UNDEF || b.k == K_UNDEF) return mkUndef(w);
	if (a.k == K_TOP || b.k == K_TOP) return mkTop(w);
	if (a.k == K_PTR || b.k == K_PTR) {
		if (op == O_SUB && a.k == K_PTR && b.k == K_PTR && a.obj == b.obj) return mkLin(ladd(toLin(ptrOff(a)), toLin(ptrOff(b)), -1));
		if (op == O_SUB && b.k == K_PTR && b.obj == OBJ_NULL) return a;
		throw Imprecise{ "pointer arithmetic" };
	}
	if (a.k == K_LIN || b.k == K_LIN) {
		if (a.k == K_FN) a = mkInt(a.w, constOf(S, a));
		if (b.k == K_FN) b = mkInt(b.w, constOf(S, b));
		Lin x = toLin(a), y = toLin(b), r;
		Val v;
		switch (op) {
		case O_ADD: v = mkLin(ladd(x, y)); break;
		case O_SUB: v = mkLin(ladd(x, y, -1)); break;
		case O_MUL: if (y.t.empty()) v = mkLin(lmul(x, y.c)); else if (x.t.empty()) v = mkLin(lmul(y, x.c)); else return mkTop(w); break;
		case O_SHL: if (y.t.empty() && y.c < 32) v = mkLin(lmul(x, 1LL << y.c)); else return mkTop(w); break;
		case O_SDIV: case O_UDIV: if (y.t.empty() && y.c > 0 && ldiv(x, y.c, r)) v = mkLin(r); else return mkTop(w); break;
		case O_ASHR: case O_LSHR: if (y.t.empty() && y.c < 32 && ldiv(x, 1LL << y.c, r)) v = mkLin(r); else return mkTop(w); break;
		default: return mkTop(w);
		}
		v.prov = (b0.k == K_INT) ? a0.prov : (a0.k == K_INT && (op == O_ADD || op == O_MUL)) ? b0.prov : -1;
		return v;
	}
	Val v = dagop(op, w, &a, &b);
	if (v.k == K_INT) v.prov = b0.prov < 0 ? a0.prov : a0.prov < 0 ? b0.prov : -1;
	return v;
}

/* ------------------------------------------------------------------ memory */
static void flatten(const Constant *C, const DataLayout &DL, std::vector<uint8_t> &b, u64 off, std::vector<std::pair<u64, u64>> &rel, std::vector<std::pair<const GlobalVariable *, u64>> *where) {
	Type *T = C->getType();
	if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C) || isa<ConstantPointerNull>(C)) return;
	if (auto *I = dyn_cast<ConstantInt>(C)) {
		unsigned s = DL.getTypeStoreSize(T);
		for (unsigned k = 0; k < s; k++) b[off + k] = I->getValue().extractBitsAsZExtValue(std::min(8u, I->getBitWidth() - 8 * k), 8 * k);
		return;
	}
	if (auto *A = dyn_cast<ConstantDataSequential>(C)) {
		u64 es = DL.getTypeAllocSize(A->getElementType());
		for (unsigned k = 0; k < A->getNumElements(); k++) { u64 v = A->getElementAsInteger(k); for (u64 j = 0; j < es; j++) b[off + k * es + j] = v >> (8 * j); }
		return;
	}
	if (auto *A = dyn_cast<ConstantArray>(C)) {
		u64 es = DL.getTypeAllocSize(A->getType()->getElementType());
		for (unsigned k = 0; k < A->getNumOperands(); k++) flatten(A->getOperand(k), DL, b, off + k * es, rel, where);
		return;
	}
	if (auto *St = dyn_cast<ConstantStruct>(C)) {
		auto *SL = DL.getStructLayout(St->getType());
		for (unsigned k = 0; k < St->getNumOperands(); k++) flatten(St->getOperand(k), DL, b, off + SL->getElementOffset(k), rel, where);
		return;
	}
	rel.push_back({ off, off + DL.getTypeStoreSize(T) });
	if (where) {
		APInt a(64, 0);
		const Value *base = C->stripAndAccumulateConstantOffsets(DL, a, true);
		where->push_back({ dyn_cast<GlobalVariable>(base), a.getZExtValue() });
	}
}

void Engine::putSlot(Obj &o, int off, int size, const Val &v) {
	auto &s = o.s;
	size_t i = 0;
	std::vector<Slot> keep;
	for (auto &x : s) {
		if (x.off + x.size <= off || x.off >= off + size) { keep.push_back(x); continue; }
		/* partial overlap: keep pieces of constants, forget others */
		if (x.v.k == K_INT && x.size <= 8) {
			if (x.off < off) { Slot p{ x.off, off - x.off, mkInt(8 * (off - x.off), x.v.c) }; keep.push_back(p); }
			if (x.off + x.size > off + size) { int d = off + size - x.off; Slot p{ off + size, x.off + x.size - off - size, mkInt(8 * (x.off + x.size - off - size), x.v.c >> (8 * d)) }; keep.push_back(p); }
		} else {
			if (x.off < off) keep.push_back({ x.off, off - x.off, mkTop(0) });
			if (x.off + x.size > off + size) keep.push_back({ off + size, x.off + x.size - off - size, mkTop(0) });
		}
	}
	(void)i;
	keep.push_back({ off, size, v });
	std::sort(keep.begin(), keep.end(), [](const Slot &a, const Slot &b) { return a.off < b.off; });
	s.swap(keep);
}

/* a byte of a decoded unit read directly */
Val Engine::leadByte(State &S, const Node &nn, int k) {
	const Node n = nn;
	int x = D.var(32, 0);
	auto K = [&](u64 c) { return D.con(32, c); };
	int d = D.mk(O_OR, 32, K(0xF0), D.mk(O_LSHR, 32, x, K(18)));
	d = D.mk(O_SELECT, 32, D.mk(O_ULT, 1, x, K(0x10000)), D.mk(O_OR, 32, K(0xE0), D.mk(O_LSHR, 32, x, K(12))), d);
	d = D.mk(O_SELECT, 32, D.mk(O_ULT, 1, x, K(0x800)), D.mk(O_OR, 32, K(0xC0), D.mk(O_LSHR, 32, x, K(6))), d);
	d = D.mk(O_SELECT, 32, D.mk(O_ULT, 1, x, K(0x80)), x, d);
	if (k > 0) {
		/* only reached with a known width */
		i64 wl, wh;
		width(S, S.tape[0], n, wl, wh);
		d = D.mk(O_OR, 32, K(0x80), D.mk(O_AND, 32, K(0x3F), D.mk(O_LSHR, 32, x, K(6 * (wl - 1 - k)))));
	}
	d = D.mk(O_TRUNC, 8, d);
	int lo = 0x80, hi = k > 0 ? 0xBF : 0xFF;
	if (n.k == N_CELL) {
		/* U+FFFD also stands for ill-formed sequences */
		int q = D.mk(O_EQ, 1, x, K(0xFFFD));
		const Universe::BV &bv = U.vals(q);
		Mask m = S.syms[n.sym], ill;
		bool nc = false;
		m.each([&](int b) { nc |= bv.nonconst[b]; if (bv.val[b]) ill.set(b); });
		if (nc) { U.refine(q, &m); throw RestartEx{}; }
		if (!symIn(S, n.sym, ill)) return mkFn(8, d, { n.sym });
	} else if (!k) lo = 0xC0;
	/* any byte that starts an ill-formed sequence: a symbol of its own */
	int q = D.mk(O_ULT, 1, x, K(lo)), q2 = D.mk(O_ULT, 1, K(hi), x);
	Mask all = U.all;
	if (U.shortBlk >= 0) all.reset(U.shortBlk);
	for (auto &o : U.oor) all.reset(o.blk);
	const Universe::BV b1 = U.vals(q), b2 = U.vals(q2);
	bool n1 = false, n2 = false;
	Mask dom;
	all.each([&](int b) { n1 |= b1.nonconst[b]; n2 |= b2.nonconst[b]; if (!b1.val[b] && !b2.val[b]) dom.set(b); });
	if (n1) { U.refine(q, &all); throw RestartEx{}; }
	if (n2) { U.refine(q2, &all); throw RestartEx{}; }
	return mkFn(8, D.mk(O_TRUNC, 8, x), { newSym(S, dom) });
}

Val Engine::load(State &S, const Val &p, int size, int w, Instruction *I) {
	nLoads++;
	if (p.k == K_UNDEF) report(S, "uninit", "load through an uninitialised pointer", I);
	if (p.k == K_TOP) throw Imprecise{ "load through an unknown pointer" };
	if (p.k == K_INT || (p.k == K_PTR && p.obj == OBJ_NULL)) report(S, "null-deref", "load through a null pointer", I);
	if (p.k != K_PTR) throw Imprecise{ "load through a non-pointer" };
	if (p.obj >= OBJ_GLOBAL) {
		int g = p.obj - OBJ_GLOBAL;
		GBytes &G = globals[g];
		if (!G.isconst) throw Imprecise{ "load from mutable global " + G.name };
		if (p.ok == 0) {
			if (p.c > G.b.size() || G.b.size() - p.c < (u64)size) report(S, "oob-table", "load outside table " + G.name, I);
			for (size_t k = 0; k < G.reloc.size(); k++) {
				auto &r = G.reloc[k];
				if (p.c >= r.second || p.c + size <= r.first) continue;
				if (p.c != r.first || p.c + size != r.second || G.target[k].first < 0) throw Imprecise{ "pointer in table" };
				return mkPtr(OBJ_GLOBAL + G.target[k].first, mkInt(64, G.target[k].second));
			}
			u64 v = 0;
			for (int k = 0; k < size && k < 8; k++) v |= (u64)G.b[p.c + k] << (8 * k);
			return mkInt(w, v);
		}
		if (p.ok == 1) throw Imprecise{ "table indexed by position" };
		if (!G.reloc.empty()) {
			/* a table with pointers: decide which entry is meant */
			Val q = p;
			q.ok = 0;
			q.c = constOf(S, ptrOff(p));
			q.id = -1;
			return load(S, q, size, w, I);
		}
		const FnV f = fns[p.id];
		Val off = ptrOff(p);
		Val r = dagop(O_GLOAD, w, &off, nullptr, nullptr, g);
		if (r.k != K_FN) return r;
		const FnV fr = fns[r.id];
		/* index must stay inside the table for every admissible symbol */
		nObl++;
		bool bad = false;
		if (fr.syms.size() == 1) {
			const Universe::BV &bv = U.vals(fr.dag);
			S.syms[fr.syms[0]].each([&](int b) {
				if (!bv.oob[b]) return;
				/* the block may hold both kinds of elements only if it was not refined; treat as violation */
				bad = true;
			});
		} else {
			std::vector<int> mu;
			maxUnary(D, fr.dag, mu);
			for (int d : mu) {
				int vi = __builtin_ctz(D.n[d].vars);
				std::vector<int> map(32, 0);
				int d0 = D.remap(d, map);
				const Universe::BV &bv = U.vals(d0);
				Mask m = S.syms[fr.syms[vi]];
				bool nc = false;
				m.each([&](int b) { nc |= bv.nonconst[b]; bad |= bv.oob[b]; });
				if (nc && !U.bytes) { U.refine(d0, &m); throw RestartEx{}; }
			}
			std::vector<std::vector<u64>> vals(fr.syms.size());
			double prod = 1;
			for (size_t i = 0; i < fr.syms.size(); i++) { S.syms[fr.syms[i]].each([&](int b) { vals[i].push_back(U.rep[b]); }); prod *= vals[i].size(); }
			if (prod > 1e7) throw Imprecise{ "table index over too many symbols" };
			std::vector<size_t> ix(vals.size(), 0);
			std::vector<u64> x(vals.size());
			for (bool run = true; run;) {
				for (size_t i = 0; i < x.size(); i++) x[i] = vals[i][ix[i]];
				D.oob = false;
				D.eval(fr.dag, x.data());
				bad |= D.oob;
				size_t k = x.size();
				for (;;) { if (!k) { run = false; break; } k--; if (++ix[k] < vals[k].size()) break; ix[k] = 0; }
			}
		}
		if (bad) {
			/* split off the offending blocks so that the rest of the path continues */
			if (fr.syms.size() == 1) {
				const Universe::BV &bv = U.vals(fr.dag);
				Mask badm;
				S.syms[fr.syms[0]].each([&](int b) { if (bv.oob[b]) badm.set(b); });
				Mask m = S.syms[fr.syms[0]];
				Mask saved = m;
				S.syms[fr.syms[0]] = badm;
				report(S, "oob-table", "load outside table " + G.name + " for symbols " + U.show(badm), I, false);
				S.syms[fr.syms[0]] = saved.minus(badm);
				if (!S.syms[fr.syms[0]].any()) throw DeadEx{};
			} else report(S, "oob-table", "load outside table " + G.name, I);
		}
		return r;
	}
	if (p.obj <= OBJ_TAPE0 && p.obj >= OBJ_TAPE2) {
		int t = OBJ_TAPE0 - p.obj;
		Tape &T = S.tape[t];
		if (T.isnull) report(S, "null-deref", "load through a null pointer", I);
		if (T.kind == T_LEN) throw Imprecise{ "load from length tape" };
		Lin e;
		Val off = ptrOff(p);
		if (off.k == K_FN) off = mkInt(64, constOf(S, off));
		if (size != T.es || !ldiv(toLin(off), T.es, e)) throw Imprecise{ "misaligned access to caller array" };
		if (t == 1) {
			Lin neg = e;
			if (lt0(S, neg)) report(S, "oob-read", "read before the output buffer", I);
			if (!lt0(S, ladd(e, pos(T.endB), -1))) report(S, "oob-read", "read of the output buffer beyond its length", I);
			if (!scens[S.scen].track) return mkTop(w);
			int i = locate(S, t, e, true);
			if (i < 0) throw Imprecise{ "output position" };
			i = skipEmpty(S, t, i);
			if (T.n[i].k != N_CELL) { if (T.n[i].k == N_OPEN || T.n[i].k == N_MANY) splitAt(S, t, i); return mkTop(w); }
			return T.n[i].content;
		}
		nObl++;
		i64 ins[2];
		int i = locate(S, t, e, true, ins);
		if (i == -2) {
			/* text already folded: pin the cursor and restart */
			bool nw = false;
			if (p.prov >= 0 && pins.insert(p.prov).second) nw = true;
			if (off.prov >= 0 && pins.insert(off.prov).second) nw = true;
			if (nw) throw RestartEx{};
			throw Imprecise{ "read of text before every known cursor" };
		}
		if (i == -5) report(S, "oob-read", "read before the start of the input", I);
		if (i == -6) return leadByte(S, T.n[ins[0]], ins[1]);
		if (i == -3 || i == -4) throw Imprecise{ "unsupported input position" };
		if (i >= 0) {
			i = skipEmpty(S, t, i);
			if (T.kind == T_UNITS && T.nul && i >= bidx(T, T.endB)) return mkInt(w, 0);
			if (i < (int)T.n.size()) {
				Node &n = T.n[i];
				if (n.k == N_CELL && T.kind != T_UNITS) { Val v = mkSym(n.sym, w); return v; }
				if (n.k == N_CELL || n.k == N_TRUNC) return leadByte(S, n, 0);
				if (n.k == N_OPEN || n.k == N_MANY) splitAt(S, t, i);
				if (n.k == N_PAST) {
					bool nw = false;
					if (p.prov >= 0 && pins.insert(p.prov).second) nw = true;
					if (nw) throw RestartEx{};
					throw Imprecise{ "read of text before every known cursor" };
				}
				throw Imprecise{ "read of unreadable text" };
			}
			if (T.nul) return mkInt(w, 0);
		}
		report(S, "oob-read", "read of the input beyond its end", I, false);
		return mkTop(w);
	}
	/* object */
	if (p.obj < 0 || p.obj >= (int)S.objs.size()) throw Imprecise{ "dangling object" };
	int off;
	if (p.ok == 0) off = (int)(i64)p.c;
	else if (p.ok == 2) off = (int)(i64)constOf(S, ptrOff(p));
	else throw Imprecise{ "local array indexed by position" };
	Obj &o = S.objs[p.obj];
	if (off < 0 || off + size > o.size) report(S, "oob-local", "access outside a local object", I);
	for (auto &s : o.s) {
		if (s.off == off && s.size == size) {
			if (s.v.k == K_STALE) {
				needed.insert({ (const void *)(uintptr_t)s.v.c, s.v.id });
				throw RestartEx{};
			}
			Val v = s.v;
			if (v.k == K_UNDEF) { v.w = w; return v; }
			if (v.w != w && (v.k == K_INT || v.k == K_FN)) v = v.w < w ? dagop(O_ZEXT, w, &v) : dagop(O_TRUNC, w, &v);
			v.prov = locId(o.key, off);
			return v;
		}
		if (s.off < off + size && s.off + s.size > off) {
			if (s.v.k == K_STALE) { needed.insert({ (const void *)(uintptr_t)s.v.c, s.v.id }); throw RestartEx{}; }
			if (s.v.k == K_INT && s.off <= off && s.off + s.size >= off + size && s.size <= 8) return mkInt(w, s.v.c >> (8 * (off - s.off)));
			return mkTop(w);
		}
	}
	if (o.bg >= 0) { u64 v = 0; for (int k = 0; k < size && k < 8; k++) v |= (u64)o.bg << (8 * k); Val r = mkInt(w, v); r.prov = locId(o.key, off); return r; }
	return mkUndef(w);
}

void Engine::store(State &S, const Val &p, int size, const Val &v, Instruction *I) {
	nStores++;
	if (p.k == K_UNDEF) report(S, "uninit", "store through an uninitialised pointer", I);
	if (p.k == K_TOP) throw Imprecise{ "store through an unknown pointer" };
	if (p.k == K_INT || (p.k == K_PTR && p.obj == OBJ_NULL)) report(S, "null-deref", "store through a null pointer", I);
	if (p.k != K_PTR) throw Imprecise{ "store through a non-pointer" };
	if (p.obj >= OBJ_GLOBAL) report(S, "global-write", "store to a static object " + globals[p.obj - OBJ_GLOBAL].name, I);
	if (p.obj <= OBJ_TAPE0 && p.obj >= OBJ_TAPE2) {
		int t = OBJ_TAPE0 - p.obj;
		Tape &T = S.tape[t];
		if (T.isnull) report(S, "null-deref", "store through a null pointer", I);
		if (t == 0) report(S, "const-write", "store to the input", I);
		Lin e;
		Val off = ptrOff(p);
		if (off.k == K_FN) off = mkInt(64, constOf(S, off));
		if (size != T.es || !ldiv(toLin(off), T.es, e)) throw Imprecise{ "misaligned access to caller array" };
		nObl++;
		if (lt0(S, e)) report(S, "oob-write", "write before the output buffer", I);
		if (!lt0(S, ladd(e, pos(T.endB), -1))) report(S, "oob-write", "write to the output buffer at or beyond its length", I);
		if (!scens[S.scen].track) return;
		int i = locate(S, t, e, true);
		if (i < 0) throw Imprecise{ "output position" };
		i = skipEmpty(S, t, i);
		Node &n = T.n[i];
		if (n.k == N_OPEN || n.k == N_MANY) splitAt(S, t, i);
		if (n.k != N_CELL) report(S, "rewrite", "already completed output is overwritten", I);
		n.content = v;
		n.content.prov = -1;
		return;
	}
	if (p.obj < 0 || p.obj >= (int)S.objs.size()) throw Imprecise{ "dangling object" };
	int off;
	if (p.ok == 0) off = (int)(i64)p.c;
	else if (p.ok == 2) off = (int)(i64)constOf(S, ptrOff(p));
	else throw Imprecise{ "local array indexed by position" };
	Obj &o = S.objs[p.obj];
	if (off < 0 || off + size > o.size) report(S, "oob-local", "access outside a local object", I);
	Val x = v;
	x.prov = -1;
	if ((x.k == K_INT || x.k == K_FN) && x.w < 8 * size) x = dagop(O_ZEXT, 8 * size, &x);
	putSlot(o, off, size, x);
}

Val Engine::operand(State &S, Value *v) {
	if (auto *C = dyn_cast<ConstantInt>(v)) {
		if (C->getBitWidth() > 64) throw Imprecise{ "wide integer" };
		return mkInt(C->getBitWidth(), C->getZExtValue());
	}
	if (isa<ConstantPointerNull>(v)) return mkPtr(OBJ_NULL, mkInt(64, 0));
	if (isa<UndefValue>(v)) return mkUndef(v->getType()->isIntegerTy() ? v->getType()->getIntegerBitWidth() : 64);
	if (auto *F = dyn_cast<Function>(v)) {
		Val r; r.k = K_FUNC; r.w = 64; r.c = (u64)(uintptr_t)F;
		return r;
	}
	if (auto *G = dyn_cast<GlobalVariable>(v)) {
		auto it = gid.find(G);
		if (it == gid.end()) throw Imprecise{ "unknown global" };
		return mkPtr(OBJ_GLOBAL + it->second, mkInt(64, 0));
	}
	if (auto *CE = dyn_cast<ConstantExpr>(v)) {
		if (auto *GO = dyn_cast<GEPOperator>(CE)) return gep(S, GO, nullptr);
		throw Imprecise{ "constant expression" };
	}
	FnInfo &fi = info(S.fr.back().f);
	auto it = fi.num.find(v);
	if (it == fi.num.end()) throw Imprecise{ "operand" };
	return S.fr.back().r[it->second];
}

Val Engine::gep(State &S, GEPOperator *G, Instruction *I) {
	Val base = operand(S, G->getPointerOperand());
	if (base.k == K_UNDEF) return base;
	if (base.k != K_PTR) throw Imprecise{ "gep on non-pointer" };
	Val off = ptrOff(base);
	off.prov = -1;
	int idxProv = -1;
	for (gep_type_iterator it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
		Val add;
		if (StructType *ST = it.getStructTypeOrNull()) {
			unsigned k = cast<ConstantInt>(it.getOperand())->getZExtValue();
			add = mkInt(64, DL->getStructLayout(ST)->getElementOffset(k));
		} else {
			Val ix = operand(S, it.getOperand());
			if (ix.k == K_UNDEF) return mkUndef(64);
			if (ix.w != 64 && (ix.k == K_INT || ix.k == K_FN)) { int pv = ix.prov; ix = dagop(O_SEXT, 64, &ix); ix.prov = pv; }
			u64 sz = DL->getTypeAllocSize(it.getIndexedType());
			if (ix.prov >= 0) idxProv = ix.prov;
			if (ix.k == K_TOP) throw Imprecise{ "unknown index" };
			bool inobj = base.obj >= 0 && base.obj < OBJ_GLOBAL;
			if (ix.k == K_FN && (inobj || (base.obj <= OBJ_TAPE0 && base.obj >= OBJ_TAPE2))) ix = mkInt(64, constOf(S, ix));
			Val s = mkInt(64, sz);
			add = alu(S, I, O_MUL, 64, ix, s);
		}
		off = alu(S, I, O_ADD, 64, off, add);
	}
	if (off.k == K_TOP) throw Imprecise{ "unknown address" };
	if (idxProv >= 0 && base.obj <= OBJ_TAPE0 && base.obj >= OBJ_TAPE2 && base.prov >= 0 && idxProv != base.prov) {
		if (assoc.emplace(idxProv, std::make_pair(base.prov, OBJ_TAPE0 - base.obj)).second) {
			assocBase.insert(base.prov);
			if (nStates > 0) throw RestartEx{};
		}
	}
	Val r = mkPtr(base.obj, off);
	r.prov = idxProv >= 0 ? idxProv : base.prov;
	return r;
}

/* ------------------------------------------------------------------ setup */
void Engine::prepare(Module *m) {
	M = m;
	DL = &M->getDataLayout();
	D.globals = &globals;
	U.D = &D;
	/* a global counts as constant when nothing stores through an address derived from it */
	std::set<const GlobalVariable *> written;
	for (auto &F : *M) for (auto &B : F) for (auto &I : B) {
		if (auto *st = dyn_cast<StoreInst>(&I)) {
			if (auto *g = dyn_cast<GlobalVariable>(st->getPointerOperand()->stripInBoundsOffsets())) written.insert(g);
			const Value *u = st->getPointerOperand();
			while (auto *ge = dyn_cast<GEPOperator>(u)) u = ge->getPointerOperand();
			if (auto *g = dyn_cast<GlobalVariable>(u)) written.insert(g);
		}
	}
	std::vector<std::vector<std::pair<const GlobalVariable *, u64>>> targets;
	for (auto &G : M->globals()) {
		if (!G.hasInitializer()) continue;
		GBytes b;
		b.name = G.getName().str();
		b.b.assign(DL->getTypeAllocSize(G.getValueType()), 0);
		targets.push_back({});
		flatten(G.getInitializer(), *DL, b.b, 0, b.reloc, &targets.back());
		b.isconst = G.isConstant() || (G.hasLocalLinkage() && !written.count(&G));
		gid[&G] = globals.size();
		gptr.push_back(&G);
		globals.push_back(b);
	}
	for (size_t i = 0; i < globals.size(); i++) for (auto &t : targets[i]) {
		auto it = t.first ? gid.find(t.first) : gid.end();
		globals[i].target.push_back({ it == gid.end() ? -1 : it->second, t.second });
	}
}

FnInfo &Engine::info(Function *f) {
	if (f == lastF) return *lastInfo;
	auto it = finfo.find(f);
	if (it != finfo.end()) { lastF = f; lastInfo = it->second.get(); return *it->second; }
	auto p = std::make_unique<FnInfo>();
	FnInfo &fi = *p;
	for (auto &a : f->args()) { fi.num[&a] = fi.vals.size(); fi.vals.push_back(&a); }
	for (auto &b : *f) for (auto &i : b) if (!i.getType()->isVoidTy()) { fi.num[&i] = fi.vals.size(); fi.vals.push_back(&i); }
	/* loop headers that need a fixpoint */
	{
		LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
		PassBuilder PB;
		PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
		PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
		LoopInfo &LI = FAM.getResult<LoopAnalysis>(*f);
		ScalarEvolution &SE = FAM.getResult<ScalarEvolutionAnalysis>(*f);
		for (Loop *L : LI.getLoopsInPreorder()) {
			fi.nloops++;
			unsigned tc = SE.getSmallConstantMaxTripCount(L);
			if (tc >= 1 && tc <= 16) { fi.skipped++; continue; }
			fi.headers.insert(L->getHeader());
		}
	}
	/* liveness */
	size_t n = fi.vals.size();
	std::unordered_map<const BasicBlock *, std::vector<char>> in;
	for (auto &b : *f) in[&b].assign(n, 0);
	auto transfer = [&](const Instruction &i, std::vector<char> &l) {
		auto d = fi.num.find(&i);
		if (d != fi.num.end()) l[d->second] = 0;
		if (isa<PHINode>(i)) return;
		if (isa<DbgInfoIntrinsic>(i)) return;
		for (auto &o : i.operands()) { auto u = fi.num.find(o.get()); if (u != fi.num.end()) l[u->second] = 1; }
	};
	auto outOf = [&](const BasicBlock &b) {
		std::vector<char> l(n, 0);
		for (auto *s : successors(&b)) {
			auto &si = in[s];
			for (size_t k = 0; k < n; k++) l[k] |= si[k];
			for (auto &ph : s->phis()) {
				/* si already excludes phi defs */
				auto u = fi.num.find(ph.getIncomingValueForBlock(&b));
				if (u != fi.num.end()) l[u->second] = 1;
			}
		}
		return l;
	};
	bool ch = true;
	while (ch) {
		ch = false;
		for (auto &b : *f) {
			auto l = outOf(b);
			for (auto i = b.rbegin(); i != b.rend(); ++i) transfer(*i, l);
			if (l != in[&b]) { in[&b] = l; ch = true; }
		}
	}
	for (auto &b : *f) {
		auto l = outOf(b);
		for (auto i = b.rbegin(); i != b.rend(); ++i) {
			if (isa<CallBase>(*i)) {
				std::vector<int> s;
				std::vector<char> l2 = l;
				auto d = fi.num.find(&*i);
				if (d != fi.num.end()) l2[d->second] = 0;
				for (size_t k = 0; k < n; k++) if (l2[k]) s.push_back(k);
				fi.liveCall[&*i] = s;
			}
			if (isa<PHINode>(*i)) break;
			transfer(*i, l);
		}
		std::vector<int> s;
		for (size_t k = 0; k < n; k++) if (l[k]) s.push_back(k);
		fi.liveHdr[&b] = s;
	}
	FnInfo &r = *p;
	finfo[f] = std::move(p);
	return r;
}

static const char *inputKeyObj = "in", *poKey = "po";

void Engine::initScenario(int si) {
	Scenario &sc = scens[si];
	State S;
	S.scen = si;
	Function *F = M->getFunction(sc.fn);
	if (!F || F->isDeclaration()) throw Imprecise{ "anchor function " + sc.fn + " not found" };
	auto mkTape = [&](int t, int kind, int es) {
		Tape &T = S.tape[t];
		T.kind = kind; T.es = es;
		T.b = { S.nextB++ };
		T.bf = { 0 };
	};
	auto add = [&](int t, Node n) { Tape &T = S.tape[t]; T.n.push_back(n); T.b.push_back(S.nextB++); T.bf.push_back(0); };
	Node open; open.k = N_OPEN;
	/* input */
	{
		mkTape(0, sc.inKind < 0 ? T_CP : sc.inKind, sc.inKind == T_CP ? 4 : 1);
		Tape &T = S.tape[0];
		T.nul = sc.nul;
		T.isnull = sc.srcNull;
		Mask m = U.all;
		if (sc.inKind == T_UNITS) {
			for (auto &o : U.oor) m.reset(o.blk);
			for (u32 c = 0xD800; c < 0xE000; c++) m.reset(U.blk[c]);
		} else if (U.shortBlk >= 0) m.reset(U.shortBlk);
		if (sc.nul && sc.inKind >= 0) m.reset(U.blk[0]);
		T.init = m;
		open.mask = m;
		if (sc.srcNull || sc.inKind < 0) { Node z; z.k = N_EMPTY; add(0, z); T.endB = T.b.back(); }
		else {
			add(0, open);
			T.endB = T.b.back();
			if (sc.inKind == T_UNITS) {
				if (sc.trunc) { Node tr; tr.k = N_TRUNC; add(0, tr); S.tape[0].endB = S.tape[0].b.back(); }
				Node ov; ov.k = N_OVER; add(0, ov);
			}
		}
	}
	/* output */
	{
		int k = sc.outKind < 0 ? T_OUT8 : sc.outKind;
		mkTape(1, k, k == T_OUT32 ? 4 : 1);
		Node o; o.k = N_OPEN; add(1, o);
		S.tape[1].endB = S.tape[1].b.back();
		Node inf; inf.k = N_INF; add(1, inf);
		S.tape[1].isnull = sc.destNull;
	}
	{
		mkTape(2, T_LEN, 1);
		Node o; o.k = N_OPEN; add(2, o);
		S.tape[2].endB = S.tape[2].b.back();
	}
	Frame fr;
	fr.f = F;
	FnInfo &fi = info(F);
	fr.r.assign(fi.vals.size(), Val());
	/* arguments by name of their role: pointers/sizes in order */
	std::vector<Val> args;
	auto srcPtr = [&]() { return mkPtr(OBJ_TAPE0, mkInt(64, 0)); };
	auto srcLen = [&]() -> Val {
		if (sc.srcNull) { Lin l = pos(S.tape[2].endB); return mkLin(l); }
		if (sc.nul) return mkInt(64, ~0ULL);
		return mkLin(pos(S.tape[0].endB));
	};
	std::string nm = sc.fn;
	auto newObj = [&](const char *key, int size) { Obj o; o.key = key; o.size = size; S.objs.push_back(o); return (int)S.objs.size() - 1; };
	auto po = [&](int size) { if (sc.poNull) return mkPtr(OBJ_NULL, mkInt(64, 0)); int id = newObj(poKey, size); return mkPtr(id, mkInt(64, 0)); };
	if (nm == "grapheme_encode_utf8") {
		args.push_back(mkSym(newSym(S, U.all.minus(U.shortBlk >= 0 ? Mask::one(U.shortBlk) : Mask())), 32));
		args.push_back(mkPtr(OBJ_TAPE1, mkInt(64, 0)));
		args.push_back(mkLin(pos(S.tape[1].endB)));
	} else if (nm == "grapheme_decode_utf8") {
		args = { srcPtr(), srcLen(), po(4) };
	} else if (nm.find("grapheme_to_") == 0) {
		args = { srcPtr(), srcLen(), mkPtr(OBJ_TAPE1, mkInt(64, 0)), mkLin(pos(S.tape[1].endB)) };
	} else if (nm.find("grapheme_is_") == 0) {
		args = { srcPtr(), srcLen(), po(8) };
	} else {
		args = { srcPtr(), srcLen() };
	}
	if (args.size() != F->arg_size()) throw Imprecise{ "signature of " + nm + " changed" };
	int k = 0;
	for (auto &a : F->args()) { Val v = args[k]; v.prov = locId(&a, -1); fr.r[k++] = v; }
	fr.bb = nullptr;
	fr.objBase = S.objs.size();
	fr.ip = nullptr;
	S.fr.push_back(fr);
	(void)inputKeyObj;
	mon->init(S);
	enter(S, &F->getEntryBlock());
	explore(std::move(S));
}

/* ------------------------------------------------------------------ execution */
void Engine::enter(State &S, BasicBlock *bb) {
	Frame &fr = S.fr.back();
	FnInfo &fi = info(fr.f);
	std::vector<std::pair<int, Val>> nv;
	Instruction *first = nullptr;
	for (auto &i : *bb) {
		auto *ph = dyn_cast<PHINode>(&i);
		if (!ph) { first = &i; break; }
		Val v = operand(S, ph->getIncomingValueForBlock(fr.bb));
		v.prov = locId(ph, -1);
		nv.push_back({ fi.num[ph], v });
	}
	for (auto &x : nv) fr.r[x.first] = x.second;
	fr.bb = bb;
	fr.ip = first;
	if (fi.headers.count(bb)) { S.pend = bb; S.relDone = false; }
}

static CmpInst::Predicate dummyPred = CmpInst::ICMP_EQ;

bool Engine::step(State &S) {
	Frame &fr = S.fr.back();
	Instruction *I = fr.ip;
	nInstr++;
	FnInfo &fi = info(fr.f);
	visitedInstr.insert(I);
	auto set = [&](const Val &v) { S.fr.back().r[fi.num[I]] = v; S.fr.back().ip = I->getNextNode(); };
	auto next = [&]() { S.fr.back().ip = I->getNextNode(); };
	auto forkTop = [&](Value *cv, std::vector<u64> vals, int w) {
		auto it = fi.num.find(cv);
		if (it == fi.num.end()) throw Imprecise{ "branch on unknown constant" };
		int idx = it->second;
		SplitEx e;
		for (u64 x : vals) { Val v = mkInt(w, x); e.alts.push_back([idx, v](State &s) { s.fr.back().r[idx] = v; return true; }); }
		throw e;
	};
	switch (I->getOpcode()) {
	case Instruction::Br: {
		auto *B = cast<BranchInst>(I);
		if (B->isUnconditional()) { enter(S, B->getSuccessor(0)); return true; }
		Val c = operand(S, B->getCondition());
		if (c.k == K_TOP) forkTop(B->getCondition(), { 0, 1 }, 1);
		bool t = truth(S, c, I);
		enter(S, B->getSuccessor(t ? 0 : 1));
		return true;
	}
	case Instruction::Switch: {
		auto *W = cast<SwitchInst>(I);
		Val c = operand(S, W->getCondition());
		if (c.k == K_TOP) {
			std::vector<u64> vs;
			std::set<u64> used;
			for (auto &cs : W->cases()) { vs.push_back(cs.getCaseValue()->getZExtValue()); used.insert(vs.back()); }
			u64 d = 0; while (used.count(d)) d++;
			vs.push_back(d);
			forkTop(W->getCondition(), vs, W->getCondition()->getType()->getIntegerBitWidth());
		}
		if (c.k == K_UNDEF) report(S, "uninit", "switch on an uninitialised value", I);
		u64 v;
		if (c.k == K_LIN) {
			/* compare against each case */
			BasicBlock *dst = W->getDefaultDest();
			for (auto &cs : W->cases()) { Lin l; l.c = cs.getCaseValue()->getSExtValue(); if (cmpLin(S, dummyPred, toLin(c), l)) { dst = cs.getCaseSuccessor(); break; } }
			enter(S, dst);
			return true;
		}
		if (c.k == K_FN) {
			/* only the target matters */
			std::vector<BasicBlock *> dst = { W->getDefaultDest() };
			Val idx = mkInt(16, 0);
			for (auto &cs : W->cases()) {
				size_t j = 0;
				while (j < dst.size() && dst[j] != cs.getCaseSuccessor()) j++;
				if (j == dst.size()) dst.push_back(cs.getCaseSuccessor());
				Val k = mkInt(c.w, cs.getCaseValue()->getZExtValue()), r = mkInt(16, j);
				Val e = dagop(O_EQ, 1, &c, &k);
				idx = e.k == K_INT ? (e.c ? r : idx) : dagop(O_SELECT, 16, &e, &r, &idx);
			}
			enter(S, dst[constOf(S, idx)]);
			return true;
		}
		v = constOf(S, c);
		BasicBlock *dst = W->getDefaultDest();
		for (auto &cs : W->cases()) if (cs.getCaseValue()->getZExtValue() == v) { dst = cs.getCaseSuccessor(); break; }
		enter(S, dst);
		return true;
	}
	case Instruction::Ret: {
		auto *R = cast<ReturnInst>(I);
		Val v;
		if (R->getReturnValue()) v = operand(S, R->getReturnValue());
		doRet(S, v);
		return true;
	}
	case Instruction::Unreachable: report(S, "unreachable", "unreachable code reached", I); return false;
	case Instruction::Call: doCall(S, cast<CallBase>(I)); return true;
	case Instruction::Alloca: {
		auto *A = cast<AllocaInst>(I);
		Obj o;
		o.key = A;
		o.size = DL->getTypeAllocSize(A->getAllocatedType());
		if (A->isArrayAllocation()) {
			auto *c = dyn_cast<ConstantInt>(A->getArraySize());
			if (!c) throw Imprecise{ "variable-length array" };
			o.size *= c->getZExtValue();
		}
		S.objs.push_back(o);
		set(mkPtr(S.objs.size() - 1, mkInt(64, 0)));
		return true;
	}
	case Instruction::Load: {
		auto *L = cast<LoadInst>(I);
		Type *T = L->getType();
		int size = DL->getTypeStoreSize(T), w = T->isPointerTy() ? 64 : T->isIntegerTy() ? (int)T->getIntegerBitWidth() : 0;
		if (!w) throw Imprecise{ "load of an aggregate" };
		Val v = load(S, operand(S, L->getPointerOperand()), size, w, I);
		set(v);
		return true;
	}
	case Instruction::Store: {
		auto *T = cast<StoreInst>(I);
		Val v = operand(S, T->getValueOperand());
		Type *Ty = T->getValueOperand()->getType();
		if (!Ty->isPointerTy() && !Ty->isIntegerTy()) throw Imprecise{ "store of an aggregate" };
		store(S, operand(S, T->getPointerOperand()), DL->getTypeStoreSize(Ty), v, I);
		next();
		return true;
	}
	case Instruction::GetElementPtr: { Val v = gep(S, cast<GEPOperator>(I), I); set(v); return true; }
	case Instruction::ICmp: {
		auto *C = cast<ICmpInst>(I);
		Val v = icmp(S, C->getPredicate(), operand(S, C->getOperand(0)), operand(S, C->getOperand(1)));
		set(v);
		return true;
	}
	case Instruction::Select: {
		auto *L = cast<SelectInst>(I);
		Val c = operand(S, L->getCondition()), a = operand(S, L->getTrueValue()), b = operand(S, L->getFalseValue());
		if (c.k == K_UNDEF) { set(mkUndef(a.w)); return true; }
		if (c.k == K_TOP) { if (a.same(b)) { set(a); return true; } forkTop(L->getCondition(), { 0, 1 }, 1); }
		if (c.k == K_FN && (a.k == K_INT || a.k == K_FN) && (b.k == K_INT || b.k == K_FN)) { set(dagop(O_SELECT, a.w, &c, &a, &b)); return true; }
		bool t = constOf(S, c) & 1;
		set(t ? a : b);
		return true;
	}
	case Instruction::Freeze: { Val v = operand(S, I->getOperand(0)); set(v); return true; }
	case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: { Val v = operand(S, I->getOperand(0)); set(v); return true; }
	case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
		Val v = operand(S, I->getOperand(0));
		int w = I->getType()->getIntegerBitWidth();
		if (v.k == K_UNDEF) { set(mkUndef(w)); return true; }
		if (v.k == K_TOP) { set(mkTop(w)); return true; }
		if (v.k != K_INT && v.k != K_FN) { set(mkTop(w)); return true; }
		int pv = v.prov;
		v = dagop(I->getOpcode() == Instruction::ZExt ? O_ZEXT : I->getOpcode() == Instruction::SExt ? O_SEXT : O_TRUNC, w, &v);
		v.prov = pv;
		set(v);
		return true;
	}
	default: break;
	}
	if (auto *B = dyn_cast<BinaryOperator>(I)) {
		uint8_t op;
		switch (B->getOpcode()) {
		case Instruction::Add: op = O_ADD; break;
		case Instruction::Sub: op = O_SUB; break;
		case Instruction::Mul: op = O_MUL; break;
		case Instruction::And: op = O_AND; break;
		case Instruction::Or: op = O_OR; break;
		case Instruction::Xor: op = O_XOR; break;
		case Instruction::Shl: op = O_SHL; break;
		case Instruction::LShr: op = O_LSHR; break;
		case Instruction::AShr: op = O_ASHR; break;
		case Instruction::UDiv: op = O_UDIV; break;
		case Instruction::URem: op = O_UREM; break;
		case Instruction::SDiv: op = O_SDIV; break;
		case Instruction::SRem: op = O_SREM; break;
		default: throw Imprecise{ "floating point" };
		}
		Val v = alu(S, I, op, B->getType()->getIntegerBitWidth(), operand(S, B->getOperand(0)), operand(S, B->getOperand(1)));
		set(v);
		return true;
	}
	throw Imprecise{ std::string("instruction ") + I->getOpcodeName() };
}

void Engine::doRet(State &S, const Val &v) {
	int base = S.fr.back().objBase;
	S.fr.pop_back();
	if (S.fr.empty()) {
		S.isRet = true;
		S.ret = v;
		S.objs.resize(base);
		S.relDone = true;
		return;
	}
	S.objs.resize(base);
	Frame &fr = S.fr.back();
	FnInfo &fi = info(fr.f);
	auto it = fi.num.find(fr.ip);
	if (it != fi.num.end()) { Val x = v; fr.r[it->second] = x; }
	fr.ip = fr.ip->getNextNode();
}

void Engine::doCall(State &S, CallBase *C) {
	Instruction *I = C;
	Frame &fr = S.fr.back();
	FnInfo &fi = info(fr.f);
	auto setv = [&](const Val &v) { auto it = fi.num.find(I); if (it != fi.num.end()) S.fr.back().r[it->second] = v; S.fr.back().ip = I->getNextNode(); };
	Function *F = C->getCalledFunction();
	if (!F) {
		Val cv = operand(S, C->getCalledOperand());
		if (cv.k != K_FUNC) throw Imprecise{ "indirect call" };
		F = (Function *)(uintptr_t)cv.c;
	}
	if (auto *II = dyn_cast<IntrinsicInst>(I)) {
		switch (II->getIntrinsicID()) {
		case Intrinsic::expect: setv(operand(S, C->getArgOperand(0))); return;
		case Intrinsic::lifetime_start: setv(Val()); return;
		case Intrinsic::lifetime_end: {
			Val p = operand(S, C->getArgOperand(1));
			if (p.k == K_PTR && p.obj >= 0 && p.obj < (int)S.objs.size()) S.objs[p.obj].s.clear();
			setv(Val());
			return;
		}
		case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume:
		case Intrinsic::experimental_noalias_scope_decl: setv(Val()); return;
		case Intrinsic::memset: {
			Val p = operand(S, C->getArgOperand(0)), b = operand(S, C->getArgOperand(1)), n = operand(S, C->getArgOperand(2));
			if (p.k != K_PTR || p.obj < 0 || p.obj >= OBJ_GLOBAL || p.ok || b.k != K_INT || n.k != K_INT) throw Imprecise{ "memset" };
			Obj &o = S.objs[p.obj];
			if ((i64)p.c < 0 || p.c + n.c > (u64)o.size) report(S, "oob-local", "memset outside a local object", I);
			if (p.c == 0 && n.c == (u64)o.size) { o.s.clear(); o.bg = b.c; }
			else for (u64 k = 0; k < n.c; k++) putSlot(o, p.c + k, 1, b);
			setv(Val());
			return;
		}
		case Intrinsic::memcpy: case Intrinsic::memmove: {
			Val d = operand(S, C->getArgOperand(0)), s = operand(S, C->getArgOperand(1)), n = operand(S, C->getArgOperand(2));
			if (d.k != K_PTR || d.obj < 0 || d.obj >= OBJ_GLOBAL || d.ok || n.k != K_INT || s.k != K_PTR || s.ok) throw Imprecise{ "memcpy" };
			if (d.c + n.c > (u64)S.objs[d.obj].size) report(S, "oob-local", "memcpy outside a local object", I);
			if (s.obj >= OBJ_GLOBAL) {
				GBytes &G = globals[s.obj - OBJ_GLOBAL];
				if (s.c + n.c > G.b.size()) report(S, "oob-table", "memcpy outside a table", I);
				u64 k = 0;
				for (; k + 8 <= n.c; k += 8) { u64 v = 0; for (int j = 0; j < 8; j++) v |= (u64)G.b[s.c + k + j] << (8 * j); putSlot(S.objs[d.obj], d.c + k, 8, mkInt(64, v)); }
				for (; k < n.c; k++) putSlot(S.objs[d.obj], d.c + k, 1, mkInt(8, G.b[s.c + k]));
				setv(Val());
				return;
			}
			if (s.obj < 0) throw Imprecise{ "memcpy" };
			if (s.c + n.c > (u64)S.objs[s.obj].size) report(S, "oob-local", "memcpy outside a local object", I);
			std::vector<Slot> cp;
			for (auto &x : S.objs[s.obj].s) {
				if (x.off + x.size <= (int)s.c || x.off >= (int)(s.c + n.c)) continue;
				if (x.off < (int)s.c || x.off + x.size > (int)(s.c + n.c)) throw Imprecise{ "partial memcpy" };
				cp.push_back(x);
			}
			if (S.objs[s.obj].bg >= 0) {
				/* materialise background bytes */
				int bg = S.objs[s.obj].bg;
				for (u64 k = 0; k < n.c; k++) putSlot(S.objs[d.obj], d.c + k, 1, mkInt(8, bg));
			} else {
				Obj &o = S.objs[d.obj];
				std::vector<Slot> keep;
				for (auto &x : o.s) if (x.off + x.size <= (int)d.c || x.off >= (int)(d.c + n.c)) keep.push_back(x);
				o.s.swap(keep);
			}
			for (auto &x : cp) putSlot(S.objs[d.obj], x.off - s.c + d.c, x.size, x.v);
			setv(Val());
			return;
		}
		case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
			Val a = operand(S, C->getArgOperand(0)), b = operand(S, C->getArgOperand(1));
			auto id = II->getIntrinsicID();
			bool mn = id == Intrinsic::umin || id == Intrinsic::smin, u = id == Intrinsic::umin || id == Intrinsic::umax;
			Val c = icmp(S, u ? CmpInst::ICMP_ULT : CmpInst::ICMP_SLT, a, b);
			if (c.k == K_INT) { setv((c.c == 1) == mn ? a : b); return; }
			if (c.k == K_FN) { Val r = mn ? dagop(O_SELECT, a.w, &c, &a, &b) : dagop(O_SELECT, a.w, &c, &b, &a); setv(r); return; }
			setv(mkTop(a.w));
			return;
		}
		default: throw Imprecise{ "intrinsic " + II->getCalledFunction()->getName().str() };
		}
	}
	std::string nm = F->getName().str();
	Val rv;
	if (mon->call(S, C, nm, rv)) { setv(rv); return; }
	if (contracts.count(nm) && nm == "grapheme_decode_utf8") {
		Val p = operand(S, C->getArgOperand(0)), len = operand(S, C->getArgOperand(1)), cp = operand(S, C->getArgOperand(2));
		auto put = [&](const Val &v) {
			bool nul = (cp.k == K_INT && !cp.c) || (cp.k == K_PTR && cp.obj == OBJ_NULL);
			if (!nul) store(S, cp, 4, v, I);
		};
		nObl++;
		if (p.k != K_PTR) throw Imprecise{ "decoder called on unknown pointer" };
		Val inv = mkInt(32, 0xFFFD);
		if (p.obj == OBJ_NULL || (p.obj == OBJ_TAPE0 && S.tape[0].isnull)) { put(inv); setv(mkInt(64, 0)); return; }
		if (p.obj != OBJ_TAPE0 || S.tape[0].kind != T_UNITS) throw Imprecise{ "decoder called on something else than the input" };
		if (len.k != K_INT && len.k != K_LIN) throw Imprecise{ "decoder called with unknown length" };
		Tape &T = S.tape[0];
		Lin at = toLin(ptrOff(p)), L = toLin(len);
		bool huge = len.k == K_INT && (i64)len.c < 0;
		{ i64 lo, hi; bounds(S, L, lo, hi); if (hi < 0) huge = true; }
		if (!huge && eq0(S, L)) { put(inv); setv(mkInt(64, 0)); return; }
		int i = locate(S, 0, at, true);
		if (i == -2) {
			bool nw = false;
			if (p.prov >= 0 && pins.insert(p.prov).second) nw = true;
			if (nw) throw RestartEx{};
		}
		if (i == -6) report(S, "inside", "the decoder is called inside a sequence", I);
		if (i < 0) throw Imprecise{ "decoder called at an unsupported position" };
		i = skipEmpty(S, 0, i);
		int endIdx = bidx(T, T.endB);
		if (!T.nul) {
			/* the decoder may read every byte inside the length it was given */
			Lin over = ladd(ladd(at, L), pos(T.endB), -1);
			bool bad = huge || lt0(S, lmul(over, -1));
			if (bad) report(S, "oob-read", "decoder is given a length beyond the end of the input", I, false);
		}
		int bI = i;
		if (i < (int)T.n.size() && (T.n[i].k == N_OPEN || T.n[i].k == N_MANY)) splitAt(S, 0, i);
		if (i < (int)T.n.size() && T.n[i].k == N_PAST) {
			bool nw = false;
			if (p.prov >= 0 && pins.insert(p.prov).second) nw = true;
			if (nw) throw RestartEx{};
			throw Imprecise{ "decoder called on folded text" };
		}
		auto retTo = [&](int bi) { return mkLin(ladd(pos(T.b[bi]), at, -1)); };
		if (i >= endIdx || i >= (int)T.n.size()) {
			if (T.nul) { put(mkInt(32, 0)); setv(mkInt(64, 1)); return; }
			report(S, "oob-read", "decoder called at the end of the input", I, false);
			put(mkTop(32));
			setv(mkTop(64));
			return;
		}
		Node n = T.n[i];
		if (n.k == N_TRUNC) {
			/* truncated sequence: the announced length exceeds what is left */
			put(inv);
			setv(retTo(T.b.size() - 1));
			return;
		}
		if (n.k != N_CELL) throw Imprecise{ "decoder called on unreadable text" };
		int rb = bI + 1;
		Lin rest = huge ? Lin() : ladd(L, ladd(pos(T.b[rb]), at, -1), -1);
		if (!huge) {
			if (lt0(S, rest)) throw Imprecise{ "length ends inside a sequence" };
			if (S.syms[n.sym].test(U.shortBlk) && eq0(S, rest)) {
				bool sh = symIn(S, n.sym, Mask::one(U.shortBlk));
				if (sh) { put(inv); setv(retTo(T.b.size() - 1)); return; }
			}
		}
		put(mkSym(n.sym, 32));
		setv(retTo(rb));
		return;
	}
	if (contracts.count(nm) && (nm == "grapheme_next_word_break" || nm == "grapheme_next_word_break_utf8")) {
		Val p = operand(S, C->getArgOperand(0)), len = operand(S, C->getArgOperand(1));
		nObl++;
		if (p.k != K_PTR) throw Imprecise{ "word break called on unknown pointer" };
		if (p.obj == OBJ_NULL || (p.obj == OBJ_TAPE0 && S.tape[0].isnull)) { setv(mkInt(64, 0)); return; }
		if (p.obj != OBJ_TAPE0) throw Imprecise{ "word break called on something else than the input" };
		Tape &T = S.tape[0];
		Lin at, L = toLin(len);
		if (!ldiv(toLin(ptrOff(p)), T.es, at)) throw Imprecise{ "misaligned" };
		bool huge = len.k == K_INT && (i64)len.c < 0;
		int i = locate(S, 0, at, true);
		if (i == -6) report(S, "inside", "the word break function is called inside a sequence", I);
		if (i < 0) throw Imprecise{ "word break called at an unsupported position" };
		if (!huge) {
			Lin over = ladd(ladd(at, L), pos(T.endB), -1);
			if (lt0(S, lmul(over, -1))) report(S, "oob-read", "word break function is given a length beyond the end of the input", I);
			if (!eq0(S, over)) throw Imprecise{ "word break called on part of the text" };
		} else if (!T.nul) report(S, "oob-read", "word break function is given an unlimited length", I);
		int j = i;
		{
			/* only breaks counted from a break are those of the text */
			int q = i;
			while (q > 0 && !(T.bf[q] & BF_WB) && T.n[q - 1].k == N_EMPTY) q--;
			if (q > 0 && !(T.bf[q] & BF_WB) && !eq0(S, at)) report(S, "title-word", "the word break function is called in the middle of a word", I);
		}
		/* existing break ahead? */
		int firstI = skipEmpty(S, 0, i);
		for (j = firstI + 1; j < (int)T.b.size(); j++) if (T.bf[j] & BF_WB) { bool any = false; for (int q = firstI; q < j; q++) any |= T.n[q].k != N_EMPTY; if (any) { setv(mkLin(ladd(pos(T.b[j]), at, -1))); return; } }
		int idx = i;
		if (eot(S, 0, idx)) { setv(mkInt(64, 0)); return; }
		/* place the break: after the first cell, or later */
		int t = 0;
		Engine *E = this;
		int q = idx;
		SplitEx e;
		std::vector<std::pair<int, int>> places; /* (left boundary id, mode) */
		for (; q < (int)T.n.size(); q++) {
			uint8_t k = T.n[q].k;
			if (k == N_EMPTY) continue;
			if (k == N_TRUNC || k == N_OVER) break;
			if (k == N_CELL) { places.push_back({ T.b[q], 0 }); }
			else if (k == N_MANY) { places.push_back({ T.b[q], 0 }); places.push_back({ T.b[q], 1 }); }
			else if (k == N_OPEN) { places.push_back({ T.b[q], 2 }); break; }
			else throw Imprecise{ "word break over unreadable text" };
		}
		for (auto &pl : places) {
			int lb = pl.first, mode = pl.second;
			e.alts.push_back([=](State &s) {
				int x = bidx(s.tape[t], lb);
				Node N = s.tape[t].n[x];
				Node m; m.k = N_MANY; m.mask = N.mask;
				if (mode == 1) replaceNode(s, t, x, { m, m });
				if (mode == 2) replaceNode(s, t, x, { m, N });
				s.tape[t].bf[x + 1] |= BF_WB;
				(void)E;
				return true;
			});
		}
		throw e;
	}
	if (F->isDeclaration()) throw Imprecise{ "call to external function " + nm };
	if (S.fr.size() > 40) throw Imprecise{ "call stack too deep (recursion?)" };
	visitedFns.insert(F);
	if (isPure(F)) {
		std::vector<Val> args;
		for (auto &a : C->args()) args.push_back(operand(S, a.get()));
		Val r;
		if (pureCall(S, F, args, r)) { setv(r); return; }
	}
	Frame nf;
	nf.f = F;
	FnInfo &ni = info(F);
	nf.r.assign(ni.vals.size(), Val());
	nf.bb = nullptr;
	nf.ip = nullptr;
	nf.objBase = S.objs.size();
	int k = 0;
	for (auto &a : F->args()) { Val v = operand(S, C->getArgOperand(k)); v.prov = locId(&a, -1); nf.r[k++] = v; }
	S.fr.push_back(std::move(nf));
	enter(S, &F->getEntryBlock());
}

/* A loop-free function without stores whose arguments depend on one symbol is
 * turned into a value expression: branches become selections. */
bool Engine::isPure(const Function *F) {
	auto it = pureTab.find(F);
	if (it != pureTab.end()) return it->second;
	pureTab[F] = 0; /* recursion: not pure */
	if (F->isDeclaration() || !F->getReturnType()->isIntegerTy()) return false;
	for (auto &a : F->args()) if (!a.getType()->isIntegerTy()) return false;
	std::set<const BasicBlock *> done, open;
	std::function<bool(const BasicBlock *)> acyclic = [&](const BasicBlock *b) {
		if (done.count(b)) return true;
		if (!open.insert(b).second) return false;
		for (auto *x : successors(b)) if (!acyclic(x)) return false;
		open.erase(b);
		done.insert(b);
		return true;
	};
	if (!acyclic(&F->getEntryBlock())) return false;
	int n = 0;
	for (auto &b : *F) for (auto &i : b) {
		if (++n > 400) return false;
		if (isa<BranchInst>(i) || isa<SwitchInst>(i) || isa<ReturnInst>(i) || isa<ICmpInst>(i) || isa<BinaryOperator>(i) ||
		    isa<CastInst>(i) || isa<SelectInst>(i) || isa<PHINode>(i) || isa<GetElementPtrInst>(i) || isa<FreezeInst>(i) || isa<UnreachableInst>(i)) continue;
		if (auto *l = dyn_cast<LoadInst>(&i)) {
			const Value *u = l->getPointerOperand();
			while (auto *g = dyn_cast<GEPOperator>(u)) u = g->getPointerOperand();
			if (!isa<GlobalVariable>(u) || !l->getType()->isIntegerTy()) return false;
			continue;
		}
		if (isa<DbgInfoIntrinsic>(i)) continue;
		if (auto *c = dyn_cast<CallBase>(&i)) {
			if (auto *II = dyn_cast<IntrinsicInst>(&i)) {
				auto id = II->getIntrinsicID();
				if (id == Intrinsic::expect || id == Intrinsic::umin || id == Intrinsic::umax || id == Intrinsic::smin || id == Intrinsic::smax) continue;
				return false;
			}
			const Function *g = c->getCalledFunction();
			if (g && contracts.count(g->getName().str())) return false;
			if (g && isPure(g)) continue;
		}
		return false;
	}
	return pureTab[F] = 1;
}

bool Engine::pureRun(State &S, int sym, Val &out, Mask &surv, int &budget) {
	FnInfo &fi = info(S.fr.back().f);
	for (;;) {
		Instruction *I = S.fr.back().ip;
		if (--budget < 0) return false;
		if (auto *R = dyn_cast<ReturnInst>(I)) {
			out = operand(S, R->getReturnValue());
			surv = S.syms[sym];
			return out.k == K_INT || out.k == K_FN;
		}
		Val cond;
		std::vector<std::pair<Val, BasicBlock *>> tgt; /* condition, target; last is the default */
		if (auto *B = dyn_cast<BranchInst>(I)) {
			if (B->isUnconditional()) { enter(S, B->getSuccessor(0)); continue; }
			cond = operand(S, B->getCondition());
			if (cond.k == K_INT) { enter(S, B->getSuccessor(cond.c & 1 ? 0 : 1)); continue; }
			tgt.push_back({ cond, B->getSuccessor(0) });
			tgt.push_back({ Val(), B->getSuccessor(1) });
		} else if (auto *W = dyn_cast<SwitchInst>(I)) {
			cond = operand(S, W->getCondition());
			for (auto &cs : W->cases()) {
				Val k = operand(S, cs.getCaseValue());
				if (cond.k != K_INT && cond.k != K_FN) return false;
				tgt.push_back({ dagop(O_EQ, 1, &cond, &k), cs.getCaseSuccessor() });
			}
			tgt.push_back({ Val(), W->getDefaultDest() });
			if (cond.k == K_INT) {
				for (auto &x : tgt) if (x.first.k == K_UNDEF || x.first.c) { enter(S, x.second); break; }
				continue;
			}
		}
		if (tgt.empty()) {
			if (isa<UnreachableInst>(I)) { if (!S.syms[sym].any()) { out = mkInt(S.fr.back().f->getReturnType()->getIntegerBitWidth(), 0); surv = Mask(); return true; } }
			auto *c = dyn_cast<CallBase>(I);
			if (c && !isa<IntrinsicInst>(I)) {
				std::vector<Val> args;
				for (auto &a : c->args()) args.push_back(operand(S, a.get()));
				bool any = false;
				for (auto &a : args) any |= a.k == K_FN;
				Val r;
				Function *G = c->getCalledFunction();
				visitedFns.insert(G);
				if (any) { if (!pureCall(S, G, args, r)) return false; }
				else return false;
				nInstr++;
				visitedInstr.insert(I);
				S.fr.back().r[fi.num[I]] = r;
				S.fr.back().ip = I->getNextNode();
				continue;
			}
			step(S);
			continue;
		}
		if (cond.k != K_FN) return false;
		nInstr++;
		visitedInstr.insert(I);
		Mask rest = S.syms[sym];
		surv = Mask();
		std::vector<Val> res;
		Frame save = S.fr.back();
		for (auto &x : tgt) {
			Mask here = rest;
			if (x.first.k == K_FN) {
				const FnV f = fns[x.first.id];
				if (f.syms.size() != 1 || f.syms[0] != sym) return false;
				const Universe::BV &bv = U.vals(f.dag);
				bool nc = false;
				Mask m;
				rest.each([&](int b) { nc |= bv.nonconst[b]; if (bv.val[b] & 1) m.set(b); });
				if (nc) { U.refine(f.dag, &rest); throw RestartEx{}; }
				here = m;
			} else if (x.first.k == K_INT && !x.first.c) { res.push_back(Val()); continue; }
			S.fr.back() = save;
			S.syms[sym] = here;
			enter(S, x.second);
			Val r;
			Mask sv;
			try { if (!pureRun(S, sym, r, sv, budget)) return false; }
			catch (DeadEx &) { r = Val(); }
			surv = surv | sv;
			res.push_back(r);
			rest = rest.minus(here);
		}
		Val acc;
		for (size_t i = tgt.size(); i-- > 0;) {
			if (res[i].k == K_UNDEF) continue;
			if (acc.k == K_UNDEF || (tgt[i].first.k == K_INT && tgt[i].first.c)) { acc = res[i]; continue; }
			acc = dagop(O_SELECT, acc.w, &tgt[i].first, &res[i], &acc);
		}
		if (acc.k == K_UNDEF) throw DeadEx{};
		out = acc;
		return true;
	}
}

bool Engine::pureCall(State &S, Function *F, const std::vector<Val> &args, Val &out) {
	int sym = -1;
	for (auto &a : args) {
		if (a.k == K_INT) continue;
		if (a.k != K_FN) return false;
		const FnV &f = fns[a.id];
		if (f.syms.size() != 1 || (sym >= 0 && f.syms[0] != sym)) return false;
		sym = f.syms[0];
	}
	if (sym < 0 || args.size() != F->arg_size()) return false;
	Mask m = S.syms[sym], surv;
	size_t depth = S.fr.size(), nobj = S.objs.size();
	if (depth > 40) return false;
	Frame nf;
	nf.f = F;
	FnInfo &ni = info(F);
	nf.r.assign(ni.vals.size(), Val());
	nf.bb = nullptr;
	nf.ip = nullptr;
	nf.objBase = nobj;
	for (size_t k = 0; k < args.size(); k++) { nf.r[k] = args[k]; nf.r[k].prov = -1; }
	S.fr.push_back(std::move(nf));
	bool ok = false, dead = false;
	int budget = 3000;
	try {
		enter(S, &F->getEntryBlock());
		ok = pureRun(S, sym, out, surv, budget);
	} catch (SplitEx &) { ok = false; }
	catch (DeadEx &) { dead = true; }
	S.fr.resize(depth);
	S.pend = nullptr;
	S.syms[sym] = m;
	if (dead) throw DeadEx{};
	if (!ok) return false;
	S.syms[sym] = surv;
	if (!surv.any()) {
		if (m.any()) throw DeadEx{};
	}
	out.prov = -1;
	nPure++;
	return true;
}

void Engine::explore(State S0) {
	std::vector<State> stk;
	stk.push_back(std::move(S0));
	while (!stk.empty()) {
		State S = std::move(stk.back());
		stk.pop_back();
		try {
			for (;;) {
				if (S.pend || S.isRet) { arrive(S); break; }
				step(S);
			}
		} catch (SplitEx &e) {
			nSplits++;
			if (debug > 2) fprintf(stderr, "split %zu at %s | %s\n", e.alts.size(), S.fr.empty() ? "ret" : whereOf(S.fr.back().ip).c_str(), showTape(S).c_str());
			size_t n = e.alts.size();
			for (size_t i = n; i-- > 0;) {
				if (i == 0) { if (e.alts[0](S)) stk.push_back(std::move(S)); }
				else { State t = S; if (e.alts[i](t)) stk.push_back(std::move(t)); }
			}
			if (stk.size() > 200000) throw Imprecise{ "path explosion" };
			if ((nSplits & 1023) == 0 && (nowSec() - t0 > tLimit || (!viol.empty() && nowSec() - tViol > grace + 5))) throw Imprecise{ "time limit" };
		} catch (DeadEx &) {
		} catch (Imprecise &e) {
			if (e.why.find(" @ ") == std::string::npos)
				e.why += " @ " + (S.fr.empty() ? std::string("return") : whereOf(S.fr.back().ip)) + " [" + scens[S.scen].fn + ": " + scens[S.scen].desc + "]";
			throw;
		}
	}
}

/* ------------------------------------------------------------------ loop heads */
template <class F> void Engine::eachVal(State &S, F f) {
	for (auto &fr : S.fr) {
		FnInfo &fi = info(fr.f);
		for (size_t i = 0; i < fr.r.size(); i++) if (fr.r[i].k != K_UNDEF) f(fr.r[i], locId(fi.vals[i], -1));
	}
	for (auto &o : S.objs) for (auto &s : o.s) if (s.v.k != K_STALE) f(s.v, locId(o.key, s.off));
	for (int t = 0; t < 3; t++) for (auto &n : S.tape[t].n) { if (n.content.k != K_UNDEF) f(n.content, -1); if (n.expect.k != K_UNDEF) f(n.expect, -1); }
	for (auto &v : S.mon.v) f(v, -1);
	if (S.isRet) f(S.ret, -1);
}

void Engine::killDead(State &S) {
	for (size_t i = 0; i < S.fr.size(); i++) {
		Frame &fr = S.fr[i];
		FnInfo &fi = info(fr.f);
		const std::vector<int> *live;
		if (i + 1 == S.fr.size()) live = &fi.liveHdr[S.pend];
		else live = &fi.liveCall[fr.ip];
		size_t k = 0;
		for (size_t j = 0; j < fr.r.size(); j++) {
			while (k < live->size() && (size_t)(*live)[k] < j) k++;
			if (k < live->size() && (size_t)(*live)[k] == j) continue;
			fr.r[j] = Val();
		}
	}
	if (!S.pend) return;
	for (auto &o : S.objs) {
		bool scenObj = o.key == (const void *)poKey;
		if (scenObj) continue;
		for (auto &s : o.s) {
			int loc = locId(o.key, s.off);
			bool need = needed.count({ S.pend, loc });
			if (!need && assocBase.count(loc)) for (auto &a : assoc) if (a.second.first == loc && needed.count({ S.pend, a.first })) need = true;
			if (!need) {
				Val v; v.k = K_STALE; v.c = (u64)(uintptr_t)S.pend; v.id = loc;
				s.v = v;
			}
		}
	}
}

Val *Engine::locVal(State &S, int loc) {
	auto &l = locs[loc];
	if (l.second == -1) {
		for (size_t i = S.fr.size(); i-- > 0;) {
			FnInfo &fi = info(S.fr[i].f);
			auto it = fi.num.find((const Value *)l.first);
			if (it != fi.num.end()) return &S.fr[i].r[it->second];
		}
		return nullptr;
	}
	for (size_t i = S.objs.size(); i-- > 0;) if (S.objs[i].key == l.first) {
		for (auto &s : S.objs[i].s) if (s.off == l.second) return &s.v;
		return nullptr;
	}
	return nullptr;
}

void Engine::normalise(State &S) {
	auto baseLin = [&](int loc, int &t, Lin &B) -> bool {
		auto it = assoc.find(loc);
		if (it == assoc.end()) return false;
		t = it->second.second;
		Val *b = locVal(S, it->second.first);
		if (!b || b->k != K_PTR) { if (b && b->k == K_STALE) { B = Lin(); return false; } if (!b) return false; return false; }
		if (b->obj == OBJ_NULL) { B = Lin(); return true; }
		if (b->obj != OBJ_TAPE0 - t) return false;
		return ldiv(toLin(ptrOff(*b)), S.tape[t].es, B);
	};
	auto elim = [&](Lin e, bool plusFirst, int tapeHint) -> Lin {
		/* try to absorb the constant by moving one boundary */
		if (!e.c) return e;
		for (int pass = 0; pass < 2; pass++) {
			bool plus = (pass == 0) == plusFirst;
			for (auto &x : e.t) {
				if (x.second != (plus ? 1 : -1)) continue;
				int t;
				if (findB(S, x.first, t) < 0) continue;
				Lin q = pos(x.first);
				q.c = plus ? e.c : -e.c;
				int i = locate(S, t, q, false);
				if (i < 0) continue;
				Lin r = e;
				r.c = 0;
				r = ladd(r, pos(x.first), plus ? -1 : 1);
				r = ladd(r, pos(S.tape[t].b[i]), plus ? 1 : -1);
				return r;
			}
			if (!plus && e.c < 0) {
				/* -c = -POS(boundary at distance c from the start) */
				int t = tapeHint;
				if (t < 0 && !e.t.empty()) findB(S, e.t[0].first, t);
				if (t >= 0 && t < 3) {
					Lin q; q.c = -e.c;
					bool neg = false;
					for (auto &x : e.t) neg |= x.second < 0;
					if (!neg) {
						int i = locate(S, t, q, false);
						if (i >= 0) { Lin r = e; r.c = 0; return ladd(r, pos(S.tape[t].b[i]), -1); }
					}
				}
			}
		}
		return e;
	};
	std::vector<std::pair<int, Val>> todo;
	auto fix = [&](Val &v, int loc) {
		if (v.k == K_PTR && v.ok <= 1 && v.obj <= OBJ_TAPE0 && v.obj >= OBJ_TAPE2) {
			int t = OBJ_TAPE0 - v.obj;
			Lin e;
			if (!ldiv(toLin(ptrOff(v)), S.tape[t].es, e)) return;
			if (!e.c) return;
			Lin r;
			if (e.t.empty()) {
				int i = locate(S, t, e, false);
				if (i < 0) return;
				r = pos(S.tape[t].b[i]);
			} else r = elim(e, true, t);
			int pv = v.prov;
			v = mkPtr(v.obj, mkLin(lmul(r, S.tape[t].es)));
			v.prov = pv;
			return;
		}
		if ((v.k == K_INT && v.w == 64) || v.k == K_LIN) {
			int t = -1;
			Lin B, e = toLin(v);
			if (loc >= 0 && baseLin(loc, t, B)) {
				if (!e.c && e.t.empty()) return;
				if (e.t.empty() && e.c && (i64)e.c > 0) {
					int i = locate(S, t, ladd(e, B), false);
					if (i < 0) return;
					Lin r = ladd(pos(S.tape[t].b[i]), B, -1);
					int pv = v.prov;
					v = mkLin(r);
					v.prov = pv;
					return;
				}
				if (e.t.empty()) return;
			}
			if (e.t.empty() || !e.c) return;
			bool plus = loc >= 0 && assoc.count(loc);
			int pv = v.prov;
			v = mkLin(elim(e, plus, t));
			v.prov = pv;
		}
	};
	eachVal(S, fix);
}

/* index of the first boundary of the input tape that a cursor may still read from */
int Engine::barrier(State &S) {
	Tape &T = S.tape[0];
	int best = INT_MAX;
	bool startCursor = false;
	int endI = bidx(T, T.endB);
	if (endI < 0) endI = INT_MAX;
	auto addLin = [&](const Lin &l) {
		bool plus = false, minus = false;
		for (auto &x : l.t) minus |= x.second < 0 && bidx(T, x.first) >= 0;
		for (auto &x : l.t) if (x.second > 0) { int i = bidx(T, x.first); if (minus && i >= endI) continue; /* a remaining length is no cursor */ if (i >= 0) { best = std::min(best, i); plus = true; } }
		return plus;
	};
	eachVal(S, [&](Val &v, int loc) {
		if (v.k == K_PTR && v.obj == OBJ_TAPE0) {
			if (loc >= 0 && assocBase.count(loc) && !pins.count(loc)) return;
			if (v.ok == 1) addLin(lins[v.id]);
			else if (pins.count(loc)) startCursor = true;
			return;
		}
		if (loc >= 0) {
			auto it = assoc.find(loc);
			if (it != assoc.end() && it->second.second == 0 && (v.k == K_LIN || (v.k == K_INT && v.w == 64))) {
				Val *b = locVal(S, it->second.first);
				if (b && b->k == K_PTR && b->obj == OBJ_TAPE0 && b->ok <= 1) {
					Lin B;
					if (ldiv(toLin(ptrOff(*b)), T.es, B)) {
						Lin s = ladd(toLin(v), B);
						if (!addLin(s) && s.c >= 0 && s.t.empty()) startCursor = true;
						return;
					}
				}
			}
		}
		if (v.k == K_LIN) addLin(lins[v.id]);
	});
	if (startCursor || best == INT_MAX) return 0;
	return best;
}

void Engine::arrive(State &S) {
	if (S.pend) killDead(S);
	if (!S.relDone) {
		S.rel.clear();
		for (auto &x : S.track) {
			Val *v = locVal(S, x.first);
			if (!v || (v->k != K_LIN && v->k != K_INT && v->k != K_PTR) || v->k == K_UNDEF) continue;
			const Val &o = x.second;
			try {
				Lin d;
				if (v->k == K_PTR && o.k == K_PTR && v->obj == o.obj && v->ok <= 1 && o.ok <= 1) d = ladd(toLin(ptrOff(*v)), toLin(ptrOff(o)), -1);
				else if (v->k != K_PTR && o.k != K_PTR && (v->k == K_LIN || v->w == 64)) d = ladd(toLin(*v), toLin(o), -1);
				else continue;
				i64 lo, hi;
				bounds(S, d, lo, hi);
				S.rel.push_back({ x.first, lo > 0 ? '+' : lo == 0 && hi == 0 ? '=' : hi < 0 ? '-' : lo >= 0 ? 'g' : hi <= 0 ? 'l' : '?' });
			} catch (Imprecise &) {}
		}
		S.relDone = true;
		S.track.clear();
	}
	normalise(S);
	if (mon->foldsInput()) {
		for (;;) {
			Tape &T = S.tape[0];
			int bar = S.isRet ? mon->retBarrier(S) : barrier(S);
			int i = 0;
			while (i < (int)T.n.size() && (T.n[i].k == N_PAST || T.n[i].k == N_EMPTY)) i++;
			if (debug > 4) { fprintf(stderr, "fold i=%d bar=%d ret=%d partial=%d n=%zu\n", i, bar, S.isRet, S.partial, T.n.size()); eachVal(S, [&](Val &v, int loc) { if (loc >= 0 && (v.k == K_LIN || (v.k == K_PTR && v.obj == OBJ_TAPE0))) { std::string n; auto &l = locs[loc]; raw_string_ostream os(n); if (l.first != (const void *)poKey) ((const Value *)l.first)->printAsOperand(os, false); os << "+" << l.second; fprintf(stderr, "     %s = %s ab=%d pin=%d as=%d\n", n.c_str(), showVal(S, v).c_str(), (int)assocBase.count(loc), (int)pins.count(loc), (int)assoc.count(loc)); } }); }
			if (i >= bar) break;
			Node &n = T.n[i];
			if (n.k == N_TRUNC || n.k == N_OVER) break;
			/* text nobody looked at yet is only passed when the function returned behind it */
			if (n.k == N_OPEN && !S.isRet) break;
			if (n.k == N_OPEN || n.k == N_MANY) splitAt(S, 0, i);
			if (n.k != N_CELL) throw Imprecise{ "fold" };
			mon->foldIn(S, i);
			{
				auto tr = std::make_shared<Trace>();
				tr->up = S.tr;
				tr->m = S.syms[S.tape[0].n[i].sym];
				S.tr = tr;
			}
			S.tape[0].n[i].k = N_PAST;
			S.tape[0].n[i].sym = -1;
			int j = skipEmpty(S, 0, i + 1);
			if (j < bar && (S.tape[0].n[j].k == N_MANY || (S.isRet && S.tape[0].n[j].k == N_OPEN))) { S.partial = true; canonEnqueue(S); return; }
		}
	}
	if (!S.isRet) settle(S);
	mon->atHeader(S);
	S.partial = false;
	if (S.isRet) {
		mon->finish(S);
		nPaths++;
		return;
	}
	canonEnqueue(S);
}

/* values of text that was passed: decide what several symbols determine jointly,
 * and replace what the passed symbol fixes already */
void Engine::settle(State &S) {
	std::set<int> ahead;
	for (auto &n : S.tape[0].n) if (n.sym >= 0) ahead.insert(n.sym);
	eachVal(S, [&](Val &v, int loc) {
		if (loc < 0 || (v.k != K_FN && !(v.k == K_PTR && v.ok == 2))) return;
		const FnV f = fns[v.id];
		int past = 0;
		for (int s : f.syms) past += !ahead.count(s);
		if (!past) return;
		if (f.syms.size() == 1) {
			if (!decidePast) return;
			if (!D.n[f.dag].hasload && v.w != 1) {
				/* a raw codepoint is only decided where few values remain */
				const Universe::BV &bv = U.vals(f.dag);
				bool nc = false;
				S.syms[f.syms[0]].each([&](int b) { nc |= bv.nonconst[b]; });
				if (nc) return;
			}
		}
		Val t; t.k = K_FN; t.w = 64; t.id = v.id;
		u64 x = constOf(S, t);
		int pv = v.prov;
		if (v.k == K_FN) v = mkInt(v.w, x); else { v.ok = 0; v.c = x; v.id = -1; }
		v.prov = pv;
	});
}

bool Engine::mergeTapes(State &S) {
	std::set<int> rb, rs;
	eachVal(S, [&](Val &v, int) {
		if (v.k == K_LIN || (v.k == K_PTR && v.ok == 1)) for (auto &x : lins[v.id].t) rb.insert(x.first);
		if (v.k == K_FN || (v.k == K_PTR && v.ok == 2)) for (int s : fns[v.id].syms) rs.insert(s);
	});
	std::vector<Mask> coarse = mon->coarse();
	auto part = [&](const Mask &m) { for (size_t i = 0; i < coarse.size(); i++) if (m.subset(coarse[i])) return (int)i; return -1; };
	bool track = scens[S.scen].track;
	for (int t = 0; t < 3; t++) {
		Tape &T = S.tape[t];
		/* word boundaries behind the consumed text are of no use any more */
		if (t == 0) for (size_t i = 0; i < T.n.size(); i++) if (T.n[i].k == N_PAST) T.bf[i] &= ~BF_WB;
		/* output the monitor has accounted for but the code has not reached yet is kept exactly */
		std::set<int> keep;
		if (t == 1) for (int i = 0; i < (int)T.b.size(); i++) {
			if (!(T.bf[i] & BF_SO)) continue;
			int far = -1, lim = T.kind == T_OUT32 ? 3 : 12;
			for (int j = i - 1; j >= 0 && T.n[j].k == N_CELL && i - j <= lim; j--) if (j == 0 || rb.count(T.b[j])) far = j;
			if (far >= 0) for (int k = far; k <= i; k++) keep.insert(T.b[k]);
			break;
		}
		auto refB = [&](int i) { return rb.count(T.b[i]) || keep.count(T.b[i]) || T.bf[i] || T.b[i] == T.endB || i == 0 || i == (int)T.b.size() - 1; };
		auto plain = [&](const Node &n) { return (n.k == N_CELL && (t != 0 || !rs.count(n.sym))) || n.k == N_MANY; };
		auto mask = [&](const Node &n) { return n.k == N_CELL ? (t == 0 ? S.syms[n.sym] : Mask()) : n.mask; };
		auto erase = [&](int i) { /* drop boundary i+1: nodes i and i+1 become node i */ T.n.erase(T.n.begin() + i + 1); T.b.erase(T.b.begin() + i + 1); T.bf.erase(T.bf.begin() + i + 1); };
		/* past runs */
		for (int i = 0; i + 1 < (int)T.n.size();) {
			if (T.n[i].k == N_PAST && T.n[i + 1].k == N_PAST && !refB(i + 1)) erase(i);
			else i++;
		}
		if (t == 0) {
			if (T.kind == T_BYTES && mon->foldsInput() == false) continue;
			/* groups of unreferenced nodes */
			for (int i = 0; i < (int)T.n.size(); i++) {
				if (!plain(T.n[i])) continue;
				int j = i;
				while (j + 1 < (int)T.n.size() && plain(T.n[j + 1]) && !refB(j + 1)) j++;
				if (j == i) continue;
				auto join = [&](int a) {
					Mask m = mask(T.n[a]) | mask(T.n[a + 1]);
					Node n; n.k = N_MANY; n.mask = m;
					T.n[a] = n;
					erase(a);
					j--;
				};
				for (int a = i; a < j;) {
					Mask x = mask(T.n[a]), y = mask(T.n[a + 1]);
					int p = part(x);
					if (x == y || (p >= 0 && p == part(y)) || coarse.empty()) join(a);
					else a++;
				}
				while (j - i + 1 > 4) join(i);
				i = j;
			}
		} else if (!track || t == 2) {
			for (int i = 0; i + 1 < (int)T.n.size();) {
				if (plain(T.n[i]) && plain(T.n[i + 1]) && !refB(i + 1)) { Node n; n.k = N_MANY; T.n[i] = n; erase(i); }
				else i++;
			}
			/* cells next to INF vanish if unreferenced */
		} else {
			/* tracked output: blank unwritten, unexpected cells merge */
			for (int i = 0; i + 1 < (int)T.n.size();) {
				auto blank = [&](const Node &n) { return n.k == N_MANY || (n.k == N_CELL && n.content.k == K_UNDEF && n.expect.k == K_UNDEF); };
				if (blank(T.n[i]) && blank(T.n[i + 1]) && !refB(i + 1)) { Node n; n.k = N_MANY; T.n[i] = n; erase(i); }
				else i++;
			}
		}
		/* a blank run followed by OPEN/INF without referenced boundary */
		for (int i = 0; i + 1 < (int)T.n.size();) {
			Node &x = T.n[i], &y = T.n[i + 1];
			if (t != 0 && y.k == N_INF && x.k == N_MANY && !refB(i + 1)) { T.n[i] = y; erase(i); }
			else i++;
		}
		if (T.n.size() > 60) throw Imprecise{ "tape grows without bound" };
	}
	return true;
}

std::string Engine::serialise(State &S, std::vector<Mask> &masks) {
	std::string k;
	auto put = [&](i64 x) { if (x >= -100 && x < 100) k += (char)(x + 100); else { k += (char)255; k.append((const char *)&x, 8); } };
	auto putp = [&](const void *p) { k.append((const char *)&p, 8); };
	auto val = [&](const Val &v) {
		put(v.k); put(v.w);
		switch (v.k) {
		case K_INT: case K_FUNC: put(v.c); break;
		case K_FN: case K_LIN: put(v.id); break;
		case K_PTR: put(v.ok); put(v.obj); if (v.ok) put(v.id); else put(v.c); break;
		default: break;
		}
	};
	put(S.scen); put(S.isRet); put(S.partial);
	putp(S.pend);
	for (auto &fr : S.fr) {
		putp(&fr == &S.fr.back() ? (const void *)S.pend : (const void *)fr.ip);
		for (size_t i = 0; i < fr.r.size(); i++) if (fr.r[i].k != K_UNDEF) { put(i); val(fr.r[i]); }
		put(-1);
	}
	for (auto &o : S.objs) {
		put(o.bg);
		for (auto &s : o.s) if (s.v.k != K_STALE) { put(s.off); put(s.size); val(s.v); }
		put(-1);
	}
	for (int t = 0; t < 3; t++) {
		Tape &T = S.tape[t];
		for (size_t i = 0; i < T.n.size(); i++) {
			put(T.n[i].k); put(T.bf[i]); put(T.b[i]); put(T.n[i].sym); put(T.n[i].done); put(T.n[i].wd);
			val(T.n[i].content); val(T.n[i].expect);
			if (T.n[i].k == N_MANY || T.n[i].k == N_OPEN) masks.push_back(T.n[i].mask);
		}
		put(T.endB); put(T.bf.back()); put(-1);
	}
	for (int q : S.mon.q) put(q);
	put(-1);
	for (auto &v : S.mon.v) val(v);
	if (S.isRet) val(S.ret);
	for (auto &m : S.syms) masks.push_back(m);
	put(S.syms.size());
	return k;
}

void Engine::canonEnqueue(State &S) {
	/* unify boundaries joined by EMPTY nodes */
	std::map<int, int> ren;
	for (int t = 0; t < 3; t++) {
		Tape &T = S.tape[t];
		for (int i = 0; i < (int)T.n.size();) {
			if (T.n[i].k != N_EMPTY || T.n.size() == 1) { i++; continue; }
			int l = T.b[i], r = T.b[i + 1];
			ren[r] = l;
			T.bf[i] |= T.bf[i + 1];
			if (T.endB == r) T.endB = l;
			T.n.erase(T.n.begin() + i);
			T.b.erase(T.b.begin() + i + 1);
			T.bf.erase(T.bf.begin() + i + 1);
		}
	}
	std::map<int, int> symMap;
	std::vector<Mask> nsyms;
	bool second = false;
	std::map<int, int> bmap;
	auto resolve = [&](int b) { for (auto it = ren.find(b); it != ren.end(); it = ren.find(b)) b = it->second; return b; };
	auto fixLin = [&](int id) {
		const Lin &l = lins[id];
		Lin r; r.c = l.c;
		std::map<int, i64> m;
		for (auto &x : l.t) {
			int b = resolve(x.first);
			bool start = false;
			for (int t = 0; t < 3; t++) if (S.tape[t].b[0] == b) start = true;
			if (start) continue;
			if (second) { auto it = bmap.find(b); if (it == bmap.end()) throw Imprecise{ "dangling boundary" }; b = it->second; }
			m[b] += x.second;
		}
		for (auto &x : m) if (x.second) r.t.push_back(x);
		return r;
	};
	auto apply = [&](Val &v, int) {
		if (v.k == K_LIN) { int pv = v.prov; v = mkLin(fixLin(v.id)); v.prov = pv; }
		else if (v.k == K_PTR && v.ok == 1) { int pv = v.prov; v = mkPtr(v.obj, mkLin(fixLin(v.id))); v.prov = pv; }
		else if (second && (v.k == K_FN || (v.k == K_PTR && v.ok == 2))) {
			FnV f = fns[v.id];
			for (int &s : f.syms) {
				auto it = symMap.find(s);
				if (it == symMap.end()) { it = symMap.emplace(s, (int)nsyms.size()).first; nsyms.push_back(S.syms[s]); }
				s = it->second;
			}
			v.id = fnId(f);
		}
	};
	eachVal(S, apply);
	mergeTapes(S);
	/* rename */
	int nb = 0;
	for (int t = 0; t < 3; t++) for (int &b : S.tape[t].b) { bmap[b] = nb++; }
	for (int t = 0; t < 3; t++) for (auto &n : S.tape[t].n) if (n.sym >= 0) { symMap[n.sym] = nsyms.size(); nsyms.push_back(S.syms[n.sym]); n.sym = nsyms.size() - 1; }
	second = true;
	eachVal(S, apply);
	for (int t = 0; t < 3; t++) { for (int &b : S.tape[t].b) b = bmap[b]; S.tape[t].endB = bmap[S.tape[t].endB]; }
	S.nextB = nb;
	S.syms = nsyms;
	if (mon) {}
	std::vector<Mask> masks;
	std::string key = serialise(S, masks);
	nTrans++;
	auto &es = seen[key];
	int id = -1;
	for (auto &e : es) {
		bool sub = true;
		for (size_t i = 0; i < masks.size() && sub; i++) sub = masks[i].subset(e.masks[i]);
		if (sub) { id = e.id; break; }
	}
	bool fresh = id < 0;
	if (fresh) {
		/* a waiting state that differs in a single set is widened by exact union */
		int hit = -1;
		std::vector<Mask> cur = masks;
		for (size_t q = 0; q < es.size(); q++) {
			auto &e = es[q];
			if ((int)q == hit || !pending.count(e.id)) continue;
			int diff = -1, nd = 0;
			bool sub = true, sup = true;
			for (size_t i = 0; i < cur.size() && (nd < 2 || sub || sup); i++) if (cur[i] != e.masks[i]) {
				nd++; diff = i;
				sub = sub && cur[i].subset(e.masks[i]);
				sup = sup && e.masks[i].subset(cur[i]);
			}
			if (nd >= 2 && !sub && !sup) continue;
			if (nd == 1) cur[diff] = cur[diff] | e.masks[diff];
			else if (nd && sub) cur = e.masks;
			if (hit >= 0) {
				alias[e.id] = es[hit].id;
				pending.erase(e.id);
				es.erase(es.begin() + q);
				if (hit > (int)q) hit--;
			} else hit = q;
			q = (size_t)-1;
		}
		if (hit >= 0) {
			nMerges++;
			es[hit].masks = cur;
			id = es[hit].id;
			putMasks(pending[id], cur);
			if (S.from >= 0) edges[S.from].push_back({ id, S.rel, S.partial });
			return;
		}
	}
	if (fresh) {
		id = nStates++;
		es.push_back({ masks, id });
		edges.push_back({});
		nodeDesc.push_back(S.pend ? whereOf(&*S.pend->getFirstNonPHI()) : "return");
		if (nStates > maxStates) throw Imprecise{ "too many abstract states" };
		if ((nStates & 255) == 0 && nowSec() - t0 > tLimit) throw Imprecise{ "time limit" };
	}
	if (S.from >= 0) edges[S.from].push_back({ id, S.rel, S.partial });
	if (!fresh) return;
	S.from = id;
	if (!S.partial) {
		S.rel.clear();
		S.track.clear();
		eachVal(S, [&](Val &v, int loc) {
			if (loc < 0) return;
			if (v.k == K_LIN || (v.k == K_INT && v.w == 64) || (v.k == K_PTR && v.ok <= 1 && v.obj <= OBJ_TAPE0 && v.obj >= OBJ_TAPE2)) S.track.push_back({ loc, v });
		});
		S.pend = nullptr;
	} else {
		/* continue folding later: positions compare equal */
		for (auto &r : S.rel) r.second = '=';
		eachVal(S, [&](Val &v, int loc) { (void)v; (void)loc; });
	}
	queue.push_back(id);
	pending.emplace(id, std::move(S));
}

void Engine::putMasks(State &S, const std::vector<Mask> &m) {
	size_t k = 0;
	for (int t = 0; t < 3; t++) for (auto &n : S.tape[t].n) if (n.k == N_MANY || n.k == N_OPEN) n.mask = m[k++];
	for (auto &s : S.syms) s = m[k++];
}

/* ------------------------------------------------------------------ driver */
void Engine::runOnce() {
	seen.clear();
	queue.clear();
	pending.clear();
	alias.clear();
	edges.clear();
	nodeDesc.clear();
	viol.clear();
	cut = false;
	violKeys.clear();
	observed.clear();
	nStates = nTrans = nPaths = nObl = 0;
	mon->setup();
	for (size_t i = 0; i < scens.size(); i++) {
		initScenario(i);
		while (!queue.empty()) {
			int id;
			if (order == 1 || (order == 2 && (nPop++ & 1))) { id = queue.back(); queue.pop_back(); }
			else { id = queue.front(); queue.pop_front(); }
			if (!pending.count(id)) continue;
			State S = std::move(pending[id]);
			pending.erase(id);
			if (debug > 1) {
				std::string qs; for (int x : S.mon.q) qs += std::to_string(x) + ",";
				fprintf(stderr, "state %d %s | %s | q=%s\n", S.from, nodeDesc[S.from].c_str(), showTape(S).c_str(), qs.c_str());
				if (debug > 3) eachVal(S, [&](Val &v, int loc) {
					std::string n = "-";
					if (loc >= 0) { auto &l = locs[loc]; raw_string_ostream os(n); n.clear(); if (l.first == (const void *)poKey) os << "po"; else ((const Value *)l.first)->printAsOperand(os, false); os << "+" << l.second; }
					fprintf(stderr, "     %s = %s\n", n.c_str(), showVal(S, v).c_str());
				});
			}
			if (debug == 1 && (S.from % 5000) == 0) fprintf(stderr, "... %ld states, queue %zu, %ld merges, %ld splits, %s\n", nStates, queue.size(), nMerges, nSplits, nodeDesc[S.from].c_str());
			explore(std::move(S));
			if (softEnd && nowSec() > softEnd) { cut = true; return; }
			if (viol.size() > 40 || (!viol.empty() && nowSec() - tViol > grace)) { cut = true; return; }
		}
	}
}

static double procStart = nowSec();
bool Engine::run() {
	t0 = procStart;
	for (;;) {
		try {
			runOnce();
			break;
		} catch (RestartEx &) {
			nRestarts++;
			if (nRestarts > 5000) throw Imprecise{ "no convergence" };
		}
	}
	if (!cut) checkTermination();
	return viol.empty();
}

/* every cycle of the abstract graph must strictly advance some cursor that no
 * other edge of the same component moves back (lexicographic ranking) */
void Engine::checkTermination() {
	int n = edges.size();
	for (auto &es : edges) for (auto &e : es) for (auto it = alias.find(e.to); it != alias.end(); it = alias.find(e.to)) e.to = it->second;
	struct E { int a, b; const Edge *e; };
	std::function<void(std::vector<int>, std::set<const Edge *>)> rec;
	std::set<std::string> reported;
	auto sccs = [&](const std::vector<int> &nodes, const std::set<const Edge *> &gone) {
		std::vector<std::vector<int>> out;
		std::unordered_map<int, int> idx, low, comp;
		std::set<int> in(nodes.begin(), nodes.end());
		int cnt = 0;
		std::vector<int> st;
		std::unordered_set<int> on;
		for (int r : nodes) {
			if (idx.count(r)) continue;
			std::vector<std::pair<int, size_t>> cs = { { r, 0 } };
			idx[r] = low[r] = cnt++; st.push_back(r); on.insert(r);
			while (!cs.empty()) {
				int u = cs.back().first;
				size_t &k = cs.back().second;
				if (k < edges[u].size()) {
					const Edge &e = edges[u][k++];
					if (gone.count(&e) || !in.count(e.to)) continue;
					if (!idx.count(e.to)) { idx[e.to] = low[e.to] = cnt++; st.push_back(e.to); on.insert(e.to); cs.push_back({ e.to, 0 }); }
					else if (on.count(e.to)) low[u] = std::min(low[u], idx[e.to]);
				} else {
					if (low[u] == idx[u]) {
						std::vector<int> c;
						for (;;) { int v = st.back(); st.pop_back(); on.erase(v); c.push_back(v); if (v == u) break; }
						out.push_back(c);
					}
					cs.pop_back();
					if (!cs.empty()) low[cs.back().first] = std::min(low[cs.back().first], low[u]);
				}
			}
		}
		return out;
	};
	rec = [&](std::vector<int> nodes, std::set<const Edge *> gone) {
		for (auto &c : sccs(nodes, gone)) {
			std::set<int> in(c.begin(), c.end());
			std::vector<const Edge *> es;
			std::vector<int> srcs;
			for (int u : c) for (auto &e : edges[u]) if (!gone.count(&e) && in.count(e.to)) { es.push_back(&e); srcs.push_back(u); }
			if (es.empty()) continue;
			std::map<int, std::pair<int, int>> st; /* loc -> (#edges non-decreasing, #strict) */
			std::map<int, std::pair<int, int>> dn;
			for (auto *e : es) for (auto &r : e->rel) {
				if (r.second == '+' || r.second == '=' || r.second == 'g') { st[r.first].first++; if (r.second == '+') st[r.first].second++; }
				if (r.second == '-' || r.second == '=' || r.second == 'l') { dn[r.first].first++; if (r.second == '-') dn[r.first].second++; }
			}
			int loc = -1; char ch = '+';
			for (auto &x : st) if (x.second.first == (int)es.size() && x.second.second > 0 && (loc < 0 || x.second.second > st[loc].second)) loc = x.first;
			if (loc < 0) for (auto &x : dn) if (x.second.first == (int)es.size() && x.second.second > 0) { loc = x.first; ch = '-'; break; }
			std::set<const Edge *> g2 = gone;
			if (loc >= 0) {
				for (auto *e : es) for (auto &r : e->rel) if (r.first == loc && r.second == ch) g2.insert(e);
				rec(c, g2);
				continue;
			}
			/* bookkeeping edges that only fold text are bounded by the text passed */
			bool any = false;
			for (auto *e : es) if (e->part) { g2.insert(e); any = true; }
			if (any) { rec(c, g2); continue; }
			std::string w = nodeDesc[c[0]];
			if (reported.insert(w).second) {
				Violation v;
				v.kind = "nonterm";
				v.fn = scens.empty() ? "" : scens[0].fn;
				v.where = w;
				v.msg = "loop can be repeated without any cursor advancing";
				v.sig = "nonterm|" + v.fn + "|" + w;
				for (int u : c) { if (v.trace.size() > 400) break; v.trace += nodeDesc[u] + "; "; }
				viol.push_back(v);
			}
		}
	};
	std::vector<int> all(n);
	for (int i = 0; i < n; i++) all[i] = i;
	rec(all, {});
}

/* ------------------------------------------------------------------ reports */
std::string Engine::whereOf(const Instruction *I) {
	if (!I) return "?";
	std::string s = I->getFunction()->getName().str();
	const Instruction *J = I;
	while (J && !J->getDebugLoc()) J = J->getNextNode();
	if (J && J->getDebugLoc()) {
		auto L = J->getDebugLoc();
		s = L->getFilename().str() + ":" + std::to_string(L.getLine()) + " (" + s + ")";
	}
	return s;
}
std::string Engine::showTape(State &S) {
	std::string s;
	for (int t = 0; t < 3; t++) {
		Tape &T = S.tape[t];
		if (t == 2 && T.n.size() <= 1) continue;
		if (t == 1 && scens[S.scen].outKind < 0) continue;
		s += t == 0 ? "in:" : t == 1 ? " out:" : " len:";
		for (size_t i = 0; i < T.n.size(); i++) {
			s += " " + std::to_string(T.b[i]);
			if (T.b[i] == T.endB) s += "E";
			if (T.bf[i] & BF_WB) s += "w";
			if (T.bf[i] & BF_NULPOS) s += "z";
			if (T.bf[i] & BF_SO) s += "s";
			s += " ";
			Node &n = T.n[i];
			switch (n.k) {
			case N_CELL: s += t == 0 ? "s" + std::to_string(n.sym) + U.show(S.syms[n.sym]) : "[" + showVal(S, n.content) + "/" + showVal(S, n.expect) + "]"; break;
			case N_MANY: s += t == 0 ? U.show(n.mask) + "+" : "..+"; break;
			case N_OPEN: s += "...*"; break;
			case N_EMPTY: s += "~"; break;
			case N_PAST: s += "PAST"; break;
			case N_TRUNC: s += "TRUNC"; break;
			case N_OVER: s += "OVER"; break;
			case N_INF: s += "INF"; break;
			}
		}
		s += " " + std::to_string(T.b.back());
		if (T.b.back() == T.endB) s += "E";
	}
	return s;
}
std::string Engine::showVal(State &S, const Val &v) {
	switch (v.k) {
	case K_UNDEF: return "undef";
	case K_INT: { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v.c); return b; }
	case K_FN: { std::string s = "fn("; s += debug > 3 ? "#" + std::to_string(fns[v.id].dag) : D.str(fns[v.id].dag).substr(0, 60); for (int x : fns[v.id].syms) s += " s" + std::to_string(x); return s + ")"; }
	case K_LIN: { std::string s = std::to_string(lins[v.id].c); for (auto &x : lins[v.id].t) s += (x.second < 0 ? "-" : "+") + (std::abs(x.second) == 1 ? "" : std::to_string(std::abs(x.second)) + "*") + std::string("p") + std::to_string(x.first); return s; }
	case K_PTR: return "ptr(" + std::to_string(v.obj) + ", " + showVal(S, ptrOff(v)) + ")";
	case K_FUNC: return "func";
	case K_TOP: return "top";
	default: return "stale";
	}
}
std::string Engine::sampleInput(State &S) {
	std::vector<std::string> tr;
	for (auto p = S.tr; p; p = p->up) tr.push_back(p->note.empty() ? U.show(p->m) : p->note);
	std::string s;
	for (size_t i = tr.size(); i-- > 0;) s += tr[i] + " ";
	return s;
}
void Engine::report(State &S, const std::string &kind, const std::string &msg, const Instruction *I, bool dead, std::string sig) {
	Violation v;
	v.kind = kind;
	v.fn = scens[S.scen].fn;
	v.where = I ? whereOf(I) : S.fr.empty() ? "return of " + v.fn : whereOf(S.fr.back().ip);
	v.msg = msg;
	v.trace = "scenario: " + scens[S.scen].desc + " | text passed: " + sampleInput(S) + "| ahead: " + showTape(S) + (mon ? " | " + mon->show(S) : "");
	v.sig = kind + "|" + v.fn + "|" + (sig.empty() ? v.where : sig);
	if (violKeys.insert(v.sig).second && viol.size() <= 60) { if (viol.empty()) tViol = nowSec(); viol.push_back(v); }
	if (dead) throw DeadEx{};
}
