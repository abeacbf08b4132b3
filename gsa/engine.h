#pragma once
#include "dag.h"
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ScalarEvolution.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <deque>
#include <memory>
#include <unordered_set>
using namespace llvm;

enum VK : uint8_t { K_UNDEF, K_INT, K_FN, K_LIN, K_PTR, K_FUNC, K_TOP, K_STALE };
enum { OBJ_NULL = -1, OBJ_TAPE0 = -10, OBJ_TAPE1 = -11, OBJ_TAPE2 = -12, OBJ_GLOBAL = 1000000 };

struct Val {
	uint8_t k = K_UNDEF, w = 0, ok = 0; /* ok: pointer offset kind 0 const,1 LIN,2 FN */
	int obj = 0;
	u64 c = 0;
	int id = -1;
	int prov = -1;
	bool same(const Val &o) const { return k == o.k && w == o.w && ok == o.ok && obj == o.obj && c == o.c && id == o.id; }
};
struct Lin {
	i64 c = 0;
	std::vector<std::pair<int, i64>> t; /* (boundary id, coefficient), sorted by id */
	bool operator<(const Lin &o) const { return c != o.c ? c < o.c : t < o.t; }
	bool operator==(const Lin &o) const { return c == o.c && t == o.t; }
};
struct FnV {
	int dag;
	std::vector<int> syms;
	bool operator<(const FnV &o) const { return dag != o.dag ? dag < o.dag : syms < o.syms; }
};

enum NK : uint8_t { N_CELL, N_MANY, N_OPEN, N_EMPTY, N_PAST, N_TRUNC, N_OVER, N_INF };
struct Node {
	uint8_t k;
	int sym = -1;   /* input cell */
	Mask mask;      /* MANY/OPEN */
	Val content, expect; /* output cell */
	bool done = false;
	uint8_t wd = 0; /* decided width in bytes */
};
enum TK : uint8_t { T_CP, T_UNITS, T_BYTES, T_OUT32, T_OUT8, T_LEN };
struct Tape {
	uint8_t kind = T_CP;
	int es = 4;
	bool nul = false, isnull = false;
	std::vector<Node> n;
	std::vector<int> b; /* n.size()+1 boundary ids */
	std::vector<uint8_t> bf;
	int endB = -1; /* input: END; output: D */
	Mask init;
};
enum { BF_WB = 1, BF_NULPOS = 2, BF_SO = 4 };

struct Slot { int off, size; Val v; };
struct Obj {
	const void *key;
	int size;
	bool alive = true;
	int bg = -1;
	std::vector<Slot> s;
};
struct Frame {
	Function *f;
	BasicBlock *bb;
	Instruction *ip;
	std::vector<Val> r;
	int objBase;
};
struct Trace { std::shared_ptr<Trace> up; Mask m; std::string note; };
struct MonSt {
	std::vector<int> q;
	std::vector<Val> v;
};
struct State {
	std::vector<Frame> fr;
	std::vector<Obj> objs;
	Tape tape[3];
	std::vector<Mask> syms;
	int nextB = 0;
	MonSt mon;
	std::shared_ptr<Trace> tr;
	/* arrival bookkeeping */
	BasicBlock *pend = nullptr; /* header being arrived at */
	bool isRet = false, partial = false, relDone = false;
	Val ret;
	int from = -1;
	std::vector<std::pair<int, Val>> track;
	std::vector<std::pair<int, char>> rel;
	int scen = 0;
};
struct SplitEx { std::vector<std::function<bool(State &)>> alts; };
struct DeadEx {};

struct Violation {
	std::string kind, fn, msg, where, trace, sig;
};

struct FnInfo {
	std::unordered_map<const Value *, int> num;
	std::vector<const Value *> vals;
	std::unordered_map<const BasicBlock *, std::vector<int>> liveHdr; /* after phis */
	std::unordered_map<const Instruction *, std::vector<int>> liveCall;
	std::set<const BasicBlock *> headers;
	int nloops = 0, skipped = 0;
};

struct Scenario {
	std::string fn, desc;
	int inKind = -1, outKind = -1;
	bool nul = false, srcNull = false, trunc = false, destNull = false, poNull = false;
	bool track = false; /* track output content */
	int variant = 0;
};

struct Engine;
struct Monitor {
	Engine *E = nullptr;
	virtual ~Monitor() {}
	virtual void init(State &) {}
	virtual void setup() {} /* after partition changes */
	virtual std::vector<Mask> coarse() { return {}; }
	/* fold the input cell at node index i (left of the barrier) */
	virtual void foldIn(State &, int) {}
	/* called at each header after folding */
	virtual void atHeader(State &) {}
	/* called when the function returned; input folded up to where finish asks. returns index to fold up to, or -1 when complete */
	virtual int retBarrier(State &) { return -1; }
	virtual void finish(State &) {}
	virtual bool call(State &, CallBase *, const std::string &, Val &) { return false; } /* intrinsic calls */
	virtual std::string show(State &) { return ""; }
	virtual bool foldsInput() { return true; }
};

struct Engine {
	Module *M;
	const DataLayout *DL;
	Dag D;
	Universe U;
	std::vector<GBytes> globals;
	std::unordered_map<const GlobalVariable *, int> gid;
	std::vector<const GlobalVariable *> gptr;
	std::unordered_map<const Function *, std::unique_ptr<FnInfo>> finfo;
	Monitor *mon = nullptr;
	std::vector<Scenario> scens;
	std::set<std::string> contracts; /* names of functions used by contract */

	/* interning */
	std::vector<Lin> lins;
	std::map<Lin, int> linTab;
	std::vector<FnV> fns;
	std::map<FnV, int> fnTab;
	std::vector<std::pair<const void *, int>> locs;
	std::map<std::pair<const void *, int>, int> locTab;
	std::map<int, std::pair<int, int>> assoc; /* index loc -> (base loc, tape) */
	std::set<int> assocBase, pins;
	std::set<std::pair<const void *, int>> needed; /* (header bb, loc) */

	/* exploration */
	struct Entry { std::vector<Mask> masks; int id; };
	std::unordered_map<std::string, std::vector<Entry>> seen;
	std::unordered_map<int, State> pending;
	std::deque<int> queue;
	std::unordered_map<int, int> alias;
	void putMasks(State &S, const std::vector<Mask> &m);
	std::vector<Violation> viol;
	std::set<std::string> violKeys;
	struct Edge { int to; std::vector<std::pair<int, char>> rel; bool part; };
	std::vector<std::vector<Edge>> edges;
	std::vector<std::string> nodeDesc;
	long nStates = 0, nPaths = 0, nInstr = 0, nSplits = 0, nRestarts = 0, nTrans = 0, nLoads = 0, nStores = 0, nDecide = 0, nObl = 0, nMerges = 0;
	std::set<const Instruction *> visitedInstr;
	std::set<const Function *> visitedFns;
	std::map<int, Mask> observed; /* decided unary dags -> symbols on which they were decided */
	long maxStates = 400000;
	int debug = 0;
	int order = 0; /* 0 breadth first, 1 depth first, 2 alternating */
	long nPop = 0;
	bool cut = false;   /* the search ended early because violations were found */
	double softEnd = 0; /* a preparatory pass may stop here */
	double tViol = 0, grace = 1e9;
	bool decidePast = false; /* values of passed text are decided at loop heads */
	double tLimit = 800;
	double t0 = 0;

	/* ---- interning ---- */
	int linId(const Lin &l) {
		auto it = linTab.find(l);
		if (it != linTab.end()) return it->second;
		lins.push_back(l);
		return linTab[l] = lins.size() - 1;
	}
	int fnId(const FnV &f) {
		auto it = fnTab.find(f);
		if (it != fnTab.end()) return it->second;
		fns.push_back(f);
		return fnTab[f] = fns.size() - 1;
	}
	int locId(const void *p, int off) {
		auto it = locTab.find({ p, off });
		if (it != locTab.end()) return it->second;
		locs.push_back({ p, off });
		return locTab[{ p, off }] = locs.size() - 1;
	}
	Val mkInt(int w, u64 c) { Val v; v.k = K_INT; v.w = w; v.c = c & wmask(w); return v; }
	Val mkTop(int w) { Val v; v.k = K_TOP; v.w = w; return v; }
	Val mkUndef(int w) { Val v; v.k = K_UNDEF; v.w = w; return v; }
	Val mkLin(const Lin &l) {
		if (l.t.empty()) return mkInt(64, (u64)l.c);
		Val v; v.k = K_LIN; v.w = 64; v.id = linId(l); return v;
	}
	Val mkFn(int w, int dag, const std::vector<int> &syms);
	Val mkSym(int sym, int w) { return mkFn(w, D.var(w, 0), { sym }); }
	Val mkPtr(int obj, const Val &off) {
		Val v; v.k = K_PTR; v.w = 64; v.obj = obj;
		if (off.k == K_INT) { v.ok = 0; v.c = off.c; }
		else if (off.k == K_LIN) { v.ok = 1; v.id = off.id; }
		else if (off.k == K_FN) { v.ok = 2; v.id = off.id; }
		else throw Imprecise{ "pointer with unknown offset" };
		return v;
	}
	Val ptrOff(const Val &p) {
		Val v; v.w = 64;
		if (p.ok == 0) { v.k = K_INT; v.c = p.c; }
		else { v.k = p.ok == 1 ? K_LIN : K_FN; v.id = p.id; }
		return v;
	}
	Lin toLin(const Val &v) {
		if (v.k == K_INT) { Lin l; l.c = (i64)v.c; return l; }
		if (v.k == K_LIN) return lins[v.id];
		throw Imprecise{ "no linear form" };
	}
	static Lin ladd(const Lin &a, const Lin &b, i64 f = 1) {
		Lin r; r.c = a.c + f * b.c;
		size_t i = 0, j = 0;
		while (i < a.t.size() || j < b.t.size()) {
			if (j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
			else if (i >= a.t.size() || b.t[j].first < a.t[i].first) { r.t.push_back({ b.t[j].first, f * b.t[j].second }); j++; }
			else { i64 c = a.t[i].second + f * b.t[j].second; if (c) r.t.push_back({ a.t[i].first, c }); i++; j++; }
		}
		return r;
	}
	static Lin lmul(const Lin &a, i64 f) {
		Lin r; if (!f) return r;
		r = a; r.c *= f; for (auto &x : r.t) x.second *= f; return r;
	}
	static bool ldiv(const Lin &a, i64 f, Lin &r) {
		r = a;
		if (r.c % f) return false;
		r.c /= f;
		for (auto &x : r.t) { if (x.second % f) return false; x.second /= f; }
		return true;
	}
	Lin pos(int bid) { Lin l; l.t.push_back({ bid, 1 }); return l; }

	/* ---- tapes ---- */
	int findB(const State &S, int bid, int &t) {
		for (t = 0; t < 3; t++) for (size_t i = 0; i < S.tape[t].b.size(); i++) if (S.tape[t].b[i] == bid) return i;
		return -1;
	}
	void width(const State &S, const Tape &T, const Node &n, i64 &lo, i64 &hi);
	int wdag = -1;
	[[noreturn]] void splitWidth(State &S, int t, int idx);
	static constexpr i64 BIG = 1LL << 40;
	bool Kvec(State &S, const Lin &l, int t, std::vector<i64> &K);
	void bounds(State &S, const Lin &l, i64 &lo, i64 &hi);
	bool lt0(State &S, const Lin &l);
	bool eq0(State &S, const Lin &l);
	[[noreturn]] void refineLin(State &S, const Lin &l);
	void splitNode(State &S, int t, int leftBid, std::vector<std::function<bool(State &)>> &alts, const Mask *set = nullptr);
	[[noreturn]] void splitAt(State &S, int t, int idx, const Mask *set = nullptr);
	bool fixShort(State &S);
	int newSym(State &S, const Mask &m) { S.syms.push_back(m); return S.syms.size() - 1; }
	/* boundary index for position expression; returns -1 when beyond the end, -2 when in the past, -3 unsupported */
	int locate(State &S, int t, const Lin &e, bool mayThrow, i64 *beyond = nullptr);
	/* look helpers for monitors */
	int skipEmpty(State &S, int t, int idx) { while (idx < (int)S.tape[t].n.size() && S.tape[t].n[idx].k == N_EMPTY) idx++; return idx; }
	bool eot(State &S, int t, int &idx);
	bool in(State &S, int t, int idx, const Mask &set);
	int skip(State &S, int t, int idx, const Mask &set);
	int after(State &S, int t, int idx);
	bool symIn(State &S, int sym, const Mask &set);
	int symClass(State &S, int sym, const std::vector<Mask> &classes);

	/* ---- values ---- */
	u64 constOf(State &S, const Val &v);
	bool truth(State &S, const Val &v, const Instruction *I);
	Val dagop(uint8_t op, int w, const Val *a, const Val *b = nullptr, const Val *c = nullptr, u64 k = 0);
	Val alu(State &S, Instruction *I, uint8_t op, int w, const Val &a, const Val &b);
	Val icmp(State &S, CmpInst::Predicate p, const Val &a, const Val &b);
	bool cmpLin(State &S, CmpInst::Predicate p, const Lin &a, const Lin &b);
	int signLin(State &S, const Lin &l) { return lt0(S, l) ? -1 : 1; }
	Val operand(State &S, Value *v);
	Val load(State &S, const Val &p, int size, int w, Instruction *I);
	Val leadByte(State &S, const Node &n, int idx);
	void store(State &S, const Val &p, int size, const Val &v, Instruction *I);
	Val gep(State &S, GEPOperator *G, Instruction *I);
	void putSlot(Obj &o, int off, int size, const Val &v);
	std::unordered_map<int, std::pair<int, Mask>> proved;
	std::map<int, std::vector<bool>> provedCp; /* equalities that hold on these blocks */
	bool fnEqual(State &S, const Val &a, const Val &b, std::string &cex);

	/* ---- execution ---- */
	void prepare(Module *m);
	Function *lastF = nullptr;
	FnInfo *lastInfo = nullptr;
	FnInfo &info(Function *f);
	void initScenario(int i);
	bool step(State &S);
	void enter(State &S, BasicBlock *bb);
	void doCall(State &S, CallBase *C);
	std::unordered_map<const Function *, int> pureTab;
	bool isPure(const Function *F);
	bool pureCall(State &S, Function *F, const std::vector<Val> &args, Val &out);
	bool pureRun(State &S, int sym, Val &out, Mask &surv, int &budget);
	long nPure = 0;
	void doRet(State &S, const Val &v);
	void explore(State S);
	void arrive(State &S);
	void killDead(State &S);
	void normalise(State &S);
	void settle(State &S);
	int barrier(State &S);
	void canonEnqueue(State &S);
	bool mergeTapes(State &S);
	std::string serialise(State &S, std::vector<Mask> &masks);
	template <class F> void eachVal(State &S, F f);
	Val *locVal(State &S, int loc);
	bool run();
	void runOnce();
	void checkTermination();
	void report(State &S, const std::string &kind, const std::string &msg, const Instruction *I = nullptr, bool dead = true, std::string sig = "");
	std::string whereOf(const Instruction *I);
	std::string showTape(State &S);
	std::string showVal(State &S, const Val &v);
	std::string sampleInput(State &S);
};
double nowSec();
