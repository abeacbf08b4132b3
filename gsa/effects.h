// Inclusion-based points-to analysis over the whole library (flow- and
// context-insensitive, sensitive to constant field offsets) and the effect
// rules decided with it: no writes to static objects, no calls outside the
// library, no recursion, no writes through pointers to const.
#pragma once
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/InlineAsm.h>
#include "engine.h"

struct Effects {
	Module *M;
	const DataLayout *DL;
	struct Ob { const Value *v; std::string name; char kind; i64 size; bool isConst; int argNo; };
	std::vector<Ob> obs; /* kind: g static object, a local, p argument, f function, u unknown */
	std::map<std::pair<const Value *, int>, int> obId;
	typedef std::pair<int, i64> P; /* object, offset (-1: any) */
	std::unordered_map<const Value *, std::set<P>> pts;
	std::map<P, std::set<P>> cell;
	std::map<const Function *, std::set<P>> rets;
	std::map<const Function *, std::map<const Function *, const Instruction *>> cg;
	bool changed = false;
	std::vector<Violation> viol;
	long nSites = 0, nFun = 0, nObl = 0;

	int ob(const Value *v, char kind, i64 size, int argNo = -1) {
		auto k = std::make_pair(v, argNo);
		auto it = obId.find(k);
		if (it != obId.end()) return it->second;
		std::string n = v ? v->getName().str() : "unknown memory";
		obs.push_back({ v, n, kind, size, false, argNo });
		return obId[k] = obs.size() - 1;
	}
	int unknown() { return ob(nullptr, 'u', -1); }
	P norm(P p) {
		if (p.second < 0 || obs[p.first].size < 0 || p.second > obs[p.first].size) p.second = -1;
		return p;
	}
	static bool isPublic(const Function *F) { return !F->isDeclaration() && !F->hasLocalLinkage() && F->getName().starts_with("grapheme_"); }
	std::set<P> get(const Value *v) {
		if (auto *g = dyn_cast<GlobalVariable>(v)) return { { ob(g, 'g', DL->getTypeAllocSize(g->getValueType())), 0 } };
		if (auto *f = dyn_cast<Function>(v)) return { { ob(f, 'f', 0), 0 } };
		if (auto *c = dyn_cast<ConstantExpr>(v)) {
			if (auto *ge = dyn_cast<GEPOperator>(c)) return gep(ge);
			std::set<P> r;
			for (auto &o : c->operands()) for (auto p : get(o)) r.insert({ p.first, -1 });
			return r;
		}
		if (isa<Constant>(v)) {
			std::set<P> r;
			if (isa<ConstantAggregate>(v)) for (auto &o : cast<Constant>(v)->operands()) for (auto p : get(o)) r.insert(p);
			return r;
		}
		auto it = pts.find(v);
		return it == pts.end() ? std::set<P>() : it->second;
	}
	/* Arrays are represented by their first element; a step from one element of an
	 * array to another stays within the array. */
	std::set<P> gep(const GEPOperator *g) {
		i64 off = 0;
		bool known = true;
		Type *t = g->getSourceElementType();
		auto it = g->idx_begin();
		if (t->isIntegerTy(8)) {
			if (auto *c = dyn_cast<ConstantInt>(*it)) off = c->getSExtValue();
			/* a variable number of bytes */
			else known = false;
		}
		for (++it; it != g->idx_end(); ++it) {
			if (auto *st = dyn_cast<StructType>(t)) {
				unsigned i = cast<ConstantInt>(*it)->getZExtValue();
				off += DL->getStructLayout(st)->getElementOffset(i);
				t = st->getElementType(i);
			} else if (auto *at = dyn_cast<ArrayType>(t)) t = at->getElementType();
			else known = false;
		}
		std::set<P> r;
		for (auto p : get(g->getPointerOperand())) r.insert(norm({ p.first, known && p.second >= 0 ? p.second + off : -1 }));
		return r;
	}
	void addAll(const Value *v, const std::set<P> &s) {
		if (s.empty()) return;
		auto &d = pts[v];
		size_t n = d.size();
		d.insert(s.begin(), s.end());
		if (d.size() != n) changed = true;
	}
	void putCell(P a, const std::set<P> &s) {
		if (s.empty()) return;
		auto &d = cell[a];
		size_t n = d.size();
		d.insert(s.begin(), s.end());
		if (d.size() != n) changed = true;
	}
	std::set<P> getCell(P a) {
		std::set<P> r;
		for (auto it = cell.lower_bound({ a.first, -2 }); it != cell.end() && it->first.first == a.first; ++it)
			if (a.second < 0 || it->first.second < 0 || it->first.second == a.second) r.insert(it->second.begin(), it->second.end());
		return r;
	}
	void copy(P d, P s, i64 len) {
		std::vector<std::pair<P, std::set<P>>> todo;
		for (auto it = cell.lower_bound({ s.first, -2 }); it != cell.end() && it->first.first == s.first; ++it) {
			i64 o = it->first.second;
			i64 t = o < 0 || s.second < 0 || d.second < 0 ? -1 : o - s.second + d.second;
			if (o >= 0 && s.second >= 0 && (o < s.second || (len >= 0 && o >= s.second + len))) continue;
			todo.push_back({ norm({ d.first, t }), it->second });
		}
		for (auto &x : todo) putCell(x.first, x.second);
	}
	void initGlobal(int id, const Constant *c, i64 off) {
		Type *t = c->getType();
		if (t->isPointerTy()) { putCell({ id, off }, get(c)); return; }
		if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
			if (auto *st = dyn_cast<StructType>(t)) {
				for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(id, ca->getOperand(i), off + DL->getStructLayout(st)->getElementOffset(i));
			} else {
				for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(id, ca->getOperand(i), off);
			}
		}
	}
	std::string where(const Instruction *I) {
		std::string s = I->getFunction()->getName().str();
		if (auto &d = I->getDebugLoc()) s = d->getFilename().str() + ":" + std::to_string(d.getLine()) + " (" + s + ")";
		return s;
	}
	std::set<std::string> done;
	void report(const std::string &kind, const std::string &msg, const Instruction *I, const std::string &sig) {
		std::string k = kind + where(I) + msg;
		if (!done.insert(k).second) return;
		Violation v;
		v.kind = kind; v.fn = I->getFunction()->getName().str(); v.msg = msg; v.where = where(I); v.sig = kind + " " + v.fn + " " + sig;
		viol.push_back(v);
	}
	std::vector<const Function *> targets(const CallBase *C, bool *unk = nullptr) {
		std::vector<const Function *> r;
		const Value *cv = C->getCalledOperand()->stripPointerCasts();
		if (auto *f = dyn_cast<Function>(cv)) { r.push_back(f); return r; }
		bool any = false;
		for (auto p : get(cv)) {
			if (obs[p.first].kind == 'f') { r.push_back(cast<Function>(obs[p.first].v)); any = true; }
			else if (unk) *unk = true;
		}
		if (!any && unk) *unk = true;
		return r;
	}
	static bool memPrim(StringRef n, int &dst, int &src) {
		dst = src = -1;
		if (n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") || n == "memcpy" || n == "memmove") { dst = 0; src = 1; return true; }
		if (n.starts_with("llvm.memset") || n == "memset") { dst = 0; return true; }
		return n == "memcmp" || n == "bcmp";
	}
	static bool benign(StringRef n) {
		for (const char *p : { "llvm.dbg.", "llvm.lifetime.", "llvm.expect", "llvm.assume", "llvm.smax", "llvm.smin", "llvm.umax", "llvm.umin", "llvm.abs", "llvm.ctpop", "llvm.ctlz", "llvm.cttz",
		       "llvm.bswap", "llvm.bitreverse", "llvm.fshl", "llvm.fshr", "llvm.is.constant", "llvm.objectsize", "llvm.stacksave", "llvm.stackrestore", "llvm.trap", "llvm.ubsantrap",
		       "llvm.invariant.", "llvm.launder.", "llvm.prefetch", "llvm.uadd.", "llvm.usub.", "llvm.umul.", "llvm.sadd.", "llvm.ssub.", "llvm.smul.", "llvm.experimental.noalias", "llvm.donothing", "llvm.va_" })
			if (n.starts_with(p)) return true;
		return false;
	}
	void solve() {
		for (auto &g : M->globals()) if (g.hasInitializer()) initGlobal(ob(&g, 'g', DL->getTypeAllocSize(g.getValueType())), g.getInitializer(), 0);
		for (auto &F : *M) {
			if (!isPublic(&F)) continue;
			DISubprogram *sp = F.getSubprogram();
			for (auto &A : F.args()) {
				if (!A.getType()->isPointerTy()) continue;
				int id = ob(&F, 'p', -1, A.getArgNo());
				obs[id].name = "argument " + std::to_string(A.getArgNo() + 1) + " of " + F.getName().str();
				if (sp) {
					auto ty = sp->getType()->getTypeArray();
					const DIType *t = A.getArgNo() + 1 < ty.size() ? ty[A.getArgNo() + 1] : nullptr;
					auto strip = [](const DIType *x) {
						while (auto *d = dyn_cast_or_null<DIDerivedType>(x)) {
							if (d->getTag() != dwarf::DW_TAG_typedef && d->getTag() != dwarf::DW_TAG_restrict_type) break;
							x = d->getBaseType();
						}
						return x;
					};
					t = strip(t);
					if (auto *d = dyn_cast_or_null<DIDerivedType>(t)) if (d->getTag() == dwarf::DW_TAG_const_type) t = strip(d->getBaseType());
					if (auto *d = dyn_cast_or_null<DIDerivedType>(t)) if (d->getTag() == dwarf::DW_TAG_pointer_type) {
						auto *b = dyn_cast_or_null<DIDerivedType>(strip(d->getBaseType()));
						if (b && b->getTag() == dwarf::DW_TAG_const_type) obs[id].isConst = true;
					}
				}
				pts[&A].insert({ id, -1 });
			}
		}
		do {
			changed = false;
			for (auto &F : *M) for (auto &I : instructions(F)) flow(I);
		} while (changed);
	}
	void flow(const Instruction &I) {
		if (auto *a = dyn_cast<AllocaInst>(&I)) {
			auto sz = a->getAllocationSize(*DL);
			addAll(a, { { ob(a, 'a', sz ? (i64)sz->getFixedValue() : -1), 0 } });
			return;
		}
		if (auto *g = dyn_cast<GEPOperator>(&I)) { addAll(&I, gep(g)); return; }
		if (auto *l = dyn_cast<LoadInst>(&I)) {
			std::set<P> r;
			for (auto p : get(l->getPointerOperand())) { auto s = getCell(p); r.insert(s.begin(), s.end()); }
			addAll(&I, r);
			return;
		}
		if (auto *s = dyn_cast<StoreInst>(&I)) {
			auto v = get(s->getValueOperand());
			if (!v.empty()) for (auto p : get(s->getPointerOperand())) putCell(norm(p), v);
			return;
		}
		if (auto *C = dyn_cast<CallBase>(&I)) {
			for (auto *F : targets(C)) {
				int d, s;
				if (memPrim(F->getName(), d, s)) {
					auto *len = C->arg_size() > 2 ? dyn_cast<ConstantInt>(C->getArgOperand(2)) : nullptr;
					if (s >= 0) for (auto p : get(C->getArgOperand(d))) for (auto q : get(C->getArgOperand(s))) copy(p, q, len ? (i64)len->getZExtValue() : -1);
					if (!C->getType()->isVoidTy() && d >= 0) addAll(&I, get(C->getArgOperand(d)));
					continue;
				}
				if (F->isDeclaration()) { if (C->getType()->isPointerTy() && !benign(F->getName())) addAll(&I, { { unknown(), -1 } }); continue; }
				for (unsigned i = 0; i < C->arg_size() && i < F->arg_size(); i++) addAll(F->getArg(i), get(C->getArgOperand(i)));
				auto it = rets.find(F);
				if (it != rets.end()) addAll(&I, it->second);
			}
			return;
		}
		if (auto *R = dyn_cast<ReturnInst>(&I)) {
			if (!R->getReturnValue()) return;
			auto v = get(R->getReturnValue());
			auto &d = rets[I.getFunction()];
			size_t n = d.size();
			d.insert(v.begin(), v.end());
			if (d.size() != n) changed = true;
			return;
		}
		/* everything else hands on the pointers among its operands; arithmetic loses the offset */
		if (isa<CmpInst>(I) || I.getType()->isVoidTy()) return;
		bool keep = isa<PHINode>(I) || isa<SelectInst>(I) || isa<CastInst>(I) || isa<ExtractValueInst>(I) || isa<InsertValueInst>(I) || isa<FreezeInst>(I);
		std::set<P> r;
		for (auto &o : I.operands()) {
			if (isa<SelectInst>(I) && &o == &I.getOperandUse(0)) continue;
			for (auto p : get(o)) r.insert(keep ? p : P{ p.first, -1 });
		}
		addAll(&I, r);
	}
	void writes(const Instruction &I, const Value *ptr, const char *how) {
		nObl++;
		auto s = get(ptr);
		if (s.empty() && !isa<ConstantPointerNull>(ptr) && !isa<UndefValue>(ptr) && reach.count(I.getFunction())) {
			report("unknown-write", std::string(how) + " through a pointer of unknown origin", &I, "unknown");
		}
		for (auto p : s) {
			auto &o = obs[p.first];
			if (o.kind == 'g') report("static-write", std::string(how) + " the object with static storage duration '" + o.name + "'", &I, o.name);
			if (o.kind == 'u') report("unknown-write", std::string(how) + " memory obtained from outside the library", &I, "outside");
			if (o.kind == 'p' && o.isConst) report("const-write", std::string(how) + " what " + o.name + ", a pointer to const, refers to", &I, o.name);
		}
	}
	std::set<const Function *> reach;
	void check() {
		for (auto &F : *M) if (isPublic(&F)) { reach.insert(&F); }
		std::vector<const Function *> st(reach.begin(), reach.end());
		/* functions nobody calls with a public entry are library functions too, but their arguments are unknown */
		while (!st.empty()) {
			auto *F = st.back(); st.pop_back();
			for (auto &I : instructions(*F)) if (auto *C = dyn_cast<CallBase>(&I)) for (auto *T : targets(C)) if (!T->isDeclaration() && reach.insert(T).second) st.push_back(T);
		}
		for (auto &F : *M) {
			if (F.isDeclaration()) continue;
			nFun++;
			for (auto &I : instructions(F)) {
				if (auto *s = dyn_cast<StoreInst>(&I)) { nSites++; writes(I, s->getPointerOperand(), "writes to"); }
				else if (auto *x = dyn_cast<AtomicRMWInst>(&I)) { nSites++; writes(I, x->getPointerOperand(), "atomically updates"); }
				else if (auto *x = dyn_cast<AtomicCmpXchgInst>(&I)) { nSites++; writes(I, x->getPointerOperand(), "atomically updates"); }
				else if (auto *C = dyn_cast<CallBase>(&I)) {
					if (isa<DbgInfoIntrinsic>(&I)) continue;
					nSites++; nObl++;
					if (C->isInlineAsm()) { report("external-call", "contains inline assembly", &I, "asm"); continue; }
					bool unk = false;
					for (auto *T : targets(C, &unk)) {
						int d, s;
						if (memPrim(T->getName(), d, s)) { if (d >= 0) writes(I, C->getArgOperand(d), "writes to"); continue; }
						if (benign(T->getName())) continue;
						if (T->isDeclaration()) { report("external-call", "calls '" + T->getName().str() + "', which is not part of the library", &I, T->getName().str()); continue; }
						cg[&F].insert({ T, &I });
					}
					if (unk && reach.count(&F)) report("external-call", "calls a function the library does not determine", &I, "indirect");
				}
			}
		}
		/* recursion: a cycle in the call graph */
		std::map<const Function *, int> col;
		std::vector<const Function *> path;
		std::function<void(const Function *)> dfs = [&](const Function *F) {
			col[F] = 1;
			path.push_back(F);
			for (auto &e : cg[F]) {
				nObl++;
				if (col[e.first] == 1) {
					std::string c;
					bool on = false;
					for (auto *p : path) { if (p == e.first) on = true; if (on) c += p->getName().str() + " -> "; }
					report("recursion", "recursive call: " + c + e.first->getName().str(), e.second, e.first->getName().str());
				} else if (!col[e.first]) dfs(e.first);
			}
			path.pop_back();
			col[F] = 2;
		};
		for (auto &F : *M) if (!F.isDeclaration() && !col[&F]) dfs(&F);
	}
};
