// symx: symbolic executor for LLVM bitcode (KLEE style), written for the textwolf checks.
#include "solver.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <deque>
#include <atomic>
#include <sstream>
#include <iostream>
using namespace llvm;

static ExprPool P;
static Solver S(P);
static const u64 OFFB = 0x10000;

struct Val { Expr* e; u64 c; };
static inline Val V(u64 c) { return Val{0, c}; }
static inline Val VE(Expr* e) { if (e->op == CONST) return Val{0, e->c}; return Val{e, 0}; }
static inline Expr* X(const Val& v, unsigned w) { return v.e ? v.e : P.cst(v.c, w); }

// ---------------------------------------------------------------- memory
enum Kind : u8 { KGlobal, KStack, KHeap, KFunc, KExtern };
struct Obj {
	u32 rc = 1; u32 size = 0; Kind kind = KGlobal; bool freed = false, ro = false; u8 alloc = 0; // alloc: 0 malloc 1 new 2 new[]
	u8* data = 0; Expr** sym = 0; const char* name = "";
	~Obj() { free(data); free(sym); }
	Obj* dup() const { Obj* o = new Obj; o->size = size; o->kind = kind; o->freed = freed; o->ro = ro; o->alloc = alloc; o->name = name;
		o->data = (u8*)malloc(size ? size : 1); if (size) memcpy(o->data, data, size);
		if (sym) { bool any = false; for (u32 i = 0; i < size; i++) if (sym[i]) { any = true; break; } if (any) { o->sym = (Expr**)malloc(size * sizeof(Expr*)); memcpy(o->sym, sym, size * sizeof(Expr*)); } }
		return o; }
};
struct Chunk { u32 rc = 1; Obj* o[64]; Chunk() { memset(o, 0, sizeof o); } ~Chunk() { for (int i = 0; i < 64; i++) if (o[i] && !--o[i]->rc) delete o[i]; } };
struct Mem {
	std::vector<Chunk*> ch; u32 n = 1;
	Mem() {} 
	Mem(const Mem& m) : ch(m.ch), n(m.n) { for (Chunk* c : ch) c->rc++; }
	Mem& operator=(const Mem&) = delete;
	~Mem() { for (Chunk* c : ch) if (!--c->rc) delete c; }
	Obj* get(u32 id) const { if (id >= n) return 0; return ch[id >> 6]->o[id & 63]; }
	Chunk* wchunk(u32 ci) { Chunk* c = ch[ci]; if (c->rc > 1) { Chunk* d = new Chunk; for (int i = 0; i < 64; i++) { d->o[i] = c->o[i]; if (d->o[i]) d->o[i]->rc++; } c->rc--; ch[ci] = d; c = d; } return c; }
	Obj* getw(u32 id) { Chunk* c = wchunk(id >> 6); Obj*& o = c->o[id & 63]; if (o->rc > 1) { Obj* d = o->dup(); o->rc--; o = d; } return o; }
	u32 add(Obj* o) { u32 id = n++; while (ch.size() <= (id >> 6)) ch.push_back(new Chunk); Chunk* c = wchunk(id >> 6); c->o[id & 63] = o; return id; }
	void drop(u32 id) { Chunk* c = wchunk(id >> 6); Obj*& o = c->o[id & 63]; Obj* t = new Obj; t->size = o->size; t->kind = o->kind; t->freed = true; t->name = o->name; t->alloc = o->alloc; if (!--o->rc) delete o; o = t; t->size = o->size; }
};
static inline u64 mkaddr(u32 id, i64 off = 0) { return ((u64)id << 32) + OFFB + off; }

// ---------------------------------------------------------------- decoded code
struct Operand { int slot; const Val* cv; u8 n; };   // slot>=0: register(s), else constants cv[0..n)
struct Leaf { unsigned bits; unsigned off; };
struct Move { int dst; Operand src; };
struct Edge { u32 target; std::vector<Move> moves; };
enum DOp : u8 { D_BIN, D_ICMP, D_SELECT, D_ZEXT, D_SEXT, D_TRUNC, D_COPY, D_LOAD, D_STORE, D_GEP, D_ALLOCA, D_CALL, D_RET, D_BR, D_CONDBR, D_SWITCH, D_LPAD, D_RESUME, D_UNREACH, D_UNSUP, D_NOP, D_ATOMICRMW, D_CMPXCHG };
struct FuncInfo;
struct Exec; struct State; struct DInst;
typedef int (*Handler)(Exec&, State&, const DInst&, const Val*, int, Val*);
struct GepTerm { Operand idx; i64 scale; unsigned w; };
struct LpClause { bool filter; std::vector<u64> tis; };
struct DInst {
	DOp op; u8 sub = 0; unsigned w = 0, w2 = 0; int dst = -1; u8 ndst = 0; bool executed = false; bool invoke = false;
	std::vector<Operand> ops; std::vector<Leaf> leaves; std::vector<GepTerm> gep; i64 coff = 0;
	std::vector<Edge> edges; std::vector<u64> cases; FuncInfo* callee = 0; Handler h = 0; Intrinsic::ID iid = 0;
	std::vector<std::pair<int, u32> > byval; std::vector<LpClause> clauses; bool cleanup = false;
	const Instruction* I = 0; const char* why = "";
};
struct FuncInfo { Function* F = 0; std::string name; std::vector<DInst> code; int nslots = 0; std::vector<int> argslot; std::vector<u8> argn; bool decoded = false, executed = false; Handler h = 0; u64 addr = 0; };

struct Frame { FuncInfo* f; u32 ip; u64 uid; std::vector<Val> regs; std::vector<u32> allocas; u64 lpPtr = 0; u64 lpSel = 0; std::vector<u64> varargs; };
struct ExcRec { u64 ti; u64 dtor; int hc; };
struct JmpRec { u64 uid; u32 ip; };
struct State {
	Mem mem; std::vector<Frame> st; PC pc; std::vector<u32> choices; std::vector<char> order; // order: 'b','c'
	int pend = -1; u64 steps = 0; u64 uidc = 1; std::map<u64, ExcRec> exc; std::vector<u64> caught; std::vector<JmpRec> jmps;
	u32 nsym = 0; i64 heapLive = 0; u32 err_no = 0; std::vector<std::string> notes; unsigned depth = 0;
};
struct PathEnd { const char* why; };

struct Violation { std::string kind, label, where, stack; std::vector<u8> bytes; std::vector<u32> choices; std::string order; };

struct Shared { std::atomic<int> active; std::atomic<int> nextId; std::atomic<int> stop; std::atomic<u64> paths; std::atomic<int> viol; };

struct Exec {
	Module* M; const DataLayout* DL;
	std::unordered_map<const Function*, FuncInfo*> finfo; std::unordered_map<u64, FuncInfo*> faddr;
	std::unordered_map<const GlobalValue*, u64> gaddr; std::unordered_map<std::string, u64> extTI; std::unordered_map<u64, std::string> extName;
	std::unordered_map<std::string, Handler> handlers;
	std::unordered_map<u64, int> typeIds; std::vector<std::unique_ptr<Val[]> > constPool;
	std::deque<State*> work; Shared* sh = 0; int wid = 0; int maxWorkers = 8; double deadline = 0; u64 maxSteps = 3000000; bool dfs = true;
	// statistics
	u64 nPaths = 0, nInst = 0, nForks = 0, nAsserts = 0, nAssertConst = 0, nAssertSmt = 0, nErrPaths = 0, nAssumeEnd = 0; std::map<std::string, u64> covers; std::map<std::string, u64> asserts; std::map<std::string, u64> vcount; std::vector<Violation> viols; std::map<std::string, u64> incomplete; std::vector<std::string> samples; u64 leftover = 0; u64 maxPathSteps = 0; unsigned maxViol = 3; int stopViol = 400;
	State* cur = 0; std::atomic<int>* tokens = 0; double born = nowS();

	u64 leafBits(Type* t) { if (t->isPointerTy()) return 64; return t->getPrimitiveSizeInBits(); }
	void flatten(Type* t, unsigned off, std::vector<Leaf>& out) {
		if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + sl->getElementOffset(i), out); }
		else if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * es, out); }
		else if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 es = DL->getTypeAllocSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) flatten(vt->getElementType(), off + i * es, out); }
		else if (t->isVoidTy()) {}
		else out.push_back(Leaf{(unsigned)leafBits(t), off});
	}
	unsigned nleaves(Type* t) { std::vector<Leaf> l; flatten(t, 0, l); return l.size(); }

	// ---------------- constants
	void evalConst(const Constant* c, std::vector<Val>& out) {
		Type* t = c->getType();
		if (auto* ci = dyn_cast<ConstantInt>(c)) { out.push_back(V(ci->getBitWidth() <= 64 ? ci->getZExtValue() : ci->getValue().getRawData()[0])); return; }
		if (isa<ConstantPointerNull>(c)) { out.push_back(V(0)); return; }
		if (auto* cf = dyn_cast<ConstantFP>(c)) { out.push_back(V(cf->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
		if (isa<UndefValue>(c)) { std::vector<Leaf> l; flatten(t, 0, l); for (auto& x : l) out.push_back(Val{P.undef(x.bits > 64 ? 64 : x.bits), 0}); return; }
		if (isa<ConstantAggregateZero>(c)) { unsigned n = nleaves(t); for (unsigned i = 0; i < n; i++) out.push_back(V(0)); return; }
		if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) evalConst(ca->getOperand(i), out); return; }
		if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) evalConst(cd->getElementAsConstant(i), out); return; }
		if (auto* gv = dyn_cast<GlobalValue>(c)) { out.push_back(V(addrOf(gv))); return; }
		if (auto* ce = dyn_cast<ConstantExpr>(c)) {
			switch (ce->getOpcode()) {
				case Instruction::GetElementPtr: { auto* go = cast<GEPOperator>(ce); std::vector<Val> b; evalConst(cast<Constant>(ce->getOperand(0)), b); APInt off(64, 0); if (!go->accumulateConstantOffset(*DL, off)) break; out.push_back(V(b[0].c + off.getSExtValue())); return; }
				case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { std::vector<Val> b; evalConst(cast<Constant>(ce->getOperand(0)), b); if (!t->isPointerTy()) b[0].c &= maskw(leafBits(t)); out.push_back(b[0]); return; }
				case Instruction::Trunc: { std::vector<Val> b; evalConst(cast<Constant>(ce->getOperand(0)), b); b[0].c &= maskw(leafBits(t)); out.push_back(b[0]); return; }
				case Instruction::Add: case Instruction::Sub: case Instruction::Xor: { std::vector<Val> a, b; evalConst(cast<Constant>(ce->getOperand(0)), a); evalConst(cast<Constant>(ce->getOperand(1)), b); u64 r = ce->getOpcode() == Instruction::Add ? a[0].c + b[0].c : ce->getOpcode() == Instruction::Sub ? a[0].c - b[0].c : a[0].c ^ b[0].c; out.push_back(V(r & maskw(leafBits(t)))); return; }
				case Instruction::ICmp: { std::vector<Val> a, b; evalConst(cast<Constant>(ce->getOperand(0)), a); evalConst(cast<Constant>(ce->getOperand(1)), b); auto pr = ce->getPredicate(); u64 r = pr == CmpInst::ICMP_EQ ? a[0].c == b[0].c : pr == CmpInst::ICMP_NE ? a[0].c != b[0].c : 0; out.push_back(V(r)); return; }
				default: break;
			}
		}
		std::string s; raw_string_ostream os(s); c->print(os); errs() << "unsupported constant " << os.str() << "\n"; unsigned n = nleaves(t); for (unsigned i = 0; i < n; i++) out.push_back(Val{P.undef(64), 0});
	}
	State* init = 0;
	u64 addrOf(const GlobalValue* gv) {
		if (auto* ga = dyn_cast<GlobalAlias>(gv)) { std::vector<Val> o; evalConst(ga->getAliasee(), o); return o[0].c; }
		auto it = gaddr.find(gv); if (it != gaddr.end()) return it->second;
		errs() << "no address for " << gv->getName() << "\n"; abort();
	}
	void setupGlobals(State& s) {
		init = &s;
		for (Function& F : *M) { Obj* o = new Obj; o->kind = KFunc; o->size = 1; o->data = (u8*)calloc(1, 1); o->ro = true; o->name = strdup(F.getName().str().c_str()); u64 a = mkaddr(s.mem.add(o)); gaddr[&F] = a;
			FuncInfo* fi = new FuncInfo; fi->F = &F; fi->name = F.getName().str(); fi->addr = a; finfo[&F] = fi; faddr[a] = fi; auto h = handlers.find(fi->name); if (h != handlers.end()) fi->h = h->second; }
		for (GlobalVariable& G : M->globals()) {
			u64 sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 64; Obj* o = new Obj; bool ext = !G.hasInitializer();
			if (ext && sz < 512) sz = 512;
			o->size = sz; o->kind = ext ? KExtern : KGlobal; o->ro = G.isConstant() && !ext; o->data = (u8*)calloc(sz ? sz : 1, 1); o->name = strdup(G.getName().str().c_str());
			u64 a = mkaddr(s.mem.add(o)); gaddr[&G] = a; if (ext) { extName[a] = G.getName().str(); extTI[G.getName().str()] = a; } }
		for (GlobalVariable& G : M->globals()) if (G.hasInitializer()) {
			std::vector<Leaf> l; flatten(G.getValueType(), 0, l); std::vector<Val> v; evalConst(G.getInitializer(), v); Obj* o = s.mem.getw(gaddr[&G] >> 32);
			for (size_t i = 0; i < l.size() && i < v.size(); i++) { u64 x = v[i].e ? 0 : v[i].c; unsigned nb = (l[i].bits + 7) / 8; for (unsigned k = 0; k < nb && k < 8; k++) o->data[l[i].off + k] = x >> (8 * k); } }
	}
	// ---------------- decoding
	struct Dec { std::unordered_map<const Value*, int> slot; };
	Operand operand(Dec& d, const Value* v) {
		Operand o; o.cv = 0; o.slot = -1;
		if (auto* c = dyn_cast<Constant>(v)) { std::vector<Val> out; evalConst(c, out); Val* p = new Val[out.size() ? out.size() : 1]; for (size_t i = 0; i < out.size(); i++) p[i] = out[i]; constPool.emplace_back(p); o.cv = p; o.n = out.size(); return o; }
		auto it = d.slot.find(v); if (it == d.slot.end()) { Val* p = new Val[1]; p[0] = V(0); constPool.emplace_back(p); o.cv = p; o.n = 1; return o; } // metadata etc.
		o.slot = it->second; o.n = nleaves(v->getType()); return o;
	}
	void decode(FuncInfo* fi) {
		fi->decoded = true; Function& F = *fi->F; Dec d; int ns = 0;
		for (Argument& a : F.args()) { d.slot[&a] = ns; fi->argslot.push_back(ns); unsigned n = nleaves(a.getType()); fi->argn.push_back(n); ns += n; }
		std::unordered_map<const BasicBlock*, u32> bbs; u32 pos = 0;
		for (BasicBlock& B : F) { bbs[&B] = pos; for (Instruction& I : B) { unsigned n = nleaves(I.getType()); if (n) { d.slot[&I] = ns; ns += n; } if (!isa<PHINode>(I) && !skip(I)) pos++; } }
		fi->nslots = ns; fi->code.reserve(pos);
		for (BasicBlock& B : F) for (Instruction& I : B) {
			if (isa<PHINode>(I) || skip(I)) continue;
			fi->code.emplace_back(); DInst& x = fi->code.back(); x.I = &I; x.ndst = nleaves(I.getType()); x.dst = x.ndst ? d.slot[&I] : -1; if (x.ndst == 1 && !I.getType()->isAggregateType()) x.w = leafBits(I.getType()); x.op = D_UNSUP; x.why = I.getOpcodeName();
			auto edge = [&](BasicBlock* to) { Edge e; e.target = bbs[to]; for (PHINode& ph : to->phis()) { Operand src = operand(d, ph.getIncomingValueForBlock(&B)); int ds = d.slot[&ph]; if (src.n) e.moves.push_back(Move{ds, src}); } x.edges.push_back(e); };
			bool vec = I.getType()->isVectorTy(); for (auto& op : I.operands()) if (op->getType()->isVectorTy()) vec = true;
			bool fp = I.getType()->isFloatingPointTy();
			if (auto* b = dyn_cast<BinaryOperator>(&I)) { if (vec || fp || x.w > 64) continue; x.op = D_BIN; x.ops = {operand(d, b->getOperand(0)), operand(d, b->getOperand(1))};
				switch (b->getOpcode()) { case Instruction::Add: x.sub = ADD; break; case Instruction::Sub: x.sub = SUB; break; case Instruction::Mul: x.sub = MUL; break; case Instruction::UDiv: x.sub = UDIV; break; case Instruction::SDiv: x.sub = SDIV; break; case Instruction::URem: x.sub = UREM; break; case Instruction::SRem: x.sub = SREM; break; case Instruction::And: x.sub = AND; break; case Instruction::Or: x.sub = OR; break; case Instruction::Xor: x.sub = XOR; break; case Instruction::Shl: x.sub = SHL; break; case Instruction::LShr: x.sub = LSHR; break; case Instruction::AShr: x.sub = ASHR; break; default: x.op = D_UNSUP; } continue; }
			if (auto* c = dyn_cast<ICmpInst>(&I)) { if (vec) continue; x.op = D_ICMP; x.sub = c->getPredicate(); x.w2 = leafBits(c->getOperand(0)->getType()); if (x.w2 > 64) { x.op = D_UNSUP; continue; } x.ops = {operand(d, c->getOperand(0)), operand(d, c->getOperand(1))}; continue; }
			if (auto* s = dyn_cast<SelectInst>(&I)) { if (s->getCondition()->getType()->isVectorTy()) continue; x.op = D_SELECT; x.ops = {operand(d, s->getCondition()), operand(d, s->getTrueValue()), operand(d, s->getFalseValue())}; flatten(I.getType(), 0, x.leaves); continue; }
			if (isa<ZExtInst>(I) || isa<SExtInst>(I) || isa<TruncInst>(I)) { if (vec || x.w > 64) continue; x.op = isa<ZExtInst>(I) ? D_ZEXT : isa<SExtInst>(I) ? D_SEXT : D_TRUNC; x.w2 = leafBits(I.getOperand(0)->getType()); if (x.w2 > 64) { x.op = D_UNSUP; continue; } x.ops = {operand(d, I.getOperand(0))}; continue; }
			if (isa<PtrToIntInst>(I) || isa<IntToPtrInst>(I) || isa<BitCastInst>(I) || isa<AddrSpaceCastInst>(I)) { unsigned wf = leafBits(I.getOperand(0)->getType()), wt = leafBits(I.getType()); x.ops = {operand(d, I.getOperand(0))}; x.w2 = wf; if (vec) continue; if (wf == wt) x.op = D_COPY; else if (wf > wt) x.op = D_TRUNC; else x.op = D_ZEXT; continue; }
			if (isa<FreezeInst>(I)) { x.op = D_COPY; x.ops = {operand(d, I.getOperand(0))}; continue; }
			if (auto* l = dyn_cast<LoadInst>(&I)) { x.op = D_LOAD; x.ops = {operand(d, l->getPointerOperand())}; flatten(I.getType(), 0, x.leaves); for (auto& lf : x.leaves) if (lf.bits > 64) x.op = D_UNSUP; continue; }
			if (auto* st = dyn_cast<StoreInst>(&I)) { x.op = D_STORE; x.ops = {operand(d, st->getValueOperand()), operand(d, st->getPointerOperand())}; flatten(st->getValueOperand()->getType(), 0, x.leaves); for (auto& lf : x.leaves) if (lf.bits > 64) x.op = D_UNSUP; continue; }
			if (auto* g = dyn_cast<GetElementPtrInst>(&I)) { if (vec) continue; x.op = D_GEP; x.ops = {operand(d, g->getPointerOperand())};
				for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) { Value* ix = gi.getOperand(); if (StructType* sty = gi.getStructTypeOrNull()) { x.coff += DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { i64 sc = gi.getSequentialElementStride(*DL).getFixedValue(); if (auto* ci = dyn_cast<ConstantInt>(ix)) x.coff += ci->getSExtValue() * sc; else x.gep.push_back(GepTerm{operand(d, ix), sc, (unsigned)leafBits(ix->getType())}); } } continue; }
			if (auto* al = dyn_cast<AllocaInst>(&I)) { x.op = D_ALLOCA; x.coff = DL->getTypeAllocSize(al->getAllocatedType()); x.ops = {operand(d, al->getArraySize())}; continue; }
			if (auto* br = dyn_cast<BranchInst>(&I)) { if (br->isUnconditional()) { x.op = D_BR; edge(br->getSuccessor(0)); } else { x.op = D_CONDBR; x.ops = {operand(d, br->getCondition())}; edge(br->getSuccessor(0)); edge(br->getSuccessor(1)); } continue; }
			if (auto* sw = dyn_cast<SwitchInst>(&I)) { x.op = D_SWITCH; x.ops = {operand(d, sw->getCondition())}; x.w2 = leafBits(sw->getCondition()->getType()); edge(sw->getDefaultDest()); for (auto& cs : sw->cases()) { x.cases.push_back(cs.getCaseValue()->getZExtValue()); edge(cs.getCaseSuccessor()); } continue; }
			if (auto* r = dyn_cast<ReturnInst>(&I)) { x.op = D_RET; if (r->getReturnValue()) x.ops = {operand(d, r->getReturnValue())}; continue; }
			if (isa<UnreachableInst>(I)) { x.op = D_UNREACH; continue; }
			if (auto* lp = dyn_cast<LandingPadInst>(&I)) { x.op = D_LPAD; x.cleanup = lp->isCleanup(); for (unsigned i = 0; i < lp->getNumClauses(); i++) { LpClause c; c.filter = lp->isFilter(i); std::vector<Val> v; Constant* cc = lp->getClause(i); if (c.filter) { if (!isa<ConstantAggregateZero>(cc) || nleaves(cc->getType())) evalConst(cc, v); } else evalConst(cc, v); for (auto& q : v) c.tis.push_back(q.c); x.clauses.push_back(c); } continue; }
			if (isa<ResumeInst>(I)) { x.op = D_RESUME; x.ops = {operand(d, I.getOperand(0))}; continue; }
			if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { unsigned off = aggOff(ev->getAggregateOperand()->getType(), ev->getIndices()); Operand o = operand(d, ev->getAggregateOperand()); if (o.slot >= 0) o.slot += off; else o.cv += off; o.n = x.ndst; x.op = D_COPY; x.ops = {o}; continue; }
			if (auto* iv = dyn_cast<InsertValueInst>(&I)) { // copy aggregate, then overwrite
				x.op = D_COPY; x.sub = 1; x.ops = {operand(d, iv->getAggregateOperand()), operand(d, iv->getInsertedValueOperand())}; x.coff = aggOff(iv->getType(), iv->getIndices()); continue; }
			if (auto* ee = dyn_cast<ExtractElementInst>(&I)) { if (auto* ci = dyn_cast<ConstantInt>(ee->getIndexOperand())) { Operand o = operand(d, ee->getVectorOperand()); unsigned off = ci->getZExtValue(); if (o.slot >= 0) o.slot += off; else o.cv += off; o.n = 1; x.op = D_COPY; x.ops = {o}; } continue; }
			if (auto* ie = dyn_cast<InsertElementInst>(&I)) { if (auto* ci = dyn_cast<ConstantInt>(ie->getOperand(2))) { x.op = D_COPY; x.sub = 1; x.ops = {operand(d, ie->getOperand(0)), operand(d, ie->getOperand(1))}; x.coff = ci->getZExtValue(); } continue; }
			if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) { x.op = D_ATOMICRMW; x.ops = {operand(d, rm->getPointerOperand()), operand(d, rm->getValOperand())}; switch (rm->getOperation()) { case AtomicRMWInst::Add: x.sub = ADD; break; case AtomicRMWInst::Sub: x.sub = SUB; break; case AtomicRMWInst::And: x.sub = AND; break; case AtomicRMWInst::Or: x.sub = OR; break; case AtomicRMWInst::Xchg: x.sub = 255; break; default: x.op = D_UNSUP; } continue; }
			if (isa<FenceInst>(I)) { x.op = D_NOP; continue; }
			if (auto* cb = dyn_cast<CallBase>(&I)) {
				if (isa<InlineAsm>(cb->getCalledOperand())) { x.op = D_NOP; continue; }
				x.op = D_CALL; x.invoke = isa<InvokeInst>(cb);
				for (unsigned i = 0; i < cb->arg_size(); i++) { x.ops.push_back(operand(d, cb->getArgOperand(i))); if (cb->isByValArgument(i)) x.byval.push_back({(int)i, (u32)DL->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue()}); }
				if (auto* iv = dyn_cast<InvokeInst>(cb)) { edge(iv->getNormalDest()); edge(iv->getUnwindDest()); }
				Value* cv = cb->getCalledOperand()->stripPointerCastsAndAliases();
				if (auto* f = dyn_cast<Function>(cv)) { x.callee = finfo[f]; x.iid = f->getIntrinsicID(); if (x.iid && x.ndst && !I.getType()->isAggregateType()) x.w = leafBits(I.getType()); if (cb->arg_size()) x.w2 = leafBits(cb->getArgOperand(0)->getType()); }
				else x.ops.push_back(operand(d, cb->getCalledOperand()));
				continue;
			}
		}
	}
	static bool skip(const Instruction& I) { if (isa<DbgInfoIntrinsic>(I)) return true; if (auto* ii = dyn_cast<IntrinsicInst>(&I)) { auto id = ii->getIntrinsicID(); return id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::donothing || id == Intrinsic::prefetch; } return false; }
	unsigned aggOff(Type* t, ArrayRef<unsigned> idx) { unsigned off = 0; for (unsigned i : idx) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) off += nleaves(st->getElementType(k)); t = st->getElementType(i); } else { auto* at = cast<ArrayType>(t); off += i * nleaves(at->getElementType()); t = at->getElementType(); } } return off; }

	// ---------------- constraints
	Dom truth(Expr* e) { u64* t = P.table(e); Dom d = Dom::none(); for (int i = 0; i < 256; i++) if (t[i] & 1) d.set(i); return d; }
	// value of a unary expression if it is the same for all values of the domain
	bool constUnder(State& s, Expr* e, u64& out) {
		const Dom& d = s.pc.dom[e->byte()]; u64* t = P.table(e); bool first = true; u64 v = 0;
		for (int k = 0; k < 4; k++) { u64 w = d.w[k]; while (w) { int i = k * 64 + __builtin_ctzll(w); w &= w - 1; if (first) { v = t[i]; first = false; } else if (t[i] != v) return false; } }
		out = v; return true;
	}
	Expr* simp(State& s, Expr* e, int depth = 0) {
		if (e->op == CONST || e->op == UNDEFX || !e->mask) return e;
		if (e->unary() && !e->undef) { u64 v; if (constUnder(s, e, v)) return P.cst(v, e->width); return e; }
		if (depth > 200) return e;
		Expr* a = e->a ? simp(s, e->a, depth + 1) : 0;
		if (e->op == ITE && a->op == CONST) return simp(s, a->c ? e->b : e->d, depth + 1);
		if (e->width == 1 && e->op == AND && a->op == CONST && !a->c) return a;
		if (e->width == 1 && e->op == OR && a->op == CONST && a->c) return a;
		Expr* b = e->b ? simp(s, e->b, depth + 1) : 0; Expr* d = e->d ? simp(s, e->d, depth + 1) : 0;
		if (a == e->a && b == e->b && d == e->d) return e;
		return P.mk(e->op, e->width, a, b, d, e->c);
	}
	Val simpV(State& s, Val v, unsigned) { if (!v.e || !v.e->mask) return v; if (v.e->unary() && !v.e->undef) { u64 c; if (constUnder(s, v.e, c)) return V(c); return v; } return VE(simp(s, v.e)); }
	void push(State* n) { work.push_back(n); nForks++; }
	State* clone(State& s) { State* n = new State(s); return n; }
	void addCons(State& s, Expr* e) { // e true from now on
		if (e->op == CONST) return;
		if (e->unary()) { s.pc.dom[e->byte()] = s.pc.dom[e->byte()] & truth(e); return; }
		if (e->width == 1 && e->op == AND) { addCons(s, e->a); addCons(s, e->b); return; }
		if (e->op == XOR && e->b->op == CONST && e->a->op == OR && e->a->width == 1) { addCons(s, P.notx(e->a->a)); addCons(s, P.notx(e->a->b)); return; }
		for (Expr* q : s.pc.cons) if (q == e) return;
		s.pc.cons.push_back(e); s.pc.ent |= e->mask;
	}
	Expr* findSplit(Expr* e) { // an i1 sub expression on one byte (values that depend on one byte only are left to the tables)
		if (e->unary() && !e->undef) return 0;
		if (e->width != 1) { if (e->op == ITE) { if (e->a->unary()) return e->a; Expr* q = findSplit(e->a); if (q) return q; } 
			for (Expr* k : {e->a, e->b, e->d}) if (k && k->width > 1) { Expr* q = findSplit(k); if (q) return q; }
			return 0; }
		for (Expr* k : {e->a, e->b, e->d}) if (k && k->width == 1 && k->unary() && !k->undef) return k;
		for (Expr* k : {e->a, e->b, e->d}) if (k && k->mask) { Expr* q = findSplit(k); if (q) return q; }
		return 0;
	}
	Expr* findDef(Expr* e) { // a fully defined i1 sub expression of a partially undefined one
		for (Expr* k : {e->a, e->b, e->d}) if (k && k->width == 1 && k->mask && !k->undef) return k;
		for (Expr* k : {e->a, e->b, e->d}) if (k && k->mask) { Expr* q = findDef(k); if (q) return q; }
		return 0;
	}
	Sat S_check(State& s, Expr* e) { return S.check(s.pc, e, false); }
	// Decides the condition on this path; forks the path if both outcomes are possible (this path takes 'true').
	bool decide(State& s, Expr* e) {
		for (int it=0;; it++) {
			e = simp(s, e);
			if (e->op == CONST) return e->c != 0;
			Expr* c = e;
			if (it > 60 && !e->undef) return decideAtom(s, e);
			if (it > 200) { incomplete["undefined value cannot be split"]++; throw PathEnd{"unknown"}; }
			if (e->undef) { c = findSplit(e); if (!c) c = findDef(e); if (!c) error(s, "uninit", "decision depends on uninitialised memory"); }
			else if (!c->unary()) { Expr* q = findSplit(c); if (q) c = q; }
			bool r = decideAtom(s, c);
			if (c == e) return r;
		}
	}
	bool decideAtom(State& s, Expr* c) {
		if (c->unary() && !((s.pc.ent >> c->byte()) & 1)) {
			S.nDomDecisions++; int b = c->byte(); Dom t = truth(c); Dom T = s.pc.dom[b] & t, F = s.pc.dom[b].andnot(t);
			if (S.crossEvery && S.nDomDecisions % S.crossEvery == 0) { S.nCross++; bool zt = S.check(s.pc, c, false) == SATISFIABLE, zf = S.check(s.pc, P.notx(c), false) == SATISFIABLE; if (zt != !T.empty() || zf != !F.empty()) { errs() << "INTERNAL: domain decision disagrees with z3\n"; exit(70); } }
			if (F.empty()) return true;
			if (T.empty()) return false;
			State* n = clone(s); n->pc.dom[b] = F; push(n); s.pc.dom[b] = T; return true;
		}
		Expr* nc = P.notx(c); Sat a = S.check(s.pc, c, false), b = a == UNSAT ? SATISFIABLE : S.check(s.pc, nc, false);
		if (a == UNKNOWN || b == UNKNOWN) { incomplete["solver gave no answer"]++; throw PathEnd{"unknown"}; }
		if (b == UNSAT) { addCons(s, c); return true; }
		if (a == UNSAT) { addCons(s, nc); return false; }
		if (deadline && nowS() > deadline) { leftover++; throw PathEnd{"timeout"}; }
		State* n = clone(s); addCons(*n, nc); push(n); addCons(s, c); return true;
	}
	// concrete value of v on this path (forks over all possible values)
	u64 concretize(State& s, Val v, unsigned w, unsigned limit = 100000) {
		v = simpV(s, v, w); if (!v.e) return v.c;
		if (v.e->undef) error(s, "uninit", "value used as address, size or selector depends on uninitialised memory");
		for (unsigned k = 0; k < limit; k++) {
			Expr* e = simp(s, v.e); if (e->op == CONST) return e->c;
			u64 cand;
			if (e->unary()) cand = P.table(e)[s.pc.dom[e->byte()].first()];
			else { if (getenv("SYMX_SHOW")) std::cerr << "CONC " << P.show(e) << "\n"; u8 m[64] = {0}; Sat r = S.check(s.pc, P.cst(1, 1), false, m, true); if (r != SATISFIABLE) throw PathEnd{"infeasible"}; cand = P.eval(e, m); }
			if (decide(s, P.mk(EQ, 1, e, P.cst(cand, w)))) { Expr* f = simp(s, v.e); return f->op == CONST ? f->c : cand; }
		}
		incomplete["too many values"]++; throw PathEnd{"too many values"};
	}
	// ---------------- errors
	std::string loc(const Instruction* I) { if (!I) return "?"; DebugLoc dl = I->getDebugLoc(); if (!dl) return "?"; DIScope* sc = cast<DIScope>(dl.getScope()); return (sc->getFilename() + ":" + std::to_string(dl.getLine())).str(); }
	std::string stackStr(State& s) { std::string r; int k = 0; for (int i = (int)s.st.size() - 1; i >= 0 && k < 8; i--, k++) { Frame& f = s.st[i]; r += demangle(f.f->name).substr(0, 120) + " @ " + (f.ip < f.f->code.size() ? loc(f.f->code[f.ip].I) : "?") + " | "; } return r; }
	bool record(State& s, const std::string& kind, const std::string& label, Expr* cond) {
		std::string where = s.st.empty() ? "?" : loc(s.st.back().f->code[s.st.back().ip].I);
		std::string key = kind + "|" + label + (kind == "assert" ? "" : "|" + where);
		u64 n = ++vcount[key]; if (n > maxViol) return true;
		u8 m[64] = {0}; Sat r = S.check(s.pc, cond ? cond : P.cst(1, 1), false, m, true); if (r != SATISFIABLE) { --vcount[key]; if (r == UNKNOWN) incomplete["solver gave no answer"]++; return false; }
		Violation v; v.kind = kind; v.label = label; v.where = where; v.stack = stackStr(s); v.bytes.assign(m, m + s.nsym); v.choices = s.choices; v.order.assign(s.order.begin(), s.order.end()); viols.push_back(v); if (sh && ++sh->viol > stopViol) sh->stop = 1;
		return true;
	}
	[[noreturn]] void error(State& s, const char* kind, const std::string& msg) { record(s, kind, msg, 0); nErrPaths++; throw PathEnd{kind}; }
	[[noreturn]] void unsupported(State& s, const std::string& msg) { incomplete["unsupported: " + msg + " at " + stackStr(s).substr(0, 300)]++; throw PathEnd{"unsupported"}; }

	// ---------------- memory access
	struct Ref { Obj* o; u32 id; u32 off; };
	Ref resolve(State& s, u64 a, u32 n, bool wr) {
		u32 id = a >> 32; i64 off = (i64)(a & 0xffffffffULL) - (i64)OFFB;
		if (id == 0) error(s, "nullderef", "access through null or wild pointer");
		Obj* o = s.mem.get(id); if (!o) error(s, "wildptr", "access through wild pointer");
		if (o->freed) error(s, o->kind == KHeap ? "use-after-free" : "use-after-return", std::string("access to released memory ") + o->name);
		if (off < 0 || off + (i64)n > (i64)o->size) error(s, "oob", std::string(wr ? "write" : "read") + " outside of object " + o->name + " (size " + std::to_string(o->size) + ", offset " + std::to_string(off) + ", bytes " + std::to_string(n) + ")");
		if (o->kind == KFunc) error(s, "wildptr", "data access to function");
		if (wr && o->ro) error(s, "rowrite", std::string("write to constant ") + o->name);
		return Ref{o, id, (u32)off};
	}
	Val loadC(State& s, u64 a, unsigned bits) {
		unsigned nb = (bits + 7) / 8; Ref r = resolve(s, a, nb, false);
		const u8* p = r.o->data + r.off; bool anysym = false;
		if (r.o->sym) for (unsigned i = 0; i < nb; i++) if (r.o->sym[r.off + i]) { anysym = true; break; }
		u64 c = 0;
		if (!anysym) { for (unsigned i = 0; i < nb; i++) c |= (u64)p[i] << (8 * i); return V(c & maskw(bits)); }
		Expr* e = 0; for (int i = nb - 1; i >= 0; i--) { Expr* b = r.o->sym[r.off + i] ? r.o->sym[r.off + i] : P.cst(p[i], 8); e = e ? P.mk(CONCAT, e->width + 8, e, b) : b; }
		if (e->width > bits) e = P.mk(EXTRACT, bits, e, 0, 0, 0);
		return simpV(s, VE(e), bits);
	}
	void storeC(State& s, u64 a, Val v, unsigned bits) {
		unsigned nb = (bits + 7) / 8; Ref r = resolve(s, a, nb, true); Obj* o = s.mem.getw(r.id);
		if (!v.e) { for (unsigned i = 0; i < nb; i++) { o->data[r.off + i] = v.c >> (8 * i); if (o->sym) o->sym[r.off + i] = 0; } return; }
		if (!o->sym) o->sym = (Expr**)calloc(o->size, sizeof(Expr*));
		Expr* e = v.e; if (e->width < nb * 8) e = P.mk(ZEXT, nb * 8, e);
		for (unsigned i = 0; i < nb; i++) { Expr* b = nb == 1 ? e : P.mk(EXTRACT, 8, e, 0, 0, 8 * i); if (b->op == CONST) { o->data[r.off + i] = b->c; o->sym[r.off + i] = 0; } else { o->sym[r.off + i] = b; } }
	}
	// superset of the values of an expression (false: too many)
	bool valueSet(const PC& pc, Expr* e, std::vector<u64>& out) {
		const size_t MAXV = 1024; out.clear(); if (e->undef) return false;
		auto uniq = [&]() { std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end()); return out.size() <= MAXV; };
		if (e->op == CONST) { out.push_back(e->c); return true; }
		if (e->unary()) { u64* t = P.table(e); const Dom& d = pc.dom[e->byte()]; for (int i = 0; i < 256; i++) if (d.has(i)) out.push_back(t[i]); return uniq(); }
		if (e->width == 1) { out = {0, 1}; return true; }
		std::vector<u64> a, b;
		if (e->op == ITE) { if (!valueSet(pc, e->b, a) || !valueSet(pc, e->d, b)) return false; out = a; out.insert(out.end(), b.begin(), b.end()); return uniq(); }
		if (!e->a || !valueSet(pc, e->a, a)) return false; if (e->b && !valueSet(pc, e->b, b)) return false; if (!e->b) b.push_back(0);
		if (a.size() * b.size() > 65536) return false;
		for (u64 x : a) for (u64 y : b) out.push_back(ExprPool::evalOp(e->op, e->width, e->c, x, y, 0, e->a->width, e->b ? e->b->width : 0));
		return uniq();
	}
	unsigned splitAddr = 0;
	Expr* subst(Expr* e, Expr* c, bool v) { if (e == c) return P.cst(v, 1); if (!e || !e->mask || (c->mask & ~e->mask)) return e; Expr *a = e->a ? subst(e->a, c, v) : 0, *b = e->b ? subst(e->b, c, v) : 0, *d = e->d ? subst(e->d, c, v) : 0; if (a == e->a && b == e->b && d == e->d) return e; return P.mk(e->op, e->width, a, b, d, e->c); }
	Expr* iteCond(Expr* e) { if (!e || e->unary() || !e->mask) return 0; if (e->op == ITE) { Expr* q = iteCond(e->a); return q ? q : e->a; } for (Expr* k : {e->a, e->b, e->d}) { Expr* q = iteCond(k); if (q) return q; } return 0; }
	void smallest(const PC& pc, Expr* e, Expr*& best, unsigned& bn) { // the part of an address on one byte with the fewest values
		if (e->unary()) { u64* t = P.table(e); const Dom& d = pc.dom[e->byte()]; std::vector<u64> v; for (int i = 0; i < 256; i++) if (d.has(i)) v.push_back(t[i]); std::sort(v.begin(), v.end()); unsigned n = std::unique(v.begin(), v.end()) - v.begin(); if (n < bn) { bn = n; best = e; } return; }
		for (Expr* k : {e->a, e->b, e->d}) if (k && k->mask) smallest(pc, k, best, bn);
	}
	Val load(State& s, Val a, unsigned bits) {
		if (a.e) a = simpV(s, a, 64);
		if (!a.e) return loadC(s, a.c, bits);
		Expr* e = a.e; if (e->undef) error(s, "uninit", "address depends on uninitialised memory");
		unsigned nb = (bits + 7) / 8;
		if (!e->unary()) { 
			Expr* q = findSplit(e); if (q) { decideAtom(s, q); return load(s, a, bits); }
			if (splitAddr) { Expr* ic = iteCond(e); if (ic) { bool r = decideAtom(s, ic); return load(s, VE(subst(e, ic, r)), bits); } }
			if (splitAddr) { Expr* best = 0; unsigned bn = splitAddr + 1; smallest(s.pc, e, best, bn); if (best) { concretize(s, VE(best), best->width); return load(s, a, bits); } }
			// candidates from the structure of the address, filtered with the solver; otherwise enumerated with the solver
			std::vector<u64> addrs, cand; bool enumerate = true;
			if (valueSet(s.pc, e, cand)) { enumerate = false; for (u64 v : cand) { Sat r = S.check(s.pc, P.mk(EQ, 1, e, P.cst(v, 64)), false); if (r == UNKNOWN) { enumerate = true; addrs.clear(); break; } if (r == SATISFIABLE) addrs.push_back(v); } if (!enumerate && addrs.empty()) throw PathEnd{"infeasible"}; }
			PC pc; if (enumerate) pc = s.pc;
			while (enumerate) { u8 m[64] = {0}; Sat r = S.check(pc, P.cst(1, 1), false, m, true); if (r == UNKNOWN) { incomplete["solver gave no answer"]++; throw PathEnd{"unknown"}; } if (r != SATISFIABLE) break; u64 v = P.eval(e, m); addrs.push_back(v); if (addrs.size() > 600) unsupported(s, "load from too many addresses"); Expr* ne = P.notx(P.mk(EQ, 1, e, P.cst(v, 64))); if (ne->op == CONST) break; pc.cons.push_back(ne); pc.ent |= ne->mask; }
			if (addrs.empty()) throw PathEnd{"infeasible"};
			for (u64 v : addrs) if (bad(s, v, nb)) { u64 c = concretize(s, a, 64); return loadC(s, c, bits); }
			Val res = loadC(s, addrs[0], bits); for (size_t i = 1; i < addrs.size(); i++) res = VE(P.mk(ITE, bits, P.mk(EQ, 1, e, P.cst(addrs[i], 64)), X(loadC(s, addrs[i], bits), bits), X(res, bits)));
			return res;
		}
		int b = e->byte(); u64* t = P.table(e); Dom d = s.pc.dom[b]; 
		// addresses that are invalid: separate path(s)
		Dom badd = Dom::none(); std::map<u64, bool> chk; for (int i = 0; i < 256; i++) if (d.has(i)) { auto it = chk.find(t[i]); bool q; if (it == chk.end()) { q = bad(s, t[i], nb); chk[t[i]] = q; } else q = it->second; if (q) badd.set(i); }
		if (!badd.empty()) { u64 tv[256]; for (int i = 0; i < 256; i++) tv[i] = badd.has(i); Expr* be = P.lookup(b, 1, tv); if (decide(s, be)) { u64 c = concretize(s, a, 64); return loadC(s, c, bits); } return load(s, a, bits); }
		u64 vals[256]; bool allc = true; std::map<u64, Val> cache; u64 lastv = 0; int nsymv = 0;
		for (auto& kv : chk) { Val v = loadC(s, kv.first, bits); cache[kv.first] = v; if (v.e) { allc = false; nsymv++; } }
		bool fst = true;
		for (int i = 0; i < 256; i++) { if (d.has(i)) { Val v = cache[t[i]]; vals[i] = v.e ? 0 : v.c; if (fst) { lastv = vals[i]; fst = false; for (int k = 0; k < i; k++) vals[k] = vals[i]; } lastv = vals[i]; } else vals[i] = lastv; }
		Val res = VE(P.lookup(b, bits, vals));
		if (!allc) for (auto& kv : cache) if (kv.second.e) { u64 tv[256]; for (int i = 0; i < 256; i++) tv[i] = t[i] == kv.first; res = VE(P.mk(ITE, bits, P.lookup(b, 1, tv), kv.second.e, X(res, bits))); }
		return res;
	}
	bool bad(State& s, u64 a, u32 n) { u32 id = a >> 32; i64 off = (i64)(a & 0xffffffffULL) - (i64)OFFB; if (!id) return true; Obj* o = s.mem.get(id); if (!o || o->freed || o->kind == KFunc) return true; return off < 0 || off + (i64)n > (i64)o->size; }
	void store(State& s, Val a, Val v, unsigned bits) { u64 c = concretize(s, a, 64); storeC(s, c, v, bits); }
	u64 allocObj(State& s, u64 size, Kind k, const char* name, bool undef, u8 alloc = 0) {
		Obj* o = new Obj; o->size = size; o->kind = k; o->name = name; o->alloc = alloc; o->data = (u8*)calloc(size ? size : 1, 1);
		if (undef && size) { o->sym = (Expr**)malloc(size * sizeof(Expr*)); Expr* u = P.undef(8); for (u64 i = 0; i < size; i++) o->sym[i] = u; }
		if (k == KHeap) s.heapLive += size ? size : 1;
		return mkaddr(s.mem.add(o));
	}
	void copyMem(State& s, u64 dst, u64 src, u64 n) {
		if (!n) return; Ref r = resolve(s, src, n, false); std::vector<u8> d(r.o->data + r.off, r.o->data + r.off + n); std::vector<Expr*> sy; if (r.o->sym) sy.assign(r.o->sym + r.off, r.o->sym + r.off + n);
		Ref w = resolve(s, dst, n, true); Obj* o = s.mem.getw(w.id); memcpy(o->data + w.off, d.data(), n);
		if (!sy.empty()) { bool any = false; for (Expr* e : sy) if (e) any = true; if (any && !o->sym) o->sym = (Expr**)calloc(o->size, sizeof(Expr*)); if (o->sym) memcpy(o->sym + w.off, sy.data(), n * sizeof(Expr*)); }
		else if (o->sym) memset(o->sym + w.off, 0, n * sizeof(Expr*));
	}
	Val byteAt(State& s, u64 a) { return loadC(s, a, 8); }

	// ---------------- control
	Val get(Frame& f, const Operand& o, int i = 0) { return o.slot >= 0 ? f.regs[o.slot + i] : o.cv[i]; }
	void set(Frame& f, const DInst& in, Val v) { if (in.dst >= 0) f.regs[in.dst] = v; }
	void jump(Frame& f, const Edge& e) {
		if (!e.moves.empty()) {
			Val tmp[64]; int k = 0; bool big = false; int tot = 0; for (auto& m : e.moves) tot += m.src.n; std::vector<Val> dyn; Val* t = tmp; if (tot > 64) { big = true; dyn.resize(tot); t = dyn.data(); } (void)big;
			for (auto& m : e.moves) for (int i = 0; i < m.src.n; i++) t[k++] = get(f, m.src, i);
			k = 0; for (auto& m : e.moves) for (int i = 0; i < m.src.n; i++) f.regs[m.dst + i] = t[k++];
		}
		f.ip = e.target;
	}
	void popFrame(State& s) { for (u32 a : s.st.back().allocas) s.mem.drop(a); s.st.pop_back(); }
	bool isa_(State& s, u64 thrown, u64 want) {
		if (thrown == want) return true;
		auto en = extName.find(thrown);
		if (en != extName.end()) {
			static const std::map<std::string, std::string> base = {{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}};
			auto it = base.find(en->second); if (it == base.end()) return false; auto bt = extTI.find(it->second); if (bt != extTI.end()) return isa_(s, bt->second, want);
			auto wn = extName.find(want); std::string cur = it->second; for (;;) { if (wn != extName.end() && wn->second == cur) return true; auto q = base.find(cur); if (q == base.end()) return false; cur = q->second; }
		}
		Obj* o = s.mem.get(thrown >> 32); if (!o || o->size < 16) return false;
		u64 vp; memcpy(&vp, o->data, 8); auto vn = extName.find((vp & ~0xffffffffULL) + OFFB); if (vn == extName.end()) return false;
		if (vn->second.find("20__si_class_type_info") != std::string::npos) { u64 b; memcpy(&b, o->data + 16, 8); return isa_(s, b, want); }
		if (vn->second.find("21__vmi_class_type_info") != std::string::npos) { u32 cnt; memcpy(&cnt, o->data + 20, 4); for (u32 i = 0; i < cnt; i++) { u64 b; memcpy(&b, o->data + 24 + 16 * i, 8); if (isa_(s, b, want)) return true; } }
		return false;
	}
	int typeId(u64 ti) { auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; int n = typeIds.size() + 1; typeIds[ti] = n; return n; }
	void unwind(State& s, u64 exc) { // the top frame's current instruction is the raising call
		ExcRec& er = s.exc[exc];
		while (!s.st.empty()) {
			Frame& f = s.st.back(); DInst& in = f.f->code[f.ip];
			if (in.op == D_CALL && in.invoke) {
				const Edge& ue = in.edges[1]; DInst& lp = f.f->code[ue.target]; bool go = false; u64 sel = 0;
				if (lp.op == D_LPAD) {
					for (auto& c : lp.clauses) {
						if (c.filter) { bool ok = false; for (u64 t : c.tis) if (isa_(s, er.ti, t)) ok = true; if (!ok) { go = true; sel = (u64)(u32)-1; break; } }
						else if (c.tis[0] == 0) { go = true; sel = 0x7ffff; break; }
						else if (isa_(s, er.ti, c.tis[0])) { go = true; sel = typeId(c.tis[0]); break; }
					}
					if (!go && lp.cleanup) { go = true; sel = 0; }
				}
				if (go) { f.lpPtr = exc; f.lpSel = sel; jump(f, ue); return; }
			}
			popFrame(s);
		}
		// nothing caught it; report with a synthetic frame-less location
		nErrPaths++; std::string nm; auto en = extName.find(er.ti); if (en != extName.end()) nm = en->second; else { Obj* o = s.mem.get(er.ti >> 32); if (o) nm = o->name; }
		recordNoFrame(s, "uncaught", "uncaught exception " + demangle(nm)); throw PathEnd{"uncaught"};
	}
	void recordNoFrame(State& s, const std::string& kind, const std::string& label) {
		std::string key = kind + "|" + label; u64 n = ++vcount[key]; if (n > maxViol) return; u8 m[64] = {0}; Sat r = S.check(s.pc, P.cst(1, 1), false, m, true); if (r != SATISFIABLE) return;
		Violation v; v.kind = kind; v.label = label; v.where = "?"; v.bytes.assign(m, m + s.nsym); v.choices = s.choices; v.order.assign(s.order.begin(), s.order.end()); viols.push_back(v); if (sh && ++sh->viol > stopViol) sh->stop = 1;
	}
	void callFunc(State& s, FuncInfo* fi, const Val* args, const std::vector<Operand>* ops, Frame* cf) {
		if (!fi->decoded) decode(fi);
		fi->executed = true;
		if (s.st.size() > 3000) error(s, "stackoverflow", "call depth");
		s.st.emplace_back(); Frame& n = s.st.back(); Frame* caller = s.st.size() > 1 ? &s.st[s.st.size() - 2] : 0; (void)cf;
		n.f = fi; n.ip = 0; n.uid = s.uidc++; n.regs.assign(fi->nslots, Val{0, 0});
		for (size_t i = 0; i < fi->argslot.size(); i++) {
			if (ops) { if (i >= ops->size()) break; const Operand& o = (*ops)[i]; for (int k = 0; k < fi->argn[i]; k++) n.regs[fi->argslot[i] + k] = get(*caller, o, k); }
			else n.regs[fi->argslot[i]] = args[i];
		}
	}
	void run(State& s);      // until the path ends
	void step(State& s);
	int intrinsic(State& s, Frame& f, const DInst& in);
	void report(const std::string& file, bool final_);
	void workLoop();
};

#include "handlers.hpp"

void Exec::step(State& s) {
	Frame* fp = &s.st.back();
	for (;;) {
		Frame& f = *fp; DInst& in = f.f->code[f.ip]; in.executed = true; nInst++; 
		if ((s.steps & 8191) == 8191 && sh && ((deadline && nowS() > deadline) || sh->stop.load())) { leftover++; throw PathEnd{"timeout"}; }
		if (++s.steps > maxSteps) error(s, "nontermination", "path exceeds " + std::to_string(maxSteps) + " steps");
		switch (in.op) {
			case D_BIN: {
				Val a = get(f, in.ops[0]), b = get(f, in.ops[1]); Op o = (Op)in.sub;
				if ((o == UDIV || o == SDIV || o == UREM || o == SREM)) { if (b.e) { if (decide(s, P.mk(EQ, 1, X(b, in.w), P.cst(0, in.w)))) error(s, "divzero", "division by zero"); } else if (!b.c) error(s, "divzero", "division by zero"); }
				if (!a.e && !b.e) f.regs[in.dst] = V(ExprPool::evalOp(o, in.w, 0, a.c, b.c, 0, in.w, in.w));
				else f.regs[in.dst] = VE(P.mk(o, in.w, X(a, in.w), X(b, in.w)));
				f.ip++; break; }
			case D_ICMP: {
				Val a = get(f, in.ops[0]), b = get(f, in.ops[1]); unsigned w = in.w2; u64 r = 0;
				if (!a.e && !b.e) {
					switch (in.sub) { case CmpInst::ICMP_EQ: r = a.c == b.c; break; case CmpInst::ICMP_NE: r = a.c != b.c; break; case CmpInst::ICMP_ULT: r = a.c < b.c; break; case CmpInst::ICMP_ULE: r = a.c <= b.c; break; case CmpInst::ICMP_UGT: r = a.c > b.c; break; case CmpInst::ICMP_UGE: r = a.c >= b.c; break; case CmpInst::ICMP_SLT: r = sgn(a.c, w) < sgn(b.c, w); break; case CmpInst::ICMP_SLE: r = sgn(a.c, w) <= sgn(b.c, w); break; case CmpInst::ICMP_SGT: r = sgn(a.c, w) > sgn(b.c, w); break; case CmpInst::ICMP_SGE: r = sgn(a.c, w) >= sgn(b.c, w); break; }
					f.regs[in.dst] = V(r);
				} else {
					Expr *x = X(a, w), *y = X(b, w), *e = 0;
					switch (in.sub) { case CmpInst::ICMP_EQ: e = P.mk(EQ, 1, x, y); break; case CmpInst::ICMP_NE: e = P.notx(P.mk(EQ, 1, x, y)); break; case CmpInst::ICMP_ULT: e = P.mk(ULT, 1, x, y); break; case CmpInst::ICMP_ULE: e = P.mk(ULE, 1, x, y); break; case CmpInst::ICMP_UGT: e = P.mk(ULT, 1, y, x); break; case CmpInst::ICMP_UGE: e = P.mk(ULE, 1, y, x); break; case CmpInst::ICMP_SLT: e = P.mk(SLT, 1, x, y); break; case CmpInst::ICMP_SLE: e = P.mk(SLE, 1, x, y); break; case CmpInst::ICMP_SGT: e = P.mk(SLT, 1, y, x); break; case CmpInst::ICMP_SGE: e = P.mk(SLE, 1, y, x); break; }
					f.regs[in.dst] = VE(e);
				}
				f.ip++; break; }
			case D_SELECT: {
				Val c = get(f, in.ops[0]); if (c.e) c = simpV(s, c, 1);
				if (c.e && c.e->undef) error(s, "uninit", "selection depends on uninitialised memory");
				if (!c.e) { for (int i = 0; i < in.ndst; i++) { Val v = get(f, in.ops[c.c ? 1 : 2], i); f.regs[in.dst + i] = v; } }
				else for (int i = 0; i < in.ndst; i++) { unsigned w = in.leaves[i].bits; Val a = get(f, in.ops[1], i), b = get(f, in.ops[2], i); f.regs[in.dst + i] = VE(P.mk(ITE, w, c.e, X(a, w), X(b, w))); }
				f.ip++; break; }
			case D_ZEXT: { Val a = get(f, in.ops[0]); f.regs[in.dst] = a.e ? VE(P.mk(ZEXT, in.w, a.e)) : a; f.ip++; break; }
			case D_SEXT: { Val a = get(f, in.ops[0]); f.regs[in.dst] = a.e ? VE(P.mk(SEXT, in.w, a.e)) : V((u64)sgn(a.c, in.w2) & maskw(in.w)); f.ip++; break; }
			case D_TRUNC: { Val a = get(f, in.ops[0]); f.regs[in.dst] = a.e ? VE(P.mk(EXTRACT, in.w, a.e, 0, 0, 0)) : V(a.c & maskw(in.w)); f.ip++; break; }
			case D_COPY: {
				if (in.sub == 1) { for (int i = 0; i < in.ndst; i++) f.regs[in.dst + i] = get(f, in.ops[0], i); for (int i = 0; i < in.ops[1].n; i++) f.regs[in.dst + in.coff + i] = get(f, in.ops[1], i); }
				else for (int i = 0; i < in.ndst; i++) f.regs[in.dst + i] = get(f, in.ops[0], i);
				f.ip++; break; }
			case D_LOAD: {
				Val a = get(f, in.ops[0]);
				if (in.ndst == 1) { Val v = load(s, a, in.leaves[0].bits); f.regs[in.dst] = v; }
				else { u64 c = concretize(s, a, 64); for (int i = 0; i < in.ndst; i++) f.regs[in.dst + i] = loadC(s, c + in.leaves[i].off, in.leaves[i].bits); }
				f.ip++; break; }
			case D_STORE: {
				Val a = get(f, in.ops[1]); u64 c = a.e ? concretize(s, a, 64) : a.c;
				for (size_t i = 0; i < in.leaves.size(); i++) storeC(s, c + in.leaves[i].off, get(f, in.ops[0], i), in.leaves[i].bits);
				f.ip++; break; }
			case D_GEP: {
				Val b = get(f, in.ops[0]); Expr* e = b.e; u64 c = b.c + in.coff; if (e && in.coff) e = P.mk(ADD, 64, e, P.cst(in.coff, 64));
				for (auto& t : in.gep) { Val i = get(f, t.idx); if (!i.e) { u64 o = (u64)(sgn(i.c, t.w) * t.scale); if (e) e = P.mk(ADD, 64, e, P.cst(o, 64)); else c += o; } else { Expr* x = t.w < 64 ? P.mk(SEXT, 64, i.e) : i.e; if (t.scale != 1) x = P.mk(MUL, 64, x, P.cst(t.scale, 64)); e = P.mk(ADD, 64, e ? e : P.cst(c, 64), x); } }
				f.regs[in.dst] = e ? VE(e) : V(c); f.ip++; break; }
			case D_ALLOCA: {
				u64 n = concretize(s, get(f, in.ops[0]), 64); u64 a = allocObj(s, n * in.coff, KStack, "local variable", true); s.st.back().allocas.push_back(a >> 32); f.regs[in.dst] = V(a); f.ip++; break; }
			case D_BR: jump(f, in.edges[0]); break;
			case D_CONDBR: { Val c = get(f, in.ops[0]); bool t = c.e ? decide(s, c.e) : (c.c & 1); jump(f, in.edges[t ? 0 : 1]); break; }
			case D_SWITCH: {
				Val c = get(f, in.ops[0]); if (c.e) c = simpV(s, c, in.w2);
				if (!c.e) { int k = 0; for (size_t i = 0; i < in.cases.size(); i++) if (in.cases[i] == c.c) { k = i + 1; break; } jump(f, in.edges[k]); break; }
				if (c.e->undef) error(s, "uninit", "decision depends on uninitialised memory");
				// group the cases by target
				int k = 0; std::map<u32, std::vector<size_t> > by; for (size_t i = 0; i < in.cases.size(); i++) by[in.edges[i + 1].moves.empty() ? in.edges[i + 1].target : 0x80000000u + i].push_back(i);
				for (auto& kv : by) { Expr* e = 0; for (size_t i : kv.second) { Expr* q = P.mk(EQ, 1, c.e, P.cst(in.cases[i], in.w2)); e = e ? P.mk(OR, 1, e, q) : q; } if (decide(s, e)) { k = kv.second[0] + 1; break; } }
				jump(f, in.edges[k]); break; }
			case D_RET: {
				Val rv[16]; int n = in.ops.empty() ? 0 : in.ops[0].n; if (n > 16) unsupported(s, "big return"); for (int i = 0; i < n; i++) rv[i] = get(f, in.ops[0], i);
				popFrame(s); if (s.st.empty()) throw PathEnd{"done"};
				Frame& c = s.st.back(); DInst& ci = c.f->code[c.ip]; for (int i = 0; i < n && i < ci.ndst; i++) c.regs[ci.dst + i] = rv[i];
				if (ci.op == D_CALL) { if (ci.invoke) jump(c, ci.edges[0]); else c.ip++; }
				fp = &s.st.back(); break; }
			case D_LPAD: f.regs[in.dst] = V(f.lpPtr); f.regs[in.dst + 1] = V(f.lpSel); f.ip++; break;
			case D_RESUME: { u64 e = get(f, in.ops[0], 0).c; popFrame(s); if (s.st.empty()) { recordNoFrame(s, "uncaught", "uncaught exception"); throw PathEnd{"uncaught"}; } unwind(s, e); fp = &s.st.back(); break; }
			case D_UNREACH: error(s, "unreachable", "execution of unreachable code (undefined behaviour)");
			case D_NOP: f.ip++; break;
			case D_ATOMICRMW: { u64 a = concretize(s, get(f, in.ops[0]), 64); Val o = loadC(s, a, in.w); Val v = get(f, in.ops[1]); Val r = in.sub == 255 ? v : VE(P.mk((Op)in.sub, in.w, X(o, in.w), X(v, in.w))); storeC(s, a, r, in.w); f.regs[in.dst] = o; f.ip++; break; }
			case D_UNSUP: default: unsupported(s, std::string("instruction ") + in.why);
			case D_CALL: {
				if (in.iid) { intrinsic(s, f, in); fp = &s.st.back(); break; }
				FuncInfo* fi = in.callee;
				if (!fi) { u64 a = concretize(s, get(f, in.ops.back()), 64); auto it = faddr.find(a); if (it == faddr.end()) error(s, "wildcall", "call through invalid function pointer"); fi = it->second; }
				if (fi->h) {
					Val args[16]; int n = 0; size_t na = in.callee ? in.ops.size() : in.ops.size() - 1; for (size_t i = 0; i < na && n < 16; i++) args[n++] = get(f, in.ops[i]); Val ret[2] = {V(0), V(0)};
					int r = fi->h(*this, s, in, args, n, ret);
					if (r == 0) { Frame& g = s.st.back(); for (int i = 0; i < in.ndst && i < 2; i++) g.regs[in.dst + i] = ret[i]; if (in.invoke) jump(g, in.edges[0]); else g.ip++; }
					fp = &s.st.back(); break;
				}
				if (fi->F->isDeclaration()) unsupported(s, "external function " + demangle(fi->name));
				if (fi->F->isVarArg()) unsupported(s, "variadic function " + fi->name);
				// byval arguments are copied
				std::vector<u64> bv; for (auto& p : in.byval) { u64 src = concretize(s, get(f, in.ops[p.first]), 64); u64 a = allocObj(s, p.second, KStack, "by value argument", true); copyMem(s, a, src, p.second); bv.push_back(a); }
				callFunc(s, fi, 0, &in.ops, &f);
				{ Frame& n = s.st.back(); for (size_t i = 0; i < bv.size(); i++) { n.regs[fi->argslot[in.byval[i].first]] = V(bv[i]); n.allocas.push_back(bv[i] >> 32); } }
				fp = &s.st.back(); break; }
		}
	}
}

void Exec::run(State& s) {
	cur = &s;
	try { step(s); }
	catch (const PathEnd& e) {
		nPaths++; if (sh) sh->paths++; if (s.steps > maxPathSteps) maxPathSteps = s.steps;
		if (samples.size() < 3 && !strcmp(e.why, "done")) { u8 m[64] = {0}; if (S.check(s.pc, P.cst(1, 1), false, m, true) == SATISFIABLE) { std::string t = "bytes="; char b[8]; for (u32 i = 0; i < s.nsym; i++) { snprintf(b, 8, "%02x", m[i]); t += b; } t += " choices="; for (u32 c : s.choices) t += std::to_string(c) + ","; for (auto& n : s.notes) t += " " + n; samples.push_back(t); } }
	}
}

static std::string outDir; 
void Exec::workLoop() {
	u64 k = 0;
	while (!work.empty()) {
		State* s = work.back(); work.pop_back();
		run(*s); delete s;
		if ((++k & 7) == 0) {
			if (deadline && nowS() > deadline) { leftover += work.size(); for (State* w : work) delete w; work.clear(); break; }
			if (sh->stop.load()) { leftover += work.size(); for (State* w : work) delete w; work.clear(); break; }
		}
		// hand half of the work to a new worker
		if (work.size() >= 2 && tokens->load() < maxWorkers && nowS() - born > 0.05) {
			int a = tokens->fetch_add(1);
			if (a >= maxWorkers) { tokens->fetch_sub(1); continue; }
			sh->active.fetch_add(1); born = nowS();
			int id = sh->nextId.fetch_add(1); fflush(0);
			pid_t p = fork();
			if (p == 0) {
				wid = id; /*own statistics*/ S.pid = id; S.nDumped = 0; nPaths = nInst = nForks = nAsserts = nAssertConst = nAssertSmt = nErrPaths = nAssumeEnd = leftover = 0; S.nZ3 = S.nZ3assert = S.nCacheHit = S.nDomDecisions = S.nCross = S.nUnknown = 0; S.z3time = 0; covers.clear(); asserts.clear(); viols.clear(); incomplete.clear(); samples.clear(); samples.push_back("-"); samples.push_back("-"); samples.push_back("-");
				std::deque<State*> mine; for (size_t i = 0; i < work.size(); i += 2) { mine.push_back(work[i]); } work.swap(mine);
			} else if (p > 0) {
				std::deque<State*> mine; for (size_t i = 1; i < work.size(); i += 2) mine.push_back(work[i]); for (size_t i = 0; i < work.size(); i += 2) delete work[i]; work.swap(mine);
			} else { sh->active.fetch_sub(1); tokens->fetch_sub(1); }
		}
	}
}

static std::string jstr(const std::string& s) { std::string r = "\""; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
void Exec::report(const std::string& file, bool) {
	std::ofstream o(file + ".tmp");
	o << "{\"paths\":" << nPaths << ",\"instructions\":" << nInst << ",\"forks\":" << nForks << ",\"asserts\":" << nAsserts << ",\"asserts_folded\":" << nAssertConst << ",\"asserts_smt\":" << nAssertSmt << ",\"error_paths\":" << nErrPaths << ",\"assume_pruned\":" << nAssumeEnd << ",\"z3_queries\":" << S.nZ3 << ",\"z3_assert_queries\":" << S.nZ3assert << ",\"cache_hits\":" << S.nCacheHit << ",\"domain_decisions\":" << S.nDomDecisions << ",\"cross_checked\":" << S.nCross << ",\"unknown\":" << S.nUnknown << ",\"z3_time\":" << S.z3time << ",\"leftover\":" << leftover << ",\"max_path_steps\":" << maxPathSteps << ",\"exprs\":" << P.size();
	auto mp = [&](const char* n, const std::map<std::string, u64>& m) { o << ",\"" << n << "\":{"; bool f = true; for (auto& kv : m) { if (!f) o << ","; f = false; o << jstr(kv.first) << ":" << kv.second; } o << "}"; };
	mp("covers", covers); mp("assert_labels", asserts); mp("incomplete", incomplete);
	o << ",\"samples\":["; { bool f = true; for (auto& x : samples) { if (x == "-") continue; if (!f) o << ","; f = false; o << jstr(x); } } o << "]";
	o << ",\"violations\":["; bool f = true;
	for (auto& v : viols) { if (!f) o << ","; f = false; o << "{\"kind\":" << jstr(v.kind) << ",\"label\":" << jstr(v.label) << ",\"where\":" << jstr(v.where) << ",\"stack\":" << jstr(v.stack) << ",\"bytes\":["; for (size_t i = 0; i < v.bytes.size(); i++) o << (i ? "," : "") << (int)v.bytes[i]; o << "],\"choices\":["; for (size_t i = 0; i < v.choices.size(); i++) o << (i ? "," : "") << v.choices[i]; o << "]}"; }
	o << "],\"functions\":["; f = true; std::set<std::string> lines;
	for (auto& kv : finfo) if (kv.second->executed) {
		std::string n = demangle(kv.second->name); if (n.find("textwolf::") != std::string::npos) { if (!f) o << ","; f = false; o << jstr(n.substr(0, 200)); }
		for (auto& in : kv.second->code) if (in.executed && in.I) { DebugLoc dl = in.I->getDebugLoc(); if (dl) { auto* sc = cast<DIScope>(dl.getScope()); std::string fn = sc->getFilename().str(); size_t p = fn.find("include/textwolf/"); if (p != std::string::npos) lines.insert(fn.substr(p + 17) + ":" + std::to_string(dl.getLine())); } } }
	o << "],\"lines\":["; f = true; for (auto& l : lines) { if (!f) o << ","; f = false; o << jstr(l); } o << "]}\n"; o.close(); rename((file + ".tmp").c_str(), file.c_str());
}

int main(int argc, char** argv) {
	std::vector<std::string> files; double tmo = 0; std::string entry = "main"; Exec E; int workers = 8; std::string tokenFile;
	for (int i = 1; i < argc; i++) { std::string a = argv[i];
		if (a == "--out") outDir = argv[++i]; else if (a == "--timeout") tmo = atof(argv[++i]); else if (a == "--workers") workers = atoi(argv[++i]); else if (a == "--max-steps") E.maxSteps = atoll(argv[++i]); else if (a == "--entry") entry = argv[++i]; else if (a == "--dump") S.dumpDir = argv[++i]; else if (a == "--dump-every") S.dumpEvery = atoi(argv[++i]); else if (a == "--cross-every") S.crossEvery = atoi(argv[++i]); else if (a == "--solver-timeout") S.timeoutMs = atoi(argv[++i]); else if (a == "--tokens") tokenFile = argv[++i]; else if (a == "--split-addr") E.splitAddr = atoi(argv[++i]); else if (a == "--max-viol") E.maxViol = atoi(argv[++i]); else if (a == "--stop-viol") E.stopViol = atoi(argv[++i]); else files.push_back(a); }
	if (files.empty() || outDir.empty()) { std::cerr << "usage: symx --out dir file.bc...\n"; return 2; }
	LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> M = parseIRFile(files[0], err, ctx); if (!M) { err.print("symx", errs()); return 3; }
	for (size_t i = 1; i < files.size(); i++) { std::unique_ptr<Module> m2 = parseIRFile(files[i], err, ctx); if (!m2) { err.print("symx", errs()); return 3; } if (Linker::linkModules(*M, std::move(m2), Linker::LinkOnlyNeeded)) { errs() << "link error\n"; return 3; } }
	E.M = M.get(); E.DL = &M->getDataLayout(); E.maxWorkers = workers; installHandlers(E); double t0 = nowS(); if (tmo > 0) E.deadline = t0 + tmo;
	State* s = new State; E.setupGlobals(*s);
	// global constructors, then the entry
	Function* F = M->getFunction(entry); if (!F) { errs() << "no entry\n"; return 3; }
	std::vector<Function*> order; if (GlobalVariable* gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (unsigned i = 0; i < ca->getNumOperands(); i++) { auto* cs = cast<ConstantStruct>(ca->getOperand(i)); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) order.push_back(f); }
	for (Function* f : order) { E.callFunc(*s, E.finfo[f], 0, 0, 0); try { E.step(*s); } catch (const PathEnd& e) { if (strcmp(e.why, "done")) { errs() << "global constructor failed: " << e.why << "\n"; for (auto& kv : E.incomplete) errs() << kv.first << "\n"; return 4; } } if (!E.work.empty()) { errs() << "fork in global constructor\n"; return 4; } }
	s->st.clear(); Val args[3] = {V(0), V(0), V(0)}; E.callFunc(*s, E.finfo[F], args, 0, 0); s->steps = 0; s->heapLive = 0;
	E.sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (E.sh) Shared; E.sh->active = 1; E.sh->nextId = 1; E.sh->stop = 0; E.sh->paths = 0; E.sh->viol = 0;
	if (!tokenFile.empty()) { int fd = open(tokenFile.c_str(), O_RDWR | O_CREAT, 0600); ftruncate(fd, 4096); E.tokens = (std::atomic<int>*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); } else { E.tokens = (std::atomic<int>*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
	E.tokens->fetch_add(1); E.work.push_back(s); pid_t root = getpid();
	signal(SIGCHLD, SIG_IGN);
	E.workLoop();
	E.report(outDir + "/w" + std::to_string(E.wid) + ".json", true);
	E.sh->active.fetch_sub(1); E.tokens->fetch_sub(1);
	if (getpid() != root) _exit(0);
	double waitEnd = E.deadline ? E.deadline + 30 : 0;
	while (E.sh->active.load() > 0) { usleep(2000); if (waitEnd && nowS() > waitEnd) { E.sh->stop = 1; if (nowS() > waitEnd + 60) { errs() << "workers do not end\n"; std::ofstream(outDir + "/stuck") << E.sh->active.load(); kill(0, SIGKILL); } } }
	std::ofstream(outDir + "/done") << E.sh->nextId.load() << " " << (nowS() - t0) << "\n";
	_exit(0);
}
