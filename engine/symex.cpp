// symex: symbolic execution of LLVM IR for the VLCB-Arduino checks.
//
//   symex MODULE.bc --case FUNCTION --out DIR [--time S] [--steps N] [--merge N] [--samples N]
//
// Executes FUNCTION (void(void)) from the module.  Values returned by the
// sx_* calls are symbolic; every branch whose condition is not decided by the
// path condition is explored on both sides, every assertion and every memory
// access is decided by the SMT solver for all values at once.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/CFG.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
#include <unordered_set>
#include <thread>
#include <pthread.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <stdarg.h>
#include <unistd.h>
#include <functional>

using namespace llvm;
using std::string; using std::vector; using std::map; using std::pair;

static LLVMContext *LC; static Module *M; static const DataLayout *DL;
static Solver *S;
static string gOut, gCase;
static double gTimeLimit = 300, gStart; static u64 gStepLimit = 20000000; static int gMergeDefault = 0; static int gSamples = 12;
static u64 gMaxStates = 400000; static bool gVerbose = false;

[[noreturn]] static void die(const char *fmt, ...);

// ---------------------------------------------------------------- memory ----
struct Obj {
  int ref = 0; u64 base, size; u8 kind; // 0 global 1 stack 2 heap 3 function
  bool ro = false; int allocSeq = -1; string *name = nullptr;
  vector<Expr *> b;
};
struct ObjP {
  Obj *p;
  ObjP() : p(nullptr) {}
  ObjP(Obj *o) : p(o) { if (p) p->ref++; }
  ObjP(const ObjP &o) : p(o.p) { if (p) p->ref++; }
  ObjP(ObjP &&o) : p(o.p) { o.p = nullptr; }
  ~ObjP() { drop(); }
  void drop() { if (p && --p->ref == 0) delete p; p = nullptr; }
  ObjP &operator=(const ObjP &o) { if (o.p) o.p->ref++; drop(); p = o.p; return *this; }
  ObjP &operator=(ObjP &&o) { if (this != &o) { drop(); p = o.p; o.p = nullptr; } return *this; }
  Obj *operator->() const { return p; }
};

// ------------------------------------------------------------ decoded IR ----
struct Opnd { int reg = -1; Expr *c = nullptr; };
struct FuncInfo;
struct Inst {
  Instruction *ll; unsigned opc; int dst = -1; unsigned w = 0;
  vector<Opnd> ops;
  i64 off = 0; vector<pair<int, i64>> scaled; // gep: operand index in ops, scale
  int t1 = -1, t2 = -1;                      // branch targets (block index)
  vector<pair<u64, int>> cases;              // switch
  Type *ty = nullptr;
  vector<unsigned> idx;
};
struct Block {
  BasicBlock *bb; vector<Inst> insts; unsigned firstNonPhi = 0; unsigned npreds = 0;
  unsigned rpo = 0; vector<int> loops; // outermost first
  std::unordered_map<int, int> predIdx;
};
struct LoopRec { int header; unsigned headerRpo; };
struct FuncInfo {
  Function *f; int id; int nregs = 0; vector<Block> blocks; vector<LoopRec> loops; vector<vector<char>> inLoop;
  std::unordered_map<const Value *, int> regOf; vector<unsigned> regW;
  vector<vector<u64>> liveIn; bool liveDone = false;
  std::unordered_map<u64, vector<u64>> liveCache;
  u64 execCount = 0; u64 callCount = 0;
};
static std::unordered_map<Function *, FuncInfo *> FI;
static vector<FuncInfo *> FIs;
static std::unordered_map<u64, Function *> funcByAddr; static std::unordered_map<const Function *, u64> addrOfFunc;
static std::unordered_map<const GlobalVariable *, u64> addrOfGlobal;

// ----------------------------------------------------------------- state ----
struct Frame {
  FuncInfo *fi; int bb = 0; int idx = 0;
  vector<Expr *> regs; vector<u64> allocas; vector<Expr *> varargs; vector<u32> iters;
  Inst *callInst = nullptr;
};
struct State {
  vector<Frame> stack; vector<ObjP> objs; vector<Expr *> pc; Model model;
  u64 nextAddr = 0; int allocSeq = 0; bool inCase = false;
  vector<u32> inputs; vector<Expr *> observes; vector<pair<u64, string>> notes;
  u64 steps = 0; int merges = 0; int forks = 0; int mergeLimit = 0;
  u64 id = 0; u32 group = 0; // states of different groups are never merged
};
static u64 nStatesCreated = 0, nForks = 0, nMerges = 0, nMergeRefused = 0, nPaths = 0, nInfeasible = 0, nAsserts = 0, nAssertQueries = 0, nInsts = 0, nMemQueries = 0, nConcretised = 0;
static map<string, u64> gCovers; static map<string, u64> gAssertLabels;
static map<string,u64> gRefuse;
struct Violation { string kind, label, where; string file; };
static vector<Violation> gViol; static std::set<string> gViolKeys;
static map<string, u64> gForkSites;
static bool gStopAtFirst = false;
static string gError;
static vector<string> gSampleFiles;

static string esc(const string &s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static string demang(const string &s) { return demangle(s); }

static void writeResult(const string &status) {
  string fn = gOut + "/" + gCase + ".json";
  FILE *f = fopen(fn.c_str(), "w"); if (!f) { perror(fn.c_str()); _exit(3); }
  fprintf(f, "{\n \"case\": \"%s\",\n \"status\": \"%s\",\n \"error\": \"%s\",\n", gCase.c_str(), status.c_str(), esc(gError).c_str());
  fprintf(f, " \"paths\": %llu, \"states\": %llu, \"forks\": %llu, \"merges\": %llu, \"merge_refused\": %llu, \"instructions\": %llu,\n", (unsigned long long)nPaths, (unsigned long long)nStatesCreated, (unsigned long long)nForks, (unsigned long long)nMerges, (unsigned long long)nMergeRefused, (unsigned long long)nInsts);
  fprintf(f, " \"asserts\": %llu, \"assert_queries\": %llu, \"memory_queries\": %llu, \"infeasible_assumes\": %llu,\n", (unsigned long long)nAsserts, (unsigned long long)nAssertQueries, (unsigned long long)nMemQueries, (unsigned long long)nInfeasible);
  fprintf(f, " \"solver_queries\": %llu, \"solver_sat\": %llu, \"solver_unsat\": %llu, \"solver_unknown\": %llu, \"solver_retries\": %llu, \"cache_hits\": %llu, \"model_hits\": %llu, \"trivial\": %llu, \"solver_s\": %.3f, \"solver_max_s\": %.3f, \"wall_s\": %.3f,\n",
    (unsigned long long)S->nQueries, (unsigned long long)S->nSat, (unsigned long long)S->nUnsat, (unsigned long long)S->nUnknown, (unsigned long long)S->nRetry, (unsigned long long)S->nCache, (unsigned long long)S->nModelHit, (unsigned long long)S->nFast, S->tSolve, S->tMax, nowS() - gStart);
  fprintf(f, " \"symbolic_vars\": %zu, \"expr_nodes\": %zu,\n", X->vars.size(), X->count);
  fprintf(f, " \"violations\": [");
  for (size_t i = 0; i < gViol.size(); i++) fprintf(f, "%s\n  {\"kind\": \"%s\", \"label\": \"%s\", \"where\": \"%s\", \"file\": \"%s\"}", i ? "," : "", gViol[i].kind.c_str(), esc(gViol[i].label).c_str(), esc(gViol[i].where).c_str(), esc(gViol[i].file).c_str());
  fprintf(f, "],\n \"samples\": [");
  for (size_t i = 0; i < gSampleFiles.size(); i++) fprintf(f, "%s\"%s\"", i ? ", " : "", esc(gSampleFiles[i]).c_str());
  fprintf(f, "],\n \"covers\": {");
  bool first = true; for (auto &p : gCovers) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", esc(p.first).c_str(), (unsigned long long)p.second); first = false; }
  fprintf(f, "},\n \"assert_labels\": {");
  first = true; for (auto &p : gAssertLabels) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", esc(p.first).c_str(), (unsigned long long)p.second); first = false; }
  fprintf(f, "},\n \"functions\": [");
  first = true;
  for (FuncInfo *fi : FIs) if (fi->callCount) {
    string file; if (DISubprogram *sp = fi->f->getSubprogram()) file = sp->getFilename().str();
    fprintf(f, "%s\n  {\"name\": \"%s\", \"file\": \"%s\", \"calls\": %llu}", first ? "" : ",", esc(demang(fi->f->getName().str())).c_str(), esc(file).c_str(), (unsigned long long)fi->callCount); first = false;
  }
  fprintf(f, "]\n}\n");
  fclose(f);
}
static void die(const char *fmt, ...) {
  char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  gError = buf; fprintf(stderr, "symex: %s: %s\n", gCase.c_str(), buf);
  writeResult("error"); _exit(3);
}

static string whereOf(State &st) {
  string r;
  int n = 0;
  for (int i = (int)st.stack.size() - 1; i >= 0 && n < 12; i--, n++) {
    Frame &f = st.stack[i];
    auto &b = f.fi->blocks[f.bb];
    int k = f.idx; if (k >= (int)b.insts.size()) k = b.insts.size() - 1;
    Instruction *ll = b.insts[k].ll;
    string loc;
    if (auto &d = ll->getDebugLoc()) { loc = d->getFilename().str(); size_t p = loc.rfind('/'); if (p != string::npos) loc = loc.substr(p + 1); loc += ":" + std::to_string(d->getLine()); }
    if (n) r += " < ";
    string nm = demang(f.fi->f->getName().str()); size_t p = nm.find('('); if (p != string::npos) nm = nm.substr(0, p);
    r += nm + (loc.empty() ? "" : "@" + loc);
  }
  return r;
}

// ---------------------------------------------------------------- decode ----
static unsigned bitsOf(Type *t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  return 0;
}
static Expr *constExpr(const Constant *c);
static Expr *constValue(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) die("wide integer constant"); return X->C(ci->getZExtValue(), ci->getBitWidth()); }
  if (isa<ConstantPointerNull>(c)) return X->C(0, 64);
  if (auto *f = dyn_cast<Function>(c)) return X->C(addrOfFunc[f], 64);
  if (auto *g = dyn_cast<GlobalVariable>(c)) return X->C(addrOfGlobal[g], 64);
  if (auto *a = dyn_cast<GlobalAlias>(c)) return constValue(a->getAliasee());
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    Type *t = c->getType();
    if (unsigned w = bitsOf(t)) return X->C(isa<UndefValue>(c) ? 0xAAAAAAAAAAAAAAAAull : 0, w);
    if (t->isStructTy() || t->isArrayTy()) {
      vector<Expr *> v; unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
      for (unsigned i = 0; i < n; i++) v.push_back(constValue(c->getAggregateElement(i)));
      return X->Agg(v);
    }
    return nullptr;
  }
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantDataArray>(c)) {
    vector<Expr *> v; unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) v.push_back(constValue(c->getAggregateElement(i)));
    return X->Agg(v);
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto *gep = cast<GEPOperator>(ce);
      APInt off(64, 0);
      if (!gep->accumulateConstantOffset(*DL, off)) die("non constant gep constant");
      return X->Add(constValue(cast<Constant>(gep->getPointerOperand())), X->C(off.getZExtValue(), 64));
    }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return constValue(ce->getOperand(0));
    case Instruction::PtrToInt: { Expr *e = constValue(ce->getOperand(0)); return X->Extract(e, 0, bitsOf(ce->getType())); }
    case Instruction::IntToPtr: { Expr *e = constValue(ce->getOperand(0)); return X->ZExt(e, 64); }
    case Instruction::Sub: return X->Sub(constValue(ce->getOperand(0)), constValue(ce->getOperand(1)));
    case Instruction::Add: return X->Add(constValue(ce->getOperand(0)), constValue(ce->getOperand(1)));
    case Instruction::Trunc: { Expr *e = constValue(ce->getOperand(0)); return X->Extract(e, 0, bitsOf(ce->getType())); }
    case Instruction::ICmp: {
      Expr *a = constValue(ce->getOperand(0)), *b = constValue(ce->getOperand(1));
      switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return X->Eq(a, b); case CmpInst::ICMP_NE: return X->Not(X->Eq(a, b)); case CmpInst::ICMP_ULT: return X->Ult(a, b); default: break; }
      break; }
    default: break;
    }
    die("constant expression %s not supported", ce->getOpcodeName());
  }
  return nullptr; // floats etc: unsupported if used
}

static FuncInfo *decode(Function *f) {
  auto it = FI.find(f); if (it != FI.end()) return it->second;
  FuncInfo *fi = new FuncInfo(); fi->f = f; fi->id = FIs.size(); FIs.push_back(fi); FI[f] = fi;
  if (f->isDeclaration()) return fi;
  std::unordered_map<const BasicBlock *, int> bidx; int n = 0;
  for (auto &bb : *f) bidx[&bb] = n++;
  for (auto &a : f->args()) { fi->regOf[&a] = fi->nregs++; fi->regW.push_back(bitsOf(a.getType())); }
  for (auto &bb : *f) for (auto &in : bb) if (!in.getType()->isVoidTy()) { fi->regOf[&in] = fi->nregs++; fi->regW.push_back(bitsOf(in.getType())); }
  fi->blocks.resize(n);
  auto mkop = [&](Value *v) { Opnd o; if (auto *c = dyn_cast<Constant>(v)) { if (!isa<Function>(v) || true) o.c = constValue(c); } else { auto r = fi->regOf.find(v); if (r != fi->regOf.end()) o.reg = r->second; } return o; };
  for (auto &bb : *f) {
    Block &B = fi->blocks[bidx[&bb]]; B.bb = &bb;
    for (auto *p : predecessors(&bb)) { (void)p; B.npreds++; }
    bool seenNon = false;
    for (auto &in : bb) {
      if (isa<DbgInfoIntrinsic>(&in)) continue;
      Inst I; I.ll = &in; I.opc = in.getOpcode();
      auto r = fi->regOf.find(&in); if (r != fi->regOf.end()) I.dst = r->second;
      I.w = bitsOf(in.getType()); I.ty = in.getType();
      if (!isa<PHINode>(&in)) { if (!seenNon) { seenNon = true; B.firstNonPhi = B.insts.size(); } }
      switch (in.getOpcode()) {
      case Instruction::PHI: { auto *p = cast<PHINode>(&in);
        for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { I.ops.push_back(mkop(p->getIncomingValue(i))); I.idx.push_back(bidx[p->getIncomingBlock(i)]); }
        break; }
      case Instruction::Br: { auto *b = cast<BranchInst>(&in);
        I.t1 = bidx[b->getSuccessor(0)]; if (b->isConditional()) { I.t2 = bidx[b->getSuccessor(1)]; I.ops.push_back(mkop(b->getCondition())); }
        break; }
      case Instruction::Switch: { auto *s = cast<SwitchInst>(&in);
        I.ops.push_back(mkop(s->getCondition())); I.t1 = bidx[s->getDefaultDest()];
        for (auto &c : s->cases()) I.cases.push_back({c.getCaseValue()->getZExtValue(), bidx[c.getCaseSuccessor()]});
        break; }
      case Instruction::GetElementPtr: { auto *g = cast<GetElementPtrInst>(&in);
        I.ops.push_back(mkop(g->getPointerOperand()));
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          Value *op = gi.getOperand();
          if (StructType *sty = gi.getStructTypeOrNull()) I.off += DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(op)->getZExtValue());
          else {
            i64 sc = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(op)) I.off += ci->getSExtValue() * sc;
            else { I.scaled.push_back({(int)I.ops.size(), sc}); I.ops.push_back(mkop(op)); }
          }
        }
        break; }
      case Instruction::Call: { auto *c = cast<CallInst>(&in);
        for (auto &a : c->args()) { if (a->getType()->isMetadataTy()) { I.ops.push_back(Opnd()); continue; } I.ops.push_back(mkop(a)); }
        I.ops.push_back(mkop(c->getCalledOperand()));
        break; }
      case Instruction::ExtractValue: I.ops.push_back(mkop(in.getOperand(0))); for (unsigned i : cast<ExtractValueInst>(&in)->indices()) I.idx.push_back(i); break;
      case Instruction::InsertValue: I.ops.push_back(mkop(in.getOperand(0))); I.ops.push_back(mkop(in.getOperand(1))); for (unsigned i : cast<InsertValueInst>(&in)->indices()) I.idx.push_back(i); break;
      default:
        for (unsigned i = 0; i < in.getNumOperands(); i++) { Value *o = in.getOperand(i); if (isa<BasicBlock>(o) || o->getType()->isMetadataTy()) { I.ops.push_back(Opnd()); continue; } I.ops.push_back(mkop(o)); }
      }
      B.insts.push_back(std::move(I));
    }
  }
  // topological positions and loops
  DominatorTree DT(*f); LoopInfo LI(DT);
  ReversePostOrderTraversal<Function *> RPOT(f); unsigned k = 1;
  for (auto *bb : RPOT) fi->blocks[bidx[bb]].rpo = k++;
  std::unordered_map<Loop *, int> lidx;
  for (Loop *L : LI.getLoopsInPreorder()) { lidx[L] = fi->loops.size(); fi->loops.push_back({bidx[L->getHeader()], fi->blocks[bidx[L->getHeader()]].rpo}); vector<char> in(n, 0); for (auto *b : L->blocks()) in[bidx[b]] = 1; fi->inLoop.push_back(in); }
  for (auto &bb : *f) { vector<int> ch; for (Loop *L = LI.getLoopFor(&bb); L; L = L->getParentLoop()) ch.push_back(lidx[L]); std::reverse(ch.begin(), ch.end()); fi->blocks[bidx[&bb]].loops = ch; }
  return fi;
}

// liveness (for state merging)
static void computeLive(FuncInfo *fi) {
  if (fi->liveDone) return; fi->liveDone = true;
  size_t W = (fi->nregs + 63) / 64; size_t n = fi->blocks.size();
  fi->liveIn.assign(n, vector<u64>(W, 0));
  std::unordered_map<const BasicBlock *, int> bidx; for (size_t i = 0; i < n; i++) bidx[fi->blocks[i].bb] = i;
  bool ch = true;
  while (ch) {
    ch = false;
    for (int i = n - 1; i >= 0; i--) {
      Block &B = fi->blocks[i]; vector<u64> live(W, 0);
      for (auto *s : successors(B.bb)) { int j = bidx[s]; for (size_t k = 0; k < W; k++) live[k] |= fi->liveIn[j][k];
        for (auto &I : fi->blocks[j].insts) { if (I.opc != Instruction::PHI) break; for (size_t q = 0; q < I.ops.size(); q++) if ((int)I.idx[q] == i && I.ops[q].reg >= 0) live[I.ops[q].reg / 64] |= 1ull << (I.ops[q].reg % 64); } }
      for (int k = (int)B.insts.size() - 1; k >= 0; k--) { Inst &I = B.insts[k];
        if (I.dst >= 0 && I.opc != Instruction::PHI) live[I.dst / 64] &= ~(1ull << (I.dst % 64));
        if (I.opc != Instruction::PHI) for (auto &o : I.ops) if (o.reg >= 0) live[o.reg / 64] |= 1ull << (o.reg % 64);
      }
      // liveIn here = live after phis executed, minus nothing; phi results are live-in regs set by the edge
      vector<u64> in = live;
      // remove phi dsts when propagating to predecessors
      vector<u64> inNoPhi = live; for (auto &I : B.insts) { if (I.opc != Instruction::PHI) break; inNoPhi[I.dst / 64] &= ~(1ull << (I.dst % 64)); }
      if (inNoPhi != fi->liveIn[i]) { fi->liveIn[i] = inNoPhi; ch = true; }
    }
  }
}
static const vector<u64> &liveAt(FuncInfo *fi, int bb, int idx) { // registers live before executing insts[idx]
  computeLive(fi);
  u64 key = ((u64)bb << 32) | (u32)idx;
  auto it = fi->liveCache.find(key); if (it != fi->liveCache.end()) return it->second;
  size_t W = (fi->nregs + 63) / 64; vector<u64> live(W, 0); Block &B = fi->blocks[bb];
  std::unordered_map<const BasicBlock *, int> bidx; for (size_t i = 0; i < fi->blocks.size(); i++) bidx[fi->blocks[i].bb] = i;
  for (auto *s : successors(B.bb)) { int j = bidx[s]; for (size_t k = 0; k < W; k++) live[k] |= fi->liveIn[j][k];
    for (auto &I : fi->blocks[j].insts) { if (I.opc != Instruction::PHI) break; for (size_t q = 0; q < I.ops.size(); q++) if ((int)I.idx[q] == bb && I.ops[q].reg >= 0) live[I.ops[q].reg / 64] |= 1ull << (I.ops[q].reg % 64); } }
  for (int k = (int)B.insts.size() - 1; k >= idx; k--) { Inst &I = B.insts[k]; if (I.opc == Instruction::PHI) break;
    if (I.dst >= 0) live[I.dst / 64] &= ~(1ull << (I.dst % 64));
    for (auto &o : I.ops) if (o.reg >= 0) live[o.reg / 64] |= 1ull << (o.reg % 64); }
  return fi->liveCache[key] = live;
}

// ------------------------------------------------------------- scheduler ----
typedef vector<u32> Key;
struct Group { vector<State *> v; size_t tried = 0; };
static map<Key, Group> mergeQ; static u32 nGroups = 0; static vector<State *> dfs; static size_t liveStates = 0;
static bool mergingOn = false;

static Key keyOf(State &st) {
  Key k; k.push_back(st.group);
  for (size_t i = 0; i < st.stack.size(); i++) {
    Frame &f = st.stack[i]; Block &B = f.fi->blocks[f.bb];
    if (i) k.push_back(f.fi->id);
    for (int l : B.loops) { k.push_back(f.fi->loops[l].headerRpo); k.push_back(f.iters[l]); }
    k.push_back(B.rpo); k.push_back(f.idx);
  }
  return k;
}
static void enqueue(State *st) { if (mergingOn) mergeQ[keyOf(*st)].v.push_back(st); else dfs.push_back(st); }
static bool otherStates() { return mergingOn ? !mergeQ.empty() : !dfs.empty(); }

static bool looksPtr(u64 v) { return v >= 0x10000000ull && v < 0x7fffffffffffull && (v >= 0x100000000000ull || v < 0x40000000ull); }
static bool looksPtrE(Expr *e) { return e && e->isConst() && e->w == 64 && looksPtr(e->v); }

static bool tryMerge(State &A, State &B) { // B into A
  auto refuse = [&](const char *w) { nMergeRefused++; if (gVerbose) gRefuse[w]++; return false; };
  if (A.stack.size() != B.stack.size()) return refuse("stack");
  if (A.inputs != B.inputs) return refuse("inputs");
  if (A.observes.size() != B.observes.size()) return refuse("observes");
  if (A.objs.size() != B.objs.size()) return refuse("objects");
  if (A.allocSeq != B.allocSeq || A.inCase != B.inCase) return refuse("allocseq");
  for (size_t i = 0; i < A.stack.size(); i++) { Frame &f = A.stack[i], &g = B.stack[i]; if (f.fi != g.fi || f.bb != g.bb || f.idx != g.idx || f.allocas != g.allocas || f.varargs.size() != g.varargs.size() || f.iters != g.iters) return refuse("frames"); }
  int limit = A.mergeLimit; int diff = 0;
  struct RD { size_t f; int r; }; vector<RD> rd;
  for (size_t i = 0; i < A.stack.size(); i++) {
    Frame &f = A.stack[i], &g = B.stack[i];
    bool top = i + 1 == A.stack.size();
    const vector<u64> &live = liveAt(f.fi, f.bb, top ? f.idx : f.idx + 1);
    for (int r = 0; r < f.fi->nregs; r++) if (f.regs[r] != g.regs[r]) {
      if (!(live[r / 64] >> (r % 64) & 1)) continue;
      if (!f.regs[r] || !g.regs[r]) return refuse("undef reg");
      if (looksPtrE(f.regs[r]) || looksPtrE(g.regs[r])) return refuse("pointer reg");
      if ((f.regs[r]->op == AGG) != (g.regs[r]->op == AGG)) return refuse("agg");
      rd.push_back({i, r}); diff++;
    }
    for (size_t k = 0; k < f.varargs.size(); k++) if (f.varargs[k] != g.varargs[k]) diff++;
    if (diff > limit) return refuse("too many differences");
  }
  struct MD { size_t o; }; vector<size_t> md;
  for (size_t i = 0; i < A.objs.size(); i++) {
    Obj *a = A.objs[i].p, *b = B.objs[i].p; if (a == b) continue;
    if (a->base != b->base || a->size != b->size) return refuse("object address");
    int d = 0; u64 lastw = ~0ull;
    for (u64 k = 0; k < a->size; k++) if (a->b[k] != b->b[k]) {
      d++;
      u64 wd = k & ~7ull;
      if (wd != lastw && wd + 8 <= a->size) { lastw = wd;
        u64 va = 0, vb = 0; bool ca = true, cb = true;
        for (int q = 7; q >= 0; q--) { Expr *x = a->b[wd + q], *y = b->b[wd + q]; if (x && x->isConst()) va = va << 8 | x->v; else ca = false; if (y && y->isConst()) vb = vb << 8 | y->v; else cb = false; }
        if ((ca && looksPtr(va)) || (cb && looksPtr(vb))) return refuse("pointer memory");
      }
    }
    if (d) { diff += d; md.push_back(i); }
    if (diff > limit) return refuse("too many differences");
  }
  // path conditions
  size_t n = 0; while (n < A.pc.size() && n < B.pc.size() && A.pc[n] == B.pc[n]) n++;
  vector<Expr *> ra(A.pc.begin() + n, A.pc.end()), rb(B.pc.begin() + n, B.pc.end());
  Expr *sel;
  if (ra.empty() || rb.empty()) {
    // can only happen when one side's condition was implied; the other side then is disjoint by its own rest
    if (ra.empty() && rb.empty()) return refuse("identical pc");
    Expr *c = X->T; for (Expr *e : ra.empty() ? rb : ra) c = X->And(c, e);
    sel = ra.empty() ? X->Not(c) : c;
  } else if (X->isNotOf(ra[0], rb[0])) sel = ra[0];
  else { sel = X->T; for (Expr *e : ra) sel = X->And(sel, e); }
  vector<Expr *> common; std::unordered_set<Expr *> sa(ra.begin(), ra.end()), sc;
  for (Expr *e : rb) if (sa.count(e)) { common.push_back(e); sc.insert(e); }
  Expr *ca = X->T, *cb = X->T;
  for (Expr *e : ra) if (!sc.count(e)) ca = X->And(ca, e);
  for (Expr *e : rb) if (!sc.count(e)) cb = X->And(cb, e);
  A.pc.resize(n);
  for (Expr *e : common) A.pc.push_back(e);
  Expr *dis = X->Or(ca, cb); if (!dis->isTrue()) A.pc.push_back(dis);
  for (auto &d : rd) A.stack[d.f].regs[d.r] = X->Ite(sel, A.stack[d.f].regs[d.r], B.stack[d.f].regs[d.r]);
  for (size_t i = 0; i < A.stack.size(); i++) { Frame &f = A.stack[i], &g = B.stack[i]; for (size_t k = 0; k < f.varargs.size(); k++) f.varargs[k] = X->Ite(sel, f.varargs[k], g.varargs[k]); 
    bool top = i + 1 == A.stack.size(); const vector<u64> &live = liveAt(f.fi, f.bb, top ? f.idx : f.idx + 1);
    for (int r = 0; r < f.fi->nregs; r++) if (!(live[r / 64] >> (r % 64) & 1)) f.regs[r] = nullptr; }
  for (size_t i : md) {
    Obj *a = A.objs[i].p, *b = B.objs[i].p;
    Obj *c = new Obj(*a); c->ref = 0;
    for (u64 k = 0; k < a->size; k++) if (a->b[k] != b->b[k]) {
      Expr *x = a->b[k], *y = b->b[k];
      if (!x || !y) { // uninitialised on one side: give it its symbol
        auto uninit = [&](Obj *o) -> Expr * { if (o->kind == 2 && o->allocSeq >= 0) return X->Var("heap" + std::to_string(o->allocSeq) + "+" + std::to_string(k), 8); return X->C(0xAA, 8); };
        if (!x) x = uninit(a); if (!y) y = uninit(b);
      }
      c->b[k] = X->Ite(sel, x, y);
    }
    A.objs[i] = ObjP(c);
  }
  for (size_t i = 0; i < A.observes.size(); i++) A.observes[i] = X->Ite(sel, A.observes[i], B.observes[i]);
  A.nextAddr = std::max(A.nextAddr, B.nextAddr); A.steps = std::max(A.steps, B.steps); A.merges++;
  nMerges++;
  return true;
}

// --------------------------------------------------------------- engine -----
struct PathEnd {};
static State *cur;

static Obj *writable(State &st, size_t i) {
  Obj *o = st.objs[i].p;
  if (o->ref > 1) { Obj *c = new Obj(*o); c->ref = 0; st.objs[i] = ObjP(c); o = c; }
  return o;
}
static int findObj(State &st, u64 addr) {
  int lo = 0, hi = (int)st.objs.size() - 1, r = -1;
  while (lo <= hi) { int m = (lo + hi) / 2; if (st.objs[m]->base <= addr) { r = m; lo = m + 1; } else hi = m - 1; }
  if (r >= 0 && addr < st.objs[r]->base + std::max<u64>(st.objs[r]->size, 1)) return r;
  return -1;
}
static u64 allocate(State &st, u64 size, u8 kind, const string *name = nullptr) {
  Obj *o = new Obj(); o->base = st.nextAddr; o->size = size; o->kind = kind; o->b.assign(size, nullptr); o->name = const_cast<string *>(name);
  st.nextAddr += (size + 4096 + 15) & ~15ull; // guard gap
  st.objs.push_back(ObjP(o));
  return o->base;
}
static Expr *uninitByte(Obj *o, u64 k) {
  if (o->kind == 2 && o->allocSeq >= 0) return X->Var("heap" + std::to_string(o->allocSeq) + "+" + std::to_string(k), 8);
  return X->C(0xAA, 8);
}
static Expr *rdByte(State &st, size_t oi, u64 k) {
  Obj *o = st.objs[oi].p; Expr *e = o->b[k];
  return e ? e : uninitByte(o, k);
}

static void dumpVector(State &st, const Model &m, const string &fn, const string &kind, const string &label, bool obs) {
  FILE *f = fopen(fn.c_str(), "w"); if (!f) { perror(fn.c_str()); _exit(3); }
  fprintf(f, "case %s\nkind %s\nlabel %s\n", gCase.c_str(), kind.c_str(), label.c_str());
  fprintf(f, "where %s\n", whereOf(st).c_str());
  for (size_t i = 0; i < st.inputs.size(); i++) { auto &v = X->vars[st.inputs[i]]; fprintf(f, "input %zu %s %d %llu\n", i, v.name.c_str(), v.w, (unsigned long long)(m.get(st.inputs[i]) & maskw(v.w))); }
  for (size_t i = 0; i < X->vars.size(); i++) if (X->vars[i].name.compare(0, 4, "heap") == 0 && X->vars[i].name.find('+') != string::npos) {
    int seq, off; if (sscanf(X->vars[i].name.c_str(), "heap%d+%d", &seq, &off) == 2) fprintf(f, "heap %d %d %llu\n", seq, off, (unsigned long long)(m.get(i) & 255)); }
  if (obs) { Evaluator ev; ev.begin(); for (Expr *e : st.observes) fprintf(f, "observe %llu\n", (unsigned long long)ev.ev(e, m)); }
  fprintf(f, "end\n");
  fclose(f);
}
static void violation(State &st, const Model &m, const string &kind, const string &label) {
  string key = kind + "|" + label; 
  if (kind != "assert") key += "|" + whereOf(st).substr(0, 120);
  if (gViolKeys.count(key)) return;
  gViolKeys.insert(key);
  if (gViol.size() >= 12) return;
  string fn = gOut + "/" + gCase + ".viol" + std::to_string(gViol.size()) + ".txt";
  dumpVector(st, m, fn, kind, label, false);
  gViol.push_back({kind, label, whereOf(st), fn});
  fprintf(stderr, "symex: %s: VIOLATION %s %s at %s\n", gCase.c_str(), kind.c_str(), label.c_str(), whereOf(st).c_str());
  // once a violation is known, bound the remaining exploration
  double lim = nowS() - gStart + 45; if (lim < gTimeLimit) gTimeLimit = lim;
}

static Res query(State &st, Expr *cond, Model &out) {
  Res r = S->check(st.pc, cond, st.model, out);
  if (r == UNKNOWN) die("solver gave no answer within its limit at %s", whereOf(st).c_str());
  return r;
}
// Restrict the state to cond (must be feasible with model m)
static void addPC(State &st, Expr *c, const Model &m) {
  st.model = m;
  if (c->isTrue()) return;
  if (c->op == AND && c->w == 1) { Model mm = m; addPC(st, c->k[0], mm); addPC(st, c->k[1], mm); return; }
  for (Expr *e : st.pc) if (e == c) return;
  st.pc.push_back(c);
}
static Expr *substPC(State &st, Expr *e) { // cheap simplification with the path condition
  if (e->isConst()) return e;
  for (Expr *c : st.pc) { if (c == e) return X->T; if (X->isNotOf(c, e)) return X->F; }
  return e;
}

// decide cond: returns 1 true only, 0 false only, 2 both (mt/mf filled)
static int decide(State &st, Expr *cond, Model &mt, Model &mf) {
  if (cond->isConst()) { return cond->v; }
  cond = substPC(st, cond);
  if (cond->isConst()) return cond->v;
  Res rt = query(st, cond, mt);
  if (rt == UNSAT) return 0;
  Res rf = query(st, X->Not(cond), mf);
  if (rf == UNSAT) return 1;
  return 2;
}

static State *cloneState(State &st) { State *n = new State(st); n->id = ++nStatesCreated; n->forks++; liveStates++; if (liveStates > gMaxStates) die("too many live states"); return n; }

// Fork on cond.  The current state takes the true side (or false when only that is feasible); the other is queued with its 'idx' unchanged
// unless cont is given.  Returns truth value for current state.
struct Forker {
  State *other = nullptr;
  bool val;
};
static Forker forkOn(State &st, Expr *cond) {
  Model mt, mf; int d = decide(st, cond, mt, mf);
  Forker r;
  if (d != 2) { r.val = d; return r; }
  nForks++;
  r.other = cloneState(st);
  addPC(*r.other, X->Not(cond), mf);
  addPC(st, cond, mt);
  r.val = true;
  if (gVerbose) gForkSites[whereOf(st)]++;
  return r;
}

static void endPath() { throw PathEnd(); }

// Make an expression concrete by forking over all its values; the instruction is re-executed in the other states.
static u64 concretise(State &st, Expr *e, const char *why, bool split = false) {
  if (e->isConst()) return e->v;
  S->evl.begin(); u64 v = S->evl.ev(e, st.model);
  Forker f = forkOn(st, X->Eq(e, X->C(v, e->w)));
  nConcretised++;
  if (f.other) { if (split) f.other->group = ++nGroups; enqueue(f.other); }
  (void)why;
  return v;
}

// Address resolution.  Returns object index and offset expression; may fork (requeue others) and report violations.
struct Loc { size_t oi; u64 off; Expr *sym; u64 lo, hi; };
static bool constBase(Expr *e, u64 &c) {
  if (e->isConst()) { c = e->v; return true; }
  if (e->op == ADD && e->k[1]->isConst() && looksPtr(e->k[1]->v)) { c = e->k[1]->v; return true; }
  return false;
}
static void memViolation(State &st, Expr *bad, const string &label) {
  Model m; nMemQueries++;
  Res r = query(st, bad, m);
  if (r == SAT) violation(st, m, "memory", label);
}
static Loc resolve(State &st, Expr *addr, u64 n, const char *what) {
  if (addr->isConst()) {
    int i = findObj(st, addr->v);
    if (i < 0 || addr->v + n > st.objs[i]->base + st.objs[i]->size || st.objs[i]->kind == 3) {
      char b[200];
      if (i < 0) snprintf(b, 200, "%s of %llu byte(s) through %s pointer", what, (unsigned long long)n, addr->v < 4096 ? "null" : "an invalid or dangling");
      else snprintf(b, 200, "%s of %llu byte(s) at offset %llu of a %llu byte object", what, (unsigned long long)n, (unsigned long long)(addr->v - st.objs[i]->base), (unsigned long long)st.objs[i]->size);
      violation(st, st.model, "memory", b); endPath();
    }
    return {(size_t)i, addr->v - st.objs[i]->base, nullptr, 0, 0};
  }
  u64 base; int i = -1;
  if (constBase(addr, base)) { i = findObj(st, base);
    if (i < 0) { // the constant part may lie just before/after its object: use a model value below
      S->evl.begin(); u64 v = S->evl.ev(addr, st.model); i = findObj(st, v);
    }
  }
  if (i < 0) {
    S->evl.begin(); u64 v = S->evl.ev(addr, st.model); i = findObj(st, v);
    if (i < 0 || st.objs[i]->kind == 3) {
      // the current model hits nothing: it is a violation on this model; continue with the others
      char b[200]; snprintf(b, 200, "%s of %llu byte(s) through an invalid pointer", what, (unsigned long long)n);
      violation(st, st.model, "memory", b);
      Forker f = forkOn(st, X->Eq(addr, X->C(v, 64)));
      if (f.other) enqueue(f.other);
      endPath();
    }
  }
  Obj *o = st.objs[i].p;
  if (!(constBase(addr, base) && findObj(st, base) == i)) {
    // pointer may refer to several objects: split
    Expr *in = X->And(X->Ule(X->C(o->base, 64), addr), X->Ult(addr, X->C(o->base + std::max<u64>(o->size, 1), 64)));
    Forker f = forkOn(st, in);
    if (f.other) enqueue(f.other);
    if (!f.val) endPath();
    Expr *a2 = addr; if (a2->isConst()) return resolve(st, a2, n, what);
    // is it a single value?
    S->evl.begin(); u64 v = S->evl.ev(addr, st.model); Model m;
    if (query(st, X->Not(X->Eq(addr, X->C(v, 64))), m) == UNSAT) return resolve(st, X->C(v, 64), n, what);
  }
  Expr *off = X->Sub(addr, X->C(o->base, 64));
  if (o->size < n) { violation(st, st.model, "memory", string(what) + " larger than its object"); endPath(); }
  u64 maxoff = o->size - n;
  if (off->umax > maxoff) {
    Expr *ok = X->Ule(off, X->C(maxoff, 64));
    Model m; nMemQueries++;
    if (query(st, X->Not(ok), m) == SAT) {
      char b[200]; snprintf(b, 200, "%s of %llu byte(s) outside a %llu byte object", what, (unsigned long long)n, (unsigned long long)o->size);
      violation(st, m, "memory", b);
      Model mo; if (query(st, ok, mo) == UNSAT) endPath();
      addPC(st, ok, mo);
    }
  }
  if (off->isConst()) return {(size_t)i, off->v, nullptr, 0, 0};
  return {(size_t)i, 0, off, std::min(off->umin, maxoff), std::min(off->umax, maxoff)};
}

// candidate selection for symbolic offsets: off = f(x) with x a narrow root
static u64 evalRoot(Expr *e, Expr *root, u64 v) {
  if (e == root) return v;
  switch (e->op) {
  case CONST: return e->v;
  case ADD: return (evalRoot(e->k[0], root, v) + evalRoot(e->k[1], root, v)) & maskw(e->w);
  case MUL: return (evalRoot(e->k[0], root, v) * evalRoot(e->k[1], root, v)) & maskw(e->w);
  case ZEXT: return evalRoot(e->k[0], root, v);
  case SEXT: return (u64)sx(evalRoot(e->k[0], root, v), e->k[0]->w) & maskw(e->w);
  case CONCAT: return (evalRoot(e->k[0], root, v) << e->k[1]->w) | evalRoot(e->k[1], root, v);
  case OR: return evalRoot(e->k[0], root, v) | evalRoot(e->k[1], root, v);
  case AND: return evalRoot(e->k[0], root, v) & evalRoot(e->k[1], root, v);
  default: die("evalRoot %s", opName(e->op));
  }
}
static Expr *rootOf(Expr *e) {
  for (;;) {
    if ((e->op == ADD || e->op == MUL || e->op == OR || e->op == AND) && e->k[1]->isConst()) e = e->k[0];
    else if (e->op == ZEXT) e = e->k[0];
    else if (e->op == SEXT) e = e->k[0];
    else if (e->op == CONCAT && e->k[1]->isConst()) e = e->k[0];
    else if (e->op == CONCAT && e->k[0]->isConst()) e = e->k[1];
    else return e;
  }
}
struct Cand { u64 rv, off; };
static bool candidates(Loc &l, Expr *&root, vector<Cand> &out, u64 maxoff) {
  root = rootOf(l.sym);
  if (root->w <= 16 || root->umax - root->umin <= 65535) {
    u64 n = root->umax - root->umin + 1;
    if (n <= 65536) {
      for (u64 v = root->umin;; v++) {
        if (!(v & root->kz) && (v & root->ko) == root->ko) { u64 o = evalRoot(l.sym, root, v); if (o <= maxoff) out.push_back({v, o}); }
        if (v == root->umax) break;
      }
      if (out.size() <= 9000) return true;
    }
  }
  out.clear(); root = l.sym;
  if (l.hi - l.lo > 9000) return false;
  for (u64 o = l.lo; o <= l.hi; o++) if (!(o & root->kz) && (o & root->ko) == root->ko) out.push_back({o, o});
  return true;
}
static Expr *muxTree(Expr *root, vector<pair<u64, Expr *>> &c, size_t lo, size_t hi, int bit) {
  // c[lo,hi) sorted by value and agreeing on bits above 'bit'
  bool same = true; for (size_t i = lo + 1; i < hi; i++) if (c[i].second != c[lo].second) { same = false; break; }
  if (same) return c[lo].second;
  size_t mid = lo; while (mid < hi && !(c[mid].first >> bit & 1)) mid++;
  if (mid == lo || mid == hi) return muxTree(root, c, lo, hi, bit - 1);
  return X->Ite(X->Extract(root, bit, 1), muxTree(root, c, mid, hi, bit - 1), muxTree(root, c, lo, mid, bit - 1));
}

static Expr *loadBytes(State &st, size_t oi, u64 off, u64 n) {
  // from the top, so that the pieces of a stored sum join to that sum again
  Expr *r = rdByte(st, oi, off + n - 1);
  for (u64 i = n - 1; i-- > 0;) r = X->Concat(r, rdByte(st, oi, off + i));
  return r;
}
static Expr *loadInt(State &st, Expr *addr, unsigned w) {
  u64 n = (w + 7) / 8;
  Loc l = resolve(st, addr, n, "read");
  Expr *r;
  if (!l.sym) r = loadBytes(st, l.oi, l.off, n);
  else {
    Expr *root; vector<Cand> cs; u64 maxoff = st.objs[l.oi]->size - n;
    if (!candidates(l, root, cs, maxoff) || cs.empty()) { u64 o = concretise(st, l.sym, "address"); r = loadBytes(st, l.oi, o, n); }
    else {
      vector<pair<u64, Expr *>> v; for (auto &c : cs) v.push_back({c.rv, loadBytes(st, l.oi, c.off, n)});
      std::sort(v.begin(), v.end(), [](const pair<u64, Expr *> &a, const pair<u64, Expr *> &b) { return a.first < b.first; });
      r = muxTree(root, v, 0, v.size(), root->w - 1);
    }
  }
  if (r->op == EXTRACT && r->w == w) return X->Extract(r->k[0], r->lo, w);
  return X->Extract(r, 0, w);
}
static void storeInt(State &st, Expr *addr, Expr *val) {
  unsigned w = val->w; u64 n = (w + 7) / 8;
  if (w % 8) val = X->ZExt(val, n * 8);
  Loc l = resolve(st, addr, n, "write");
  if (st.objs[l.oi]->ro) { violation(st, st.model, "memory", "write to read-only data"); endPath(); }
  if (!l.sym) {
    Obj *o = writable(st, l.oi);
    for (u64 i = 0; i < n; i++) o->b[l.off + i] = X->piece(val, i, n);
    return;
  }
  Expr *root; vector<Cand> cs; u64 maxoff = st.objs[l.oi]->size - n;
  if (!candidates(l, root, cs, maxoff)) {
    u64 off = concretise(st, l.sym, "address"); Obj *o = writable(st, l.oi);
    for (u64 i = 0; i < n; i++) o->b[off + i] = X->piece(val, i, n);
    return;
  }
  Obj *o = writable(st, l.oi);
  for (auto &c : cs) { Expr *here = X->Eq(root, X->C(c.rv, root->w));
    for (u64 i = 0; i < n; i++) { Expr *old = o->b[c.off + i] ? o->b[c.off + i] : uninitByte(o, c.off + i); o->b[c.off + i] = X->Ite(here, X->piece(val, i, n), old); } }
}
static Expr *loadTy(State &st, Expr *addr, Type *t) {
  if (unsigned w = bitsOf(t)) { if (w > 64) die("wide load"); return loadInt(st, addr, w); }
  vector<Expr *> v;
  if (auto *s = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) v.push_back(loadTy(st, X->Add(addr, X->C(sl->getElementOffset(i), 64)), s->getElementType(i))); return X->Agg(v); }
  if (auto *a = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); i++) v.push_back(loadTy(st, X->Add(addr, X->C(i * sz, 64)), a->getElementType())); return X->Agg(v); }
  die("load of unsupported type at %s", whereOf(st).c_str());
}
static void storeTy(State &st, Expr *addr, Expr *v, Type *t) {
  if (bitsOf(t)) { storeInt(st, addr, v); return; }
  if (auto *s = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) storeTy(st, X->Add(addr, X->C(sl->getElementOffset(i), 64)), (*v->agg)[i], s->getElementType(i)); return; }
  if (auto *a = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); i++) storeTy(st, X->Add(addr, X->C(i * sz, 64)), (*v->agg)[i], a->getElementType()); return; }
  die("store of unsupported type");
}

static void pushFrame(State &st, FuncInfo *fi, const vector<Expr *> &args, Inst *ci) {
  if (st.stack.size() > 200) { violation(st, st.model, "stack", "recursion too deep"); endPath(); }
  st.stack.emplace_back();
  Frame &f = st.stack.back(); f.fi = fi; f.bb = 0; f.idx = fi->blocks[0].firstNonPhi; f.regs.assign(fi->nregs, nullptr); f.iters.assign(fi->loops.size(), 0); f.callInst = ci;
  fi->callCount++;
  unsigned na = fi->f->arg_size();
  for (unsigned i = 0; i < na; i++) {
    Expr *a = i < args.size() ? args[i] : nullptr;
    if (fi->f->hasParamAttribute(i, Attribute::ByVal)) {
      u64 sz = DL->getTypeAllocSize(fi->f->getParamByValType(i));
      Loc l = resolve(st, a, sz, "read"); if (l.sym) die("byval through symbolic pointer");
      u64 na2 = allocate(st, sz, 1); size_t ni = st.objs.size() - 1; Obj *o = st.objs[ni].p;
      for (u64 k = 0; k < sz; k++) o->b[k] = st.objs[l.oi]->b[l.off + k];
      f.allocas.push_back(na2); a = X->C(na2, 64);
    }
    f.regs[i] = a;
  }
  if (fi->f->isVarArg()) for (size_t i = na; i < args.size(); i++) f.varargs.push_back(args[i]);
}

static void enterBlock(State &st, int to) { // transition with phi evaluation
  Frame &f = st.stack.back(); int from = f.bb; Block &B = f.fi->blocks[to];
  if (B.firstNonPhi) {
    vector<Expr *> tmp;
    for (unsigned i = 0; i < B.firstNonPhi; i++) { Inst &I = B.insts[i]; Expr *v = nullptr; bool ok = false;
      for (size_t k = 0; k < I.idx.size(); k++) if ((int)I.idx[k] == from) { v = I.ops[k].reg >= 0 ? f.regs[I.ops[k].reg] : I.ops[k].c; ok = true; break; }
      if (!ok) die("phi without incoming"); tmp.push_back(v); }
    for (unsigned i = 0; i < B.firstNonPhi; i++) f.regs[B.insts[i].dst] = tmp[i];
  }
  for (int l : B.loops) { if (f.fi->loops[l].header == to && f.fi->inLoop[l][from]) f.iters[l]++; else if (!f.fi->inLoop[l][from]) f.iters[l] = 0; }
  f.bb = to; f.idx = B.firstNonPhi;
}

static void popFrame(State &st, Expr *ret) {
  Frame &f = st.stack.back(); Inst *ci = f.callInst;
  if (!f.allocas.empty()) {
    u64 lo = f.allocas.front();
    for (size_t i = 0; i < f.allocas.size(); i++) lo = std::min(lo, f.allocas[i]);
    std::unordered_set<u64> dead(f.allocas.begin(), f.allocas.end());
    size_t start = std::lower_bound(st.objs.begin(), st.objs.end(), lo, [](const ObjP &o, u64 v) { return o->base < v; }) - st.objs.begin();
    size_t w = start; for (size_t r = start; r < st.objs.size(); r++) { if (dead.count(st.objs[r]->base)) continue; if (w != r) st.objs[w] = std::move(st.objs[r]); w++; }
    st.objs.resize(w);
  }
  st.stack.pop_back();
  if (st.stack.empty()) return;
  Frame &c = st.stack.back();
  if (ci && ci->dst >= 0) c.regs[ci->dst] = ret;
  c.idx++;
}

static string cstr(State &st, Expr *p) {
  string r; if (!p->isConst()) return "?";
  int i = findObj(st, p->v); if (i < 0) return "?";
  for (u64 k = p->v - st.objs[i]->base; k < st.objs[i]->size; k++) { Expr *e = st.objs[i]->b[k]; if (!e || !e->isConst()) return r + "?"; if (!e->v) break; r += (char)e->v; }
  return r;
}

static void doAssert(State &st, Expr *c, const string &kind, const string &label) {
  nAsserts++; gAssertLabels[label]++;
  c = substPC(st, c);
  if (c->isTrue()) return;
  Model m; nAssertQueries++;
  if (query(st, X->Not(c), m) == SAT) {
    violation(st, m, kind, label);
    Model mo; if (query(st, c, mo) == UNSAT) endPath();
    addPC(st, c, mo);
  }
}
static void memcpyOp(State &st, Expr *d, Expr *s, u64 n) {
  if (!n) return;
  Loc ls = resolve(st, s, n, "read");
  vector<Expr *> tmp(n);
  if (!ls.sym) { for (u64 i = 0; i < n; i++) tmp[i] = st.objs[ls.oi]->b[ls.off + i]; if (st.objs[ls.oi]->kind == 2) for (u64 i = 0; i < n; i++) if (!tmp[i]) tmp[i] = uninitByte(st.objs[ls.oi].p, ls.off + i); }
  else for (u64 i = 0; i < n; i++) tmp[i] = loadInt(st, X->Add(s, X->C(i, 64)), 8);
  Loc ld = resolve(st, d, n, "write");
  if (st.objs[ld.oi]->ro) { violation(st, st.model, "memory", "write to read-only data"); endPath(); }
  if (!ld.sym) { Obj *o = writable(st, ld.oi); for (u64 i = 0; i < n; i++) o->b[ld.off + i] = tmp[i] ? tmp[i] : X->C(0xAA, 8); }
  else for (u64 i = 0; i < n; i++) storeInt(st, X->Add(d, X->C(i, 64)), tmp[i] ? tmp[i] : X->C(0xAA, 8));
}
static void memsetOp(State &st, Expr *d, Expr *v, u64 n) {
  if (!n) return;
  Loc ld = resolve(st, d, n, "write"); v = X->Extract(v, 0, 8);
  if (!ld.sym) { Obj *o = writable(st, ld.oi); for (u64 i = 0; i < n; i++) o->b[ld.off + i] = v; }
  else for (u64 i = 0; i < n; i++) storeInt(st, X->Add(d, X->C(i, 64)), v);
}

static Expr *mkInput(State &st, const string &name, unsigned w) {
  string nm = name + "#" + std::to_string(st.inputs.size());
  Expr *e = X->Var(nm, w); st.inputs.push_back(e->v); return e;
}
static Expr *heapAlloc(State &st, Expr *size, bool zero) {
  u64 n = concretise(st, size, "allocation size");
  if (n > (1u << 24)) { violation(st, st.model, "memory", "huge allocation"); endPath(); }
  u64 a = allocate(st, n, 2); Obj *o = st.objs.back().p;
  if (st.inCase) o->allocSeq = st.allocSeq++;
  if (zero) for (u64 i = 0; i < n; i++) o->b[i] = X->C(0, 8);
  return X->C(a, 64);
}
static void heapFree(State &st, Expr *p) {
  u64 v = concretise(st, p, "free"); if (!v) return;
  int i = findObj(st, v);
  if (i < 0 || st.objs[i]->base != v || st.objs[i]->kind != 2) { violation(st, st.model, "memory", "invalid free"); endPath(); }
  st.objs.erase(st.objs.begin() + i);
}

enum CallRes { DONE, PUSHED };
static const string SXP = "sx_";
static CallRes external(State &st, Inst &I, Function *f, vector<Expr *> &a) {
  Frame &fr = st.stack.back(); StringRef nm = f->getName();
  auto ret = [&](Expr *e) { if (I.dst >= 0) st.stack.back().regs[I.dst] = e; };
  (void)fr;
  if (f->isIntrinsic()) {
    switch (f->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = concretise(st, a[2], "length"); memcpyOp(st, a[0], a[1], n); return DONE; }
    case Intrinsic::memset: { u64 n = concretise(st, a[2], "length"); memsetOp(st, a[0], a[1], n); return DONE; }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::vaend: case Intrinsic::experimental_noalias_scope_decl: return DONE;
    case Intrinsic::stacksave: ret(X->C(0, 64)); return DONE;
    case Intrinsic::expect: ret(a[0]); return DONE;
    case Intrinsic::objectsize: ret(X->C(~0ull, I.w)); return DONE;
    case Intrinsic::is_constant: ret(X->F); return DONE;
    case Intrinsic::umin: ret(X->Ite(X->Ult(a[0], a[1]), a[0], a[1])); return DONE;
    case Intrinsic::umax: ret(X->Ite(X->Ult(a[0], a[1]), a[1], a[0])); return DONE;
    case Intrinsic::smin: ret(X->Ite(X->Slt(a[0], a[1]), a[0], a[1])); return DONE;
    case Intrinsic::smax: ret(X->Ite(X->Slt(a[0], a[1]), a[1], a[0])); return DONE;
    case Intrinsic::abs: ret(X->Ite(X->Slt(a[0], X->C(0, I.w)), X->Sub(X->C(0, I.w), a[0]), a[0])); return DONE;
    case Intrinsic::bswap: { Expr *r = X->Extract(a[0], 0, 8); for (unsigned i = 8; i < I.w; i += 8) r = X->Concat(r, X->Extract(a[0], i, 8)); ret(r); return DONE; }
    case Intrinsic::ctpop: { Expr *r = X->C(0, I.w); for (unsigned i = 0; i < I.w; i++) r = X->Add(r, X->ZExt(X->Extract(a[0], i, 1), I.w)); ret(r); return DONE; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      u64 sh = concretise(st, a[2], "shift") % I.w; if (f->getIntrinsicID() == Intrinsic::fshr) sh = (I.w - sh) % I.w;
      ret(sh == 0 ? (f->getIntrinsicID() == Intrinsic::fshr ? a[1] : a[0]) : X->Or(X->Shl(a[0], X->C(sh, I.w)), X->LShr(a[1], X->C(I.w - sh, I.w)))); return DONE; }
    case Intrinsic::usub_sat: ret(X->Ite(X->Ult(a[0], a[1]), X->C(0, I.w), X->Sub(a[0], a[1]))); return DONE;
    case Intrinsic::uadd_sat: { Expr *s = X->Add(a[0], a[1]); ret(X->Ite(X->Ult(s, a[0]), X->C(~0ull, I.w), s)); return DONE; }
    case Intrinsic::umul_with_overflow: { unsigned w = a[0]->w; Expr *ov; if (w <= 32) { Expr *p = X->Mul(X->ZExt(a[0], 2 * w), X->ZExt(a[1], 2 * w)); ov = X->Not(X->Eq(X->Extract(p, w, w), X->C(0, w))); }
        else if (a[1]->isConst() && a[1]->v) ov = X->Ult(X->C(~0ull / a[1]->v, w), a[0]); else if (a[0]->isConst() && a[0]->v) ov = X->Ult(X->C(~0ull / a[0]->v, w), a[1]); else die("umul overflow 64");
        ret(X->Agg({X->Mul(a[0], a[1]), ov})); return DONE; }
    case Intrinsic::uadd_with_overflow: { Expr *s = X->Add(a[0], a[1]); ret(X->Agg({s, X->Ult(s, a[0])})); return DONE; }
    case Intrinsic::usub_with_overflow: ret(X->Agg({X->Sub(a[0], a[1]), X->Ult(a[0], a[1])})); return DONE;
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: { unsigned w = a[0]->w; if (w > 32) die("signed overflow 64"); auto id = f->getIntrinsicID();
        Expr *x = X->SExt(a[0], 2 * w), *y = X->SExt(a[1], 2 * w), *r = id == Intrinsic::sadd_with_overflow ? X->Add(x, y) : id == Intrinsic::ssub_with_overflow ? X->Sub(x, y) : X->Mul(x, y), *t = X->Extract(r, 0, w);
        ret(X->Agg({t, X->Not(X->Eq(X->SExt(t, 2 * w), r))})); return DONE; }
    case Intrinsic::cttz: case Intrinsic::ctlz: { Expr *r = X->C(I.w, I.w); bool lz = f->getIntrinsicID() == Intrinsic::ctlz;
        for (unsigned k = 0; k < I.w; k++) { unsigned i = lz ? k : I.w - 1 - k; r = X->Ite(X->Eq(X->Extract(a[0], i, 1), X->C(1, 1)), X->C(lz ? I.w - 1 - i : i, I.w), r); } ret(r); return DONE; }
    case Intrinsic::ssub_sat: case Intrinsic::sadd_sat: { unsigned w = I.w; if (w > 32) die("signed saturation 64"); Expr *x = X->SExt(a[0], 2 * w), *y = X->SExt(a[1], 2 * w), *r = f->getIntrinsicID() == Intrinsic::sadd_sat ? X->Add(x, y) : X->Sub(x, y);
        Expr *mx = X->C((1ull << (w - 1)) - 1, 2 * w), *mn = X->Sub(X->C(0, 2 * w), X->C(1ull << (w - 1), 2 * w)); r = X->Ite(X->Slt(mx, r), mx, X->Ite(X->Slt(r, mn), mn, r)); ret(X->Extract(r, 0, w)); return DONE; }
    case Intrinsic::bitreverse: { Expr *r = X->Extract(a[0], 0, 1); for (unsigned i = 1; i < I.w; i++) r = X->Concat(r, X->Extract(a[0], i, 1)); ret(r); return DONE; }
    case Intrinsic::trap: violation(st, st.model, "trap", "trap reached"); endPath(); return DONE;
    case Intrinsic::vastart: {
      Frame &f2 = st.stack.back(); u64 n = std::max<size_t>(f2.varargs.size(), 1);
      u64 area = allocate(st, n * 8, 1); f2.allocas.push_back(area);
      for (size_t i = 0; i < f2.varargs.size(); i++) { Expr *v = f2.varargs[i]; if (!v || v->op == AGG || v->w > 64) die("vararg kind"); storeInt(st, X->C(area + 8 * i, 64), X->ZExt(v, 64)); }
      storeInt(st, a[0], X->C(48, 32)); storeInt(st, X->Add(a[0], X->C(4, 64)), X->C(304, 32));
      storeInt(st, X->Add(a[0], X->C(8, 64)), X->C(area, 64)); storeInt(st, X->Add(a[0], X->C(16, 64)), X->C(0, 64));
      return DONE; }
    case Intrinsic::vacopy: memcpyOp(st, a[0], a[1], 24); return DONE;
    default: die("intrinsic %s not supported at %s", nm.str().c_str(), whereOf(st).c_str());
    }
  }
  if (nm.starts_with("sx_")) {
    string n = nm.str();
    if (n == "sx_u8_") { ret(mkInput(st, cstr(st, a[0]), 8)); return DONE; }
    if (n == "sx_u16_") { ret(mkInput(st, cstr(st, a[0]), 16)); return DONE; }
    if (n == "sx_u32_") { ret(mkInput(st, cstr(st, a[0]), 32)); return DONE; }
    if (n == "sx_u64_") { ret(mkInput(st, cstr(st, a[0]), 64)); return DONE; }
    if (n == "sx_assume_") {
      Expr *c = substPC(st, X->Not(X->Eq(a[0], X->C(0, a[0]->w)))); if (c->isTrue()) return DONE;
      Model m; if (query(st, c, m) == UNSAT) { nInfeasible++; endPath(); }
      addPC(st, c, m); return DONE; }
    if (n == "sx_assert_") { doAssert(st, X->Not(X->Eq(a[0], X->C(0, a[0]->w))), "assert", cstr(st, a[1])); return DONE; }
    if (n == "sx_cover_") { gCovers[cstr(st, a[0])]++; return DONE; }
    if (n == "sx_declare_cover_") { gCovers[cstr(st, a[0])] += 0; return DONE; }
    if (n == "sx_observe_") { st.observes.push_back(a[0]); return DONE; }
    if (n == "sx_fork_") { u64 v = concretise(st, a[0], "sx_fork", true); ret(X->C(v, I.w)); return DONE; }
    if (n == "sx_end_") { throw (int)1; }
    if (n == "sx_merge_") { for (auto *q : {&st}) q->mergeLimit = a[0]->v; return DONE; }
    if (n == "sx_msg_") { fprintf(stderr, "[%s]\n", cstr(st, a[0]).c_str()); return DONE; }
    if (n == "sx_val_") { string s; S->evl.begin(); fprintf(stderr, "[%s = %s%llu (e%u %s)]\n", cstr(st, a[0]).c_str(), a[1]->isConst() ? "" : "~", (unsigned long long)S->evl.ev(a[1], st.model), a[1]->id, opName(a[1]->op)); return DONE; }
    if (n == "sx_is_symbolic_") { ret(X->C(1, I.w)); return DONE; }
    die("unknown harness call %s", n.c_str());
  }
  if (nm == "malloc" || nm == "_Znwm" || nm == "_Znam") { ret(heapAlloc(st, a[0], false)); return DONE; }
  if (nm == "_ZnwmRKSt9nothrow_t" || nm == "_ZnamRKSt9nothrow_t") { ret(heapAlloc(st, a[0], false)); return DONE; }
  if (nm == "calloc") { ret(heapAlloc(st, X->Mul(a[0], a[1]), true)); return DONE; }
  if (nm == "realloc") {
    u64 p = concretise(st, a[0], "realloc"); Expr *r = heapAlloc(st, a[1], false);
    if (p) { int i = findObj(st, p); if (i < 0 || st.objs[i]->base != p) { violation(st, st.model, "memory", "invalid realloc"); endPath(); } u64 k = std::min(st.objs[i]->size, concretise(st, a[1], "realloc")); memcpyOp(st, r, X->C(p, 64), k); heapFree(st, X->C(p, 64)); }
    ret(r); return DONE; }
  if (nm == "free" || nm == "_ZdlPv" || nm == "_ZdaPv" || nm == "_ZdlPvm" || nm == "_ZdaPvm") { heapFree(st, a[0]); return DONE; }
  if (nm == "memcpy" || nm == "memmove") { u64 n = concretise(st, a[2], "length"); memcpyOp(st, a[0], a[1], n); ret(a[0]); return DONE; }
  if (nm == "memset") { u64 n = concretise(st, a[2], "length"); memsetOp(st, a[0], a[1], n); ret(a[0]); return DONE; }
  if (nm == "__cxa_atexit") { ret(X->C(0, I.w)); return DONE; }
  if (nm == "__cxa_guard_acquire") { Expr *g = loadInt(st, a[0], 8); u64 v = concretise(st, g, "guard"); ret(X->C(v ? 0 : 1, I.w)); return DONE; }
  if (nm == "__cxa_guard_release") { storeInt(st, a[0], X->C(1, 8)); return DONE; }
  if (nm == "abort" || nm == "__assert_fail" || nm == "_ZSt9terminatev" || nm == "__cxa_pure_virtual" || nm == "__clang_call_terminate" || nm == "_ZSt17__throw_bad_allocv" || nm == "_ZSt20__throw_length_errorPKc" || nm == "__cxa_throw_bad_array_new_length") { violation(st, st.model, "abort", nm.str() + " called"); endPath(); }
  if (nm == "exit" || nm == "_exit") { violation(st, st.model, "abort", "exit called"); endPath(); }
  die("call of external function %s at %s", nm.str().c_str(), whereOf(st).c_str());
}

static void sampleDone(State &st) {
  nPaths++;
  // first few paths, then a sparse selection
  static u64 next = 1;
  if ((int)gSampleFiles.size() < gSamples && nPaths >= next) {
    next = nPaths + 1 + nPaths / 3;
    string fn = gOut + "/" + gCase + ".sample" + std::to_string(gSampleFiles.size()) + ".txt";
    dumpVector(st, st.model, fn, "pass", "-", true); gSampleFiles.push_back(fn);
  }
}

// Runs one state until it ends, forks into the queue or (merging) reaches a merge point.
static void runState(State *sp) {
  State &st = *sp; cur = sp;
  auto V = [&](Frame &f, const Opnd &o) -> Expr * {
    Expr *e = o.reg >= 0 ? f.regs[o.reg] : o.c;
    if (!e) die("undefined operand at %s", whereOf(st).c_str());
    return e; };
  static u64 tick = 0;
  for (;;) {
    if ((++tick & 1023) == 0) {
      double el = nowS() - gStart;
      if (el > gTimeLimit) throw string("timeout");
    }
    nInsts++;
    if (++st.steps > gStepLimit) { violation(st, st.model, "hang", "step limit exceeded (no termination)"); endPath(); }
    Frame &f = st.stack.back(); Block &B = f.fi->blocks[f.bb]; Inst &I = B.insts[f.idx];
    auto set = [&](Expr *e) { f.regs[I.dst] = e; f.idx++; };
    switch (I.opc) {
    case Instruction::Add: set(X->Add(V(f, I.ops[0]), V(f, I.ops[1]))); break;
    case Instruction::Sub: set(X->Sub(V(f, I.ops[0]), V(f, I.ops[1]))); break;
    case Instruction::Mul: set(X->Mul(V(f, I.ops[0]), V(f, I.ops[1]))); break;
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      Expr *a = V(f, I.ops[0]), *b = V(f, I.ops[1]);
      doAssert(st, X->Not(X->Eq(b, X->C(0, b->w))), "arith", "division by zero");
      switch (I.opc) { case Instruction::UDiv: set(X->UDiv(a, b)); break; case Instruction::SDiv: set(X->SDiv(a, b)); break; case Instruction::URem: set(X->URem(a, b)); break; default: set(X->SRem(a, b)); }
      break; }
    case Instruction::And: set(X->And(V(f, I.ops[0]), V(f, I.ops[1]))); break;
    case Instruction::Or: set(X->Or(V(f, I.ops[0]), V(f, I.ops[1]))); break;
    case Instruction::Xor: set(X->Xor(V(f, I.ops[0]), V(f, I.ops[1]))); break;
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      Expr *a = V(f, I.ops[0]), *b = V(f, I.ops[1]);
      if (b->umax >= b->w) doAssert(st, X->Ult(b, X->C(b->w, b->w)), "arith", "shift amount too large");
      set(I.opc == Instruction::Shl ? X->Shl(a, b) : I.opc == Instruction::LShr ? X->LShr(a, b) : X->AShr(a, b));
      break; }
    case Instruction::ICmp: {
      Expr *a = V(f, I.ops[0]), *b = V(f, I.ops[1]), *r;
      switch (cast<ICmpInst>(I.ll)->getPredicate()) {
      case CmpInst::ICMP_EQ: r = X->Eq(a, b); break; case CmpInst::ICMP_NE: r = X->Not(X->Eq(a, b)); break;
      case CmpInst::ICMP_ULT: r = X->Ult(a, b); break; case CmpInst::ICMP_ULE: r = X->Ule(a, b); break;
      case CmpInst::ICMP_UGT: r = X->Ult(b, a); break; case CmpInst::ICMP_UGE: r = X->Ule(b, a); break;
      case CmpInst::ICMP_SLT: r = X->Slt(a, b); break; case CmpInst::ICMP_SLE: r = X->Sle(a, b); break;
      case CmpInst::ICMP_SGT: r = X->Slt(b, a); break; case CmpInst::ICMP_SGE: r = X->Sle(b, a); break;
      default: die("icmp"); }
      set(r); break; }
    case Instruction::Trunc: {
      // a bool loaded from memory that holds neither 0 nor 1 (uninitialised) counts as true, as in compiled code
      Expr *a = V(f, I.ops[0]);
      set(I.w == 1 && a->isConst() && a->v > 1 && I.ll->getOperand(0)->getType()->isIntegerTy(8) ? X->C(1, 1) : X->Extract(a, 0, I.w)); break; }
    case Instruction::ZExt: set(X->ZExt(V(f, I.ops[0]), I.w)); break;
    case Instruction::SExt: set(X->SExt(V(f, I.ops[0]), I.w)); break;
    case Instruction::PtrToInt: set(X->Extract(V(f, I.ops[0]), 0, I.w)); break;
    case Instruction::IntToPtr: set(X->ZExt(V(f, I.ops[0]), 64)); break;
    case Instruction::BitCast: case Instruction::Freeze: set(V(f, I.ops[0])); break;
    case Instruction::Select: { Expr *c = V(f, I.ops[0]), *a = V(f, I.ops[1]), *b = V(f, I.ops[2]);
      if (!c->isConst() && I.ty->isPointerTy() && a != b) { // keep pointers concrete
        Forker k = forkOn(st, c);
        if (k.other) { Frame &g = k.other->stack.back(); g.regs[I.dst] = b; g.idx++; enqueue(k.other); }
        set(k.val ? a : b); break; }
      set(X->Ite(c, a, b)); break; }
    case Instruction::GetElementPtr: {
      Expr *p = V(f, I.ops[0]);
      for (auto &s : I.scaled) { Expr *ix = V(f, I.ops[s.first]); ix = ix->w < 64 ? X->SExt(ix, 64) : ix; p = X->Add(p, X->Mul(ix, X->C((u64)s.second, 64))); }
      if (I.off) p = X->Add(p, X->C((u64)I.off, 64));
      set(p); break; }
    case Instruction::Alloca: {
      auto *al = cast<AllocaInst>(I.ll); Expr *cnt = V(f, I.ops[0]); u64 n = concretise(st, cnt, "alloca");
      u64 a = allocate(st, n * DL->getTypeAllocSize(al->getAllocatedType()), 1); st.stack.back().allocas.push_back(a);
      set(X->C(a, 64)); break; }
    case Instruction::Load: { Expr *v = loadTy(st, V(f, I.ops[0]), I.ty); set(v); break; }
    case Instruction::Store: storeTy(st, V(f, I.ops[1]), V(f, I.ops[0]), cast<StoreInst>(I.ll)->getValueOperand()->getType()); f.idx++; break;
    case Instruction::ExtractValue: { Expr *v = V(f, I.ops[0]); for (unsigned i : I.idx) v = (*v->agg)[i]; set(v); break; }
    case Instruction::InsertValue: {
      Expr *v = V(f, I.ops[0]), *x = V(f, I.ops[1]);
      std::function<Expr *(Expr *, size_t)> ins = [&](Expr *e, size_t d) -> Expr * { if (d == I.idx.size()) return x; vector<Expr *> c = *e->agg; c[I.idx[d]] = ins(c[I.idx[d]], d + 1); return X->Agg(c); };
      set(ins(v, 0)); break; }
    case Instruction::Br: {
      int to;
      if (I.t2 < 0) to = I.t1;
      else {
        Expr *c = V(f, I.ops[0]);
        Forker k = forkOn(st, c);
        if (k.other) { State *o = k.other; enterBlock(*o, I.t2); enterBlock(st, I.t1); enqueue(o); if (mergingOn) { enqueue(sp); return; } break; }
        to = k.val ? I.t1 : I.t2;
      }
      enterBlock(st, to);
      if (mergingOn && f.fi->blocks[to].npreds > 1 && otherStates()) { enqueue(sp); return; }
      break; }
    case Instruction::Switch: {
      Expr *c = V(f, I.ops[0]);
      if (c->isConst()) { int to = I.t1; for (auto &k : I.cases) if (k.first == c->v) { to = k.second; break; } enterBlock(st, to); if (mergingOn && f.fi->blocks[to].npreds > 1 && otherStates()) { enqueue(sp); return; } break; }
      // group by target
      vector<pair<int, Expr *>> tg; Expr *def = X->T;
      for (auto &k : I.cases) { Expr *e = X->Eq(c, X->C(k.first, c->w)); def = X->And(def, X->Not(e)); bool found = false; for (auto &t : tg) if (t.first == k.second) { t.second = X->Or(t.second, e); found = true; } if (!found) tg.push_back({k.second, e}); }
      { bool found = false; for (auto &t : tg) if (t.first == I.t1) { t.second = X->Or(t.second, def); found = true; } if (!found) tg.push_back({I.t1, def}); }
      vector<pair<int, Model>> feas; vector<Expr *> fe;
      for (auto &t : tg) { if (t.second->isFalse()) continue; Model m; Expr *e = substPC(st, t.second); if (e->isTrue()) { feas.clear(); fe.clear(); feas.push_back({t.first, st.model}); fe.push_back(X->T); break; } if (e->isFalse()) continue; if (query(st, e, m) == SAT) { feas.push_back({t.first, m}); fe.push_back(t.second); } }
      if (feas.empty()) die("switch with no feasible target");
      for (size_t i = 1; i < feas.size(); i++) { nForks++; State *o = cloneState(st); addPC(*o, fe[i], feas[i].second); enterBlock(*o, feas[i].first); enqueue(o); }
      if (feas.size() > 1) addPC(st, fe[0], feas[0].second);
      enterBlock(st, feas[0].first);
      if (mergingOn && otherStates()) { enqueue(sp); return; }
      break; }
    case Instruction::Ret: {
      Expr *r = I.ops.empty() ? nullptr : V(f, I.ops[0]);
      bool last = st.stack.size() == 1;
      popFrame(st, r);
      if (last) throw (int)1;
      if (mergingOn && otherStates()) { enqueue(sp); return; }
      break; }
    case Instruction::Unreachable: violation(st, st.model, "unreachable", "unreachable code (undefined behaviour)"); endPath(); break;
    case Instruction::Call: {
      auto *ci = cast<CallInst>(I.ll);
      if (ci->isInlineAsm()) { f.idx++; break; }
      vector<Expr *> args; unsigned na = ci->arg_size();
      Expr *fp = V(f, I.ops[na]);
      u64 fa = concretise(st, fp, "function pointer");
      auto it = funcByAddr.find(fa);
      if (it == funcByAddr.end()) { violation(st, st.model, "memory", fa < 4096 ? "call through null function pointer" : "call through invalid function pointer"); endPath(); }
      Function *cf = it->second;
      for (unsigned i = 0; i < na; i++) { if (ci->getArgOperand(i)->getType()->isMetadataTy()) { args.push_back(nullptr); continue; } Expr *e = I.ops[i].reg >= 0 ? f.regs[I.ops[i].reg] : I.ops[i].c; args.push_back(e); }
      if (cf->isDeclaration()) {
        for (auto *e : args) if (!e && !cf->isIntrinsic()) die("undefined argument");
        external(st, I, cf, args); st.stack.back().idx++; break; }
      FuncInfo *fi = decode(cf);
      for (unsigned i = 0; i < cf->arg_size(); i++) if (i >= args.size() || !args[i]) die("missing argument in call to %s", cf->getName().str().c_str());
      pushFrame(st, fi, args, &I);
      break; }
    default: die("instruction %s not supported at %s", I.ll->getOpcodeName(), whereOf(st).c_str());
    }
  }
}

static bool gTimedOut = false;
// Explore everything reachable from st; finished states (returned from the bottom frame) go to done.
static void explore(State *init, std::function<void(State *)> done) {
  mergingOn = init->mergeLimit > 0; liveStates = 1;
  enqueue(init);
  for (;;) {
    State *s = nullptr;
    if (mergingOn) {
      if (mergeQ.empty()) break;
      auto it = mergeQ.begin();
      auto &grp = it->second.v; size_t &tried = it->second.tried;
      if (grp.size() > 1 && grp.size() > tried) {
        for (size_t i = 0; i < grp.size(); i++) for (size_t j = std::max(i + 1, tried); j < grp.size();) { if (tryMerge(*grp[i], *grp[j])) { delete grp[j]; liveStates--; grp.erase(grp.begin() + j); } else j++; }
      }
      s = grp.back(); grp.pop_back(); tried = grp.size(); if (grp.empty()) mergeQ.erase(it);
    } else { if (dfs.empty()) break; s = dfs.back(); dfs.pop_back(); }
    try { runState(s); }
    catch (PathEnd &) { delete s; liveStates--; }
    catch (int) { done(s); delete s; liveStates--; }
    catch (string &e) { gTimedOut = true; return; }
  }
}

static void initGlobals(State &st) {
  u64 a = 0x08000000;
  for (auto &f : *M) { addrOfFunc[&f] = a; funcByAddr[a] = &f; a += 16; }
  st.nextAddr = 0x10000000;
  for (auto &g : M->globals()) { u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 0; addrOfGlobal[&g] = allocate(st, sz, 0, new string(g.getName().str())); }
  std::function<void(Obj *, u64, const Constant *)> put = [&](Obj *o, u64 off, const Constant *c) {
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { return; }
    if (auto *s = dyn_cast<ConstantDataSequential>(c)) { u64 es = s->getElementByteSize(); if (!s->getElementType()->isIntegerTy()) return; for (unsigned i = 0; i < s->getNumElements(); i++) for (u64 k = 0; k < es; k++) o->b[off + i * es + k] = X->C(s->getElementAsInteger(i) >> (8 * k), 8); return; }
    if (auto *s = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) put(o, off + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
    if (auto *s = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(s->getElementType()); for (unsigned i = 0; i < s->getNumElements(); i++) put(o, off + i * es, c->getAggregateElement(i)); return; }
    Expr *e = constValue(c); if (!e) return;
    unsigned n = (e->w + 7) / 8; if (e->w % 8) e = X->ZExt(e, n * 8);
    for (unsigned k = 0; k < n; k++) o->b[off + k] = X->piece(e, k, n);
  };
  for (auto &g : M->globals()) {
    int i = findObj(st, addrOfGlobal[&g]); Obj *o = st.objs[i].p;
    for (auto &x : o->b) x = X->C(0, 8);
    if (g.hasInitializer()) put(o, 0, g.getInitializer());
  }
  st.nextAddr = 0x7f0000000000ull;
}

static int realMain(int argc, char **argv) {
  string mod;
  for (int i = 1; i < argc; i++) { string a = argv[i];
    if (a == "--case") gCase = argv[++i]; else if (a == "--out") gOut = argv[++i]; else if (a == "--time") gTimeLimit = atof(argv[++i]);
    else if (a == "--steps") gStepLimit = strtoull(argv[++i], 0, 10); else if (a == "--merge") gMergeDefault = atoi(argv[++i]); else if (a == "--samples") gSamples = atoi(argv[++i]);
    else if (a == "-v") gVerbose = true; else mod = a; }
  gStart = nowS(); X = new ExprCtx(); S = new Solver();
  LC = new LLVMContext(); SMDiagnostic err; auto m = parseIRFile(mod, err, *LC);
  if (!m) { err.print("symex", errs()); return 3; }
  M = m.release(); DL = &M->getDataLayout();
  State *st = new State(); initGlobals(*st); st->mergeLimit = 0;
  // static constructors
  vector<pair<u64, Function *>> ctors;
  if (auto *g = M->getGlobalVariable("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer())) for (auto &o : ca->operands()) { auto *cs = cast<ConstantStruct>(o); if (auto *f = dyn_cast<Function>(cs->getOperand(1))) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](const pair<u64, Function *> &a, const pair<u64, Function *> &b) { return a.first < b.first; });
  for (auto &c : ctors) {
    FuncInfo *fi = decode(c.second); State *n = nullptr;
    pushFrame(*st, fi, {}, nullptr);
    explore(st, [&](State *d) { n = new State(*d); });
    if (!n) die("static constructor did not finish");
    st = n;
  }
  Function *cf = M->getFunction(gCase);
  if (!cf || cf->isDeclaration()) die("no such case");
  st->inCase = true; st->mergeLimit = gMergeDefault; st->steps = 0;
  nInsts = 0; for (auto *fi : FIs) fi->callCount = 0;
  pushFrame(*st, decode(cf), {}, nullptr);
  nStatesCreated = 1;
  explore(st, [&](State *d) { sampleDone(*d); });
  string status = !gViol.empty() ? "violation" : gTimedOut ? "timeout" : "ok";
  if (status == "ok") for (auto &c : gCovers) if (!c.second) { status = "vacuous"; gError += "cover not reached: " + c.first + "; "; }
  writeResult(status);
  if (gVerbose) { for (auto &p : gForkSites) fprintf(stderr, "%8llu fork %s\n", (unsigned long long)p.second, p.first.c_str()); for (auto &p : gRefuse) fprintf(stderr, "%8llu refuse %s\n", (unsigned long long)p.second, p.first.c_str()); }
  fprintf(stderr, "symex: %s: %s paths=%llu forks=%llu merges=%llu insts=%llu queries=%llu (%.1fs) cache=%llu model=%llu asserts=%llu wall=%.1fs\n", gCase.c_str(), status.c_str(), (unsigned long long)nPaths, (unsigned long long)nForks, (unsigned long long)nMerges, (unsigned long long)nInsts, (unsigned long long)S->nQueries, S->tSolve, (unsigned long long)S->nCache, (unsigned long long)S->nModelHit, (unsigned long long)nAsserts, nowS() - gStart);
  fflush(stderr);
  _exit(status == "ok" ? 0 : status == "violation" ? 1 : 2);
}
static int gArgc; static char **gArgv; static int gRet;
static void *threadMain(void *) { gRet = realMain(gArgc, gArgv); return nullptr; }
int main(int argc, char **argv) {
  gArgc = argc; gArgv = argv;
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, (size_t)2 << 30);
  pthread_t t; if (pthread_create(&t, &at, threadMain, nullptr)) { perror("pthread"); return 3; }
  pthread_join(t, nullptr); return gRet;
}
