// symex: symbolic execution of LLVM bitcode. Inputs (hv_sym) are bit-vector variables;
// every feasible path is explored; branch feasibility and assertions are decided by Z3
// (conditions over one unconstrained byte: by its 256-entry truth table).
#include "expr.h"
#include <llvm/ADT/APInt.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <map>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using namespace llvm;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Val { u64 v; u32 e; u32 pad; };

// ------------------------------------------------------------------ bytecode
enum Op : u16 { O_NOP, O_MOV, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
  O_ICMP, O_ZEXT, O_SEXT, O_TRUNC, O_SELECT, O_GEP, O_GEPC, O_LOAD, O_STORE, O_BR, O_CBR, O_SWITCH, O_CALL, O_CALLI, O_RET, O_TRAP,
  O_ALLOCA, O_ALLOCAD, O_MEMCPY, O_MEMSET, O_OVF, O_UN, O_BIN2, O_FSH, O_EXT, O_WIDE, O_FP, O_REPACK, O_EXTELT, O_INSELT, O_PSAD, O_RMW, O_CMPXCHG };
struct Ins { u16 op; u8 w, k; s32 d, a, b, c; u32 x; u64 imm; };
enum Un { U_CTPOP, U_CTLZ, U_CTTZ, U_BSWAP, U_ABS, U_BITREV };
enum Bin2 { B_UMIN, B_UMAX, B_SMIN, B_SMAX, B_UADDS, B_USUBS, B_SADDS, B_SSUBS };
enum Ovf { V_UADD, V_USUB, V_UMUL, V_SADD, V_SSUB, V_SMUL };

struct SwitchT { std::vector<std::pair<u64, u32>> cases; u32 def; };
struct RepackT { std::vector<s32> src; unsigned sw, dn, dw; };
struct Fn {
  Function *F = nullptr; std::string name; int ext = -1;
  bool ready = false; std::vector<Ins> code; std::vector<Val> K; std::vector<s32> aux;
  std::vector<SwitchT> sw; std::vector<RepackT> rp;
  u32 nregs = 0, nargs = 0, frame = 0; bool repo = false;
};

static const u64 ARENA = 0x200000000000ull, ASIZE = 1ull << 30, SHADOW = 0x300000000000ull;
static const u64 FNBASE = 0x100000000000ull;
static const u64 STACKSZ = 64ull << 20;
static u8 *lineFlag; static u32 *lineEpoch;

struct Frame { Fn *fn; u32 base; s32 retd; const Ins *retip; u64 sp; };

struct Constraint { u32 e; };
struct ChoicePoint {
  size_t trail; u32 epoch; std::vector<Frame> frames; std::vector<Val> regs; const Ins *ip; u64 sp;
  size_t ncons, nknown; std::vector<Dom> dom; std::vector<u64> altModel; bool pending; u32 cond; bool altVal;
  u64 bump; u32 nsym; u64 pathIns; std::vector<std::pair<u32,u32>> texts; u32 depth; std::string textbuf;
};
struct TrailRec { u32 line, oldEpoch; u8 flag; u8 data[64]; u32 sh; };

struct Viol { u32 used; u32 code; char kind[16]; u64 key; char data[6000]; };
struct Sample { u32 used; char data[4000]; };
struct Shared {
  std::atomic<int> active, maxw, stop, nviol, nsample, errors;
  std::atomic<u64> paths, pruned, instrs, decides, implied, domdec, z3q, z3us, z3sat, z3unsat, z3unk, z3max, cachehit, asserts, assertsSym, forks, exprs, pcchecks, maxdepth, symvars, cps;
  std::atomic<u64> violcount;
  std::atomic<double> deadline;
  std::atomic<u64> reach[512];
  std::atomic<u64> checkn[512], checksym[512];
  Viol viol[64]; Sample sample[64]; char err[4000];
  std::atomic<u8> fnUsed[40000];
};
static Shared *sh;
struct PathEnd {};
struct Backtracked {};

struct Engine {
  Module *M; const DataLayout *DL; LLVMContext *ctx;
  ExprPool P;
  std::vector<Fn *> fns; std::unordered_map<const Function *, u32> fnIdx;
  std::unordered_map<const GlobalVariable *, u64> gaddr;
  u64 gtop = ARENA + 4096, stackBase, heapBase, freeHeads;
  // state
  Val *regs; std::vector<Frame> frames; u64 sp; const Ins *cur; u64 bump; u32 nsym = 0;
  std::vector<Constraint> cons; std::unordered_map<u32, u64> known; std::vector<u32> knownLog;
  std::vector<Dom> dom; std::vector<u64> model; std::vector<u32> multi;
  std::vector<ChoicePoint> cps; u32 epochCtr = 0, curEpoch = 0;
  std::vector<TrailRec> trail; std::vector<u32> trailSh;
  u64 pathIns = 0, totIns = 0, flushed = 0; double lastDonate = 0;
  std::string textbuf; // encoded text captures: list of Val
  std::vector<std::pair<u32, u32>> texts; // (expr or 0, byte)
  // config
  u32 harness = 0; std::vector<u32> params; u64 maxPathIns = 400000000ull; bool concrete = false; std::vector<u64> inputs; bool traceDec = false; bool z3all = true;
  Z3_solver zs; std::unordered_map<std::string, int> qcache; std::unordered_map<std::string, std::vector<u64>> qmodel;
  unsigned z3Timeout = 60000; bool isRoot = true;

  [[noreturn]] void fatal(const std::string &s) {
    std::string m = s + "\n" + stackTrace();
    if (sh) { sh->errors++; strncpy(sh->err, m.c_str(), sizeof sh->err - 1); sh->stop = 1; }
    fprintf(stderr, "symex: fatal: %s\n", m.c_str());
    _exit(3);
  }

  // ---------------------------------------------------------------- memory
  static bool inArena(u64 a, u64 n) { return a >= ARENA + 4096 && a + n <= ARENA + ASIZE && n <= ASIZE; }
  void saveLine(u32 l) {
    TrailRec r; r.line = l; r.oldEpoch = lineEpoch[l]; r.flag = lineFlag[l];
    memcpy(r.data, (void *)(ARENA + (u64)l * 64), 64);
    r.sh = ~0u;
    if (r.flag) { r.sh = trailSh.size(); u32 *s = (u32 *)(SHADOW + (u64)l * 256); trailSh.insert(trailSh.end(), s, s + 64); }
    trail.push_back(r); lineEpoch[l] = curEpoch;
  }
  inline void touch(u64 a, u64 n) {
    u32 l0 = (a - ARENA) >> 6, l1 = (a + n - 1 - ARENA) >> 6;
    for (u32 l = l0; l <= l1; l++) if (unlikely(lineEpoch[l] < curEpoch)) saveLine(l);
  }
  void undo(size_t to) {
    while (trail.size() > to) {
      TrailRec &r = trail.back();
      memcpy((void *)(ARENA + (u64)r.line * 64), r.data, 64);
      if (r.sh != ~0u) { memcpy((void *)(SHADOW + (u64)r.line * 256), &trailSh[r.sh], 256); trailSh.resize(r.sh); }
      lineFlag[r.line] = r.flag; lineEpoch[r.line] = r.oldEpoch;
      trail.pop_back();
    }
  }
  inline bool anySym(u64 a, u64 n) { u32 l0 = (a - ARENA) >> 6, l1 = (a + n - 1 - ARENA) >> 6; for (u32 l = l0; l <= l1; l++) if (lineFlag[l]) return true; return false; }
  static u32 *shp(u64 a) { return (u32 *)(SHADOW + (a - ARENA) * 4); }
  void badAccess(u64 a, u64 n, const char *what) {
    char b[200]; snprintf(b, sizeof b, "invalid %s of %llu bytes at %llx", what, (unsigned long long)n, (unsigned long long)a);
    violation("memory", 0, b, fnv(b)); throw PathEnd();
  }
  inline Val loadMem(u64 a, unsigned w) {
    unsigned n = (w + 7) / 8;
    if (unlikely(!inArena(a, n))) badAccess(a, n, "read");
    u32 l0 = (a - ARENA) >> 6, l1 = (a + n - 1 - ARENA) >> 6;
    if (likely(!(lineFlag[l0] | lineFlag[l1]))) {
      u64 v = 0;
      switch (n) { case 8: v = *(u64 *)a; break; case 4: v = *(u32 *)a; break; case 1: v = *(u8 *)a; break; case 2: v = *(u16 *)a; break; default: memcpy(&v, (void *)a, n); }
      return {v & mask(w), 0, 0};
    }
    return loadSym(a, w, n);
  }
  Val loadSym(u64 a, unsigned w, unsigned n) {
    u32 s[8]; bool any = false;
    for (unsigned i = 0; i < n; i++) { s[i] = lineFlag[(a + i - ARENA) >> 6] ? shp(a)[i] : 0; any |= s[i] != 0; }
    u64 v = 0; memcpy(&v, (void *)a, n);
    if (!any) return {v & mask(w), 0, 0};
    u32 e = s[0] ? s[0] : P.C(v & 255, 8);
    // build from low to high, merging
    for (unsigned i = 1; i < n; i++) { u32 h = s[i] ? s[i] : P.C((v >> (8 * i)) & 255, 8); e = P.mk(E_CONCAT, 8 * (i + 1), h, e); }
    if (w < n * 8) e = P.mk(E_EXTRACT, w, e, 0, 0, 0);
    return mkv(e);
  }
  Val mkv(u32 e) { if (P.isC(e)) return {P.cv(e), 0, 0}; return {0, e, 0}; }
  inline void storeMem(u64 a, unsigned w, Val x) {
    unsigned n = (w + 7) / 8;
    if (unlikely(!inArena(a, n))) badAccess(a, n, "write");
    touch(a, n);
    u32 l0 = (a - ARENA) >> 6, l1 = (a + n - 1 - ARENA) >> 6;
    if (likely(!x.e)) {
      switch (n) { case 8: *(u64 *)a = x.v; break; case 4: *(u32 *)a = x.v; break; case 1: *(u8 *)a = x.v; break; case 2: *(u16 *)a = x.v; break; default: memcpy((void *)a, &x.v, n); }
      if (unlikely(lineFlag[l0] | lineFlag[l1])) memset(shp(a), 0, 4 * n);
      return;
    }
    u32 e = x.e; if (w < n * 8) e = P.mk(E_ZEXT, n * 8, e);
    u32 *s = shp(a);
    for (u32 l = l0; l <= l1; l++) if (!lineFlag[l]) { memset((void *)(SHADOW + (u64)l * 256), 0, 256); lineFlag[l] = 1; }
    for (unsigned i = 0; i < n; i++) {
      u32 b = P.mk(E_EXTRACT, 8, e, 0, 0, 8 * i);
      if (P.isC(b)) { ((u8 *)a)[i] = P.cv(b); s[i] = 0; } else { ((u8 *)a)[i] = 0; s[i] = b; }
    }
  }
  void copyMem(u64 d, u64 s, u64 n) {
    if (!n) return;
    if (!inArena(s, n)) badAccess(s, n, "read");
    if (!inArena(d, n)) badAccess(d, n, "write");
    if (d == s) return;
    touch(d, n);
    bool ss = anySym(s, n), ds = anySym(d, n);
    memmove((void *)d, (void *)s, n);
    if (ss) {
      // source lines without flag have stale shadow: clean it first
      u32 l0 = (s - ARENA) >> 6, l1 = (s + n - 1 - ARENA) >> 6;
      for (u32 l = l0; l <= l1; l++) if (!lineFlag[l]) memset((void *)(SHADOW + (u64)l * 256), 0, 256);
      u32 d0 = (d - ARENA) >> 6, d1 = (d + n - 1 - ARENA) >> 6;
      for (u32 l = d0; l <= d1; l++) if (!lineFlag[l]) { if (l < l0 || l > l1) memset((void *)(SHADOW + (u64)l * 256), 0, 256); }
      memmove(shp(d), shp(s), 4 * n);
      for (u32 l = d0; l <= d1; l++) if (!lineFlag[l]) {
        u32 *q = (u32 *)(SHADOW + (u64)l * 256); bool any = false; for (int i = 0; i < 64; i++) any |= q[i] != 0; if (any) lineFlag[l] = 1; }
    } else if (ds) memset(shp(d), 0, 4 * n);
  }
  void setMem(u64 d, Val v, u64 n) {
    if (!n) return;
    if (!inArena(d, n)) badAccess(d, n, "write");
    if (v.e) { for (u64 i = 0; i < n; i++) storeMem(d + i, 8, v); return; }
    touch(d, n); memset((void *)d, (int)v.v, n);
    if (anySym(d, n)) memset(shp(d), 0, 4 * n);
  }
  // heap: size classes with free lists kept in guest memory (so that backtracking restores them)
  static unsigned cls(u64 n) { if (n < 16) n = 16; unsigned b = 63 - __builtin_clzll(n); u64 lo = 1ull << b; if (n == lo) return b * 4; u64 q = lo / 4; unsigned k = (n - lo + q - 1) / q; return b * 4 + k; }
  static u64 clsSize(unsigned c) { u64 lo = 1ull << (c / 4); u64 s = lo + lo / 4 * (c % 4); return (s + 15) & ~15ull; }
  u64 gAlloc(u64 n, u64 align) {
    if (n > ASIZE / 2) return 0;
    unsigned c = cls(n); u64 s = clsSize(c), head = freeHeads + 8 * c;
    if (align <= 16) { u64 p = *(u64 *)head; if (p) { Val nx = loadMem(p, 64); storeMem(head, 64, nx); return p; } }
    u64 al = align < 16 ? 16 : align; u64 p = (bump + al - 1) & ~(al - 1);
    bump = p + s;
    if (bump > ARENA + ASIZE) fatal("guest heap exhausted");
    return p;
  }
  void gFree(u64 p, u64 n, u64 align) {
    if (!p) return;
    unsigned c = cls(n); u64 head = freeHeads + 8 * c;
    if (align > 16) return;
    storeMem(p, 64, {*(u64 *)head, 0, 0}); storeMem(head, 64, {p, 0, 0});
  }

  // ---------------------------------------------------------------- solver
  static u64 fnv(const std::string &s) { u64 h = 1469598103934665603ull; for (u8 c : s) { h ^= c; h *= 1099511628211ull; } return h; }
  void closure(u32 e, std::vector<u32> &out) {
    std::vector<char> in(P.vars.size(), 0); std::vector<char> used(cons.size(), 0);
    for (u16 v : P.sets[P.n[e].vs]) in[v] = 1;
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < cons.size(); i++) if (!used[i]) {
        auto &s = P.sets[P.n[cons[i].e].vs]; bool hit = false;
        for (u16 v : s) if (in[v]) { hit = true; break; }
        if (hit) { used[i] = 1; ch = true; out.push_back(cons[i].e); for (u16 v : s) in[v] = 1; }
      }
    }
  }
  // is PC & e satisfiable?  m receives a model of PC & e
  int checkSat(u32 e, std::vector<u64> &m, bool all = false) {
    std::vector<u32> cs;
    if (all) for (auto &c : cons) cs.push_back(c.e); else closure(e, cs);
    cs.push_back(e); std::sort(cs.begin(), cs.end()); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    std::string key((char *)cs.data(), cs.size() * 4);
    auto it = qcache.find(key); int r; std::vector<u64> zm;
    if (it != qcache.end()) { r = it->second; sh->cachehit++; if (r == 1) zm = qmodel[key]; }
    else {
      double t0 = now();
      Z3_solver_reset(P.zc, zs);
      Z3_ast one = Z3_mk_unsigned_int64(P.zc, 1, Z3_mk_bv_sort(P.zc, 1));
      for (u32 c : cs) Z3_solver_assert(P.zc, zs, Z3_mk_eq(P.zc, P.toZ3(c), one));
      Z3_lbool lb = Z3_solver_check(P.zc, zs);
      r = lb == Z3_L_TRUE ? 1 : lb == Z3_L_FALSE ? 0 : -1;
      if (r == 1) {
        Z3_model zmod = Z3_solver_get_model(P.zc, zs); Z3_model_inc_ref(P.zc, zmod);
        std::set<u16> vs; for (u32 c : cs) for (u16 v : P.sets[P.n[c].vs]) vs.insert(v);
        for (u16 v : vs) {
          Z3_ast val = nullptr; u64 x = 0;
          if (Z3_model_eval(P.zc, zmod, P.toZ3(P.vars[v].expr), true, &val)) Z3_get_numeral_uint64(P.zc, val, (uint64_t *)&x);
          zm.push_back(v); zm.push_back(x);
        }
        Z3_model_dec_ref(P.zc, zmod);
      }
      u64 us = (now() - t0) * 1e6; sh->z3q++; sh->z3us += us; if (us > sh->z3max) sh->z3max = us;
      (r == 1 ? sh->z3sat : r == 0 ? sh->z3unsat : sh->z3unk)++;
      if (qcache.size() > 200000) { qcache.clear(); qmodel.clear(); }
      qcache[key] = r; if (r == 1) qmodel[key] = zm;
    }
    if (r < 0) fatal("solver returned unknown");
    if (r == 1) { m = model; m.resize(P.vars.size(), 0); for (size_t i = 0; i < zm.size(); i += 2) m[zm[i]] = zm[i + 1];
      if (!P.eval(e, m)) fatal("model does not satisfy the query");
    }
    return r;
  }
  void addCons(u32 e) {  // e : 1 bit, assumed true
    if (P.isC(e)) return;
    const Expr E = P.n[e];
    if (E.op == E_AND && E.w == 1) { setKnown(e, 1); addCons(E.a); addCons(E.b); return; }
    cons.push_back({e}); setKnown(e, 1);
    u32 ne = P.notOf(e); if (ne) setKnown(ne, 0);
    auto &s = P.sets[E.vs];
    int bv = P.byteVar(e);
    if (bv >= 0) { const Table &t = P.table(e); for (int i = 0; i < 256; i++) if (!t.v[i]) dom[bv].reset(i); }
    else for (u16 v : s) multi[v]++;
  }
  void setKnown(u32 e, u64 v) { if (known.emplace(e, v).second) knownLog.push_back(e); }
  void rollCons(size_t n) {
    while (cons.size() > n) { u32 e = cons.back().e; if (P.byteVar(e) < 0) for (u16 v : P.sets[P.n[e].vs]) multi[v]--; cons.pop_back(); }
  }
  // Value of boolean e on this path; forks when both are feasible.
  bool decide(u32 e) {
    if (P.isC(e)) return P.cv(e);
    u32 ne = P.notOf(e); if (ne) return !decide(ne);
    auto it = known.find(e); if (it != known.end()) return it->second;
    sh->decides++;
    model.resize(P.vars.size(), 0);
    int bv = P.byteVar(e); bool s0; std::vector<u64> alt; bool both;
    if (bv >= 0) {
      const Table &t = P.table(e); int fT = -1, fF = -1; s0 = t.v[model[bv]];
      for (int i = 0; i < 256; i++) if (dom[bv][i]) { if (t.v[i]) { if (fT < 0) fT = i; } else if (fF < 0) fF = i; }
      if (fT < 0 || fF < 0) {
        sh->implied++;
        if (z3all) { std::vector<u64> m; if (checkSat(fT < 0 ? e : P.lnot(e), m) != 0) fatal("truth table and solver disagree"); }
        bool r = fT >= 0; setKnown(e, r); return r; }
      if (multi[bv] == 0) { both = true; alt = model; alt[bv] = s0 ? fF : fT; sh->domdec++; }
      else both = checkSat(s0 ? P.lnot(e) : e, alt) == 1;
    } else {
      s0 = P.eval(e, model) & 1;
      both = checkSat(s0 ? P.lnot(e) : e, alt) == 1;
    }
    if (!both) { sh->implied++; setKnown(e, s0); return s0; }
    if (concrete) { addCons(s0 ? e : P.lnot(e)); setKnown(e, s0); return s0; }
    pushCP(e, !s0, std::move(alt));
    addCons(s0 ? e : P.lnot(e)); setKnown(e, s0);
    maybeDonate();
    return s0;
  }
  u64 concretize(Val x, unsigned w) {
    if (!x.e) return x.v;
    auto it = known.find(x.e); if (it != known.end()) return it->second;
    for (int i = 0;; i++) {
      model.resize(P.vars.size(), 0);
      u64 v = P.eval(x.e, model);
      if (decide(P.mk(E_EQ, 1, x.e, P.C(v, P.width(x.e))))) { setKnown(x.e, v); return v; }
      if (i > 5000) fatal("unbounded concretisation");
    }
  }
  // replaces expressions that are constant under the byte's current domain
  Val norm(u32 e) {
    if (P.isC(e)) return {P.cv(e), 0, 0};
    int bv = P.byteVar(e);
    if (bv >= 0) {
      const Table &t = P.table(e); bool first = true, same = true; u64 v = 0; const Dom &d = dom[bv];
      for (int i = 0; i < 256; i++) if (d[i]) { if (first) { v = t.v[i]; first = false; } else if (t.v[i] != v) { same = false; break; } }
      if (same && !first) {
        if (z3all && !concrete && P.n[e].w == 1 && !known.count(e)) { // the solver confirms what the byte's domain implies
          std::vector<u64> m; if (checkSat(v ? P.lnot(e) : e, m) != 0) fatal("byte domain and solver disagree"); setKnown(e, v); }
        return {v, 0, 0}; }
    } else if (P.n[e].w == 1) {
      const Expr &E = P.n[e];
      if ((E.op == E_EQ) && E.a && E.b) {
        int va = P.byteVar(E.a), vb = P.byteVar(E.b);
        if (va >= 0 && vb >= 0 && va != vb && P.n[E.a].w == 8) {
          Dom A, B; u32 ea = E.a, eb = E.b;
          { const Table &t = P.table(ea); for (int i = 0; i < 256; i++) if (dom[va][i]) A.set(t.v[i] & 255); }
          { const Table &t = P.table(eb); for (int i = 0; i < 256; i++) if (dom[vb][i]) B.set(t.v[i] & 255); }
          if ((A & B).none()) {
            if (z3all && !concrete && !known.count(e)) { std::vector<u64> m; if (checkSat(e, m) != 0) fatal("byte domains and solver disagree"); setKnown(e, 0); }
            return {0, 0, 0}; }
        }
      }
      auto it = known.find(e); if (it != known.end()) return {it->second, 0, 0};
    }
    return {0, e, 0};
  }

  // ---------------------------------------------------------------- choice points
  void pushCP(u32 cond, bool altVal, std::vector<u64> alt) {
    cps.emplace_back(); ChoicePoint &c = cps.back();
    c.trail = trail.size(); c.frames = frames; Frame &f = frames.back();
    c.regs.assign(regs, regs + f.base + f.fn->nregs); c.ip = cur; c.sp = sp; c.ncons = cons.size(); c.nknown = knownLog.size();
    c.dom = dom; c.altModel = std::move(alt); c.pending = true; c.cond = cond; c.altVal = altVal; c.bump = bump; c.nsym = nsym; c.pathIns = pathIns;
    c.texts = texts;
    c.epoch = ++epochCtr; curEpoch = c.epoch; sh->cps++;
    if (cps.size() > sh->maxdepth) sh->maxdepth = cps.size();
  }
  // restores the top choice point and takes its alternative; pops it
  bool backtrack() {
    while (!cps.empty() && !cps.back().pending) {
      ChoicePoint &c = cps.back(); undo(c.trail); cps.pop_back(); // exhausted: state below is restored by older points
      curEpoch = cps.empty() ? 0 : cps.back().epoch;
    }
    if (cps.empty()) return false;
    ChoicePoint &c = cps.back();
    undo(c.trail);
    frames = c.frames; memcpy(regs, c.regs.data(), c.regs.size() * sizeof(Val)); cur = c.ip; sp = c.sp; bump = c.bump; nsym = c.nsym; pathIns = c.pathIns; texts = c.texts;
    rollCons(c.ncons);
    while (knownLog.size() > c.nknown) { known.erase(knownLog.back()); knownLog.pop_back(); }
    dom = c.dom; model = c.altModel; dom.resize(P.vars.size(), Dom().set()); multi.resize(P.vars.size(), 0);
    u32 cond = c.cond; bool av = c.altVal;
    cps.pop_back(); curEpoch = cps.empty() ? 0 : cps.back().epoch;
    addCons(av ? cond : P.lnot(cond)); setKnown(cond, av);
    return true;
  }
  void maybeDonate() {
    if (sh->active.load(std::memory_order_relaxed) >= sh->maxw.load(std::memory_order_relaxed)) return;
    if (now() - lastDonate < 0.01) return;
    size_t i = 0; while (i < cps.size() && !cps[i].pending) i++;
    if (i >= cps.size() || (i + 1 == cps.size() && cps.size() > 0 && false)) return;
    int a = sh->active.fetch_add(1);
    if (a >= sh->maxw) { sh->active--; return; }
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) { sh->active--; return; }
    if (p > 0) { cps[i].pending = false; lastDonate = now(); sh->forks++; return; }
    // child: takes choice point i only
    isRoot = false; prctl(PR_SET_PDEATHSIG, SIGKILL, 0, 0, 0); prctl(PR_SET_PDEATHSIG, 0, 0, 0, 0);
    totIns = flushed = 0; lastDonate = now();
    while (cps.size() > i + 1) { undo(cps.back().trail); cps.pop_back(); }
    for (size_t j = 0; j < i; j++) cps[j].pending = false;
    throw Backtracked();
  }

  // ---------------------------------------------------------------- reports
  std::string stackTrace() {
    std::string s; int n = 0;
    for (size_t i = frames.size(); i-- > 0 && n < 40; n++) { s += frames[i].fn->name; s += "\n"; }
    return s;
  }
  static std::string jesc(const std::string &s) {
    std::string o; char b[8];
    for (u8 c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o;
  }
  std::string inputsJson(const std::vector<u64> &m) {
    // values of the symbols in creation order
    std::string s = "["; char b[64];
    for (u32 i = 0; i < nsym; i++) {
      u64 v = 0; unsigned w = 0;
      for (size_t j = 0; j < P.vars.size(); j++) if (P.vars[j].order == i && symW.size() > i && P.vars[j].w == symW[i]) { v = j < m.size() ? m[j] : 0; w = P.vars[j].w; }
      snprintf(b, sizeof b, "%s[%u,%llu]", i ? "," : "", w, (unsigned long long)v); s += b;
    }
    return s + "]";
  }
  std::vector<u32> symW;
  std::string textJson(const std::vector<u64> &m) {
    std::string t;
    for (auto &p : texts) t += (char)(p.first ? P.eval(p.first, m) : p.second);
    return jesc(t);
  }
  void violation(const char *kind, u32 code, const std::string &msg, u64 key, const std::vector<u64> *mm = nullptr) {
    const std::vector<u64> &m = mm ? *mm : model;
    sh->violcount++;
    for (int i = 0; i < 64; i++) if (sh->viol[i].used && sh->viol[i].key == key) return;
    int i = sh->nviol.fetch_add(1);
    if (i >= 64) return;
    Viol &v = sh->viol[i]; v.code = code; v.key = key; strncpy(v.kind, kind, 15);
    std::string d = "{\"kind\":\"" + std::string(kind) + "\",\"code\":" + std::to_string(code) + ",\"msg\":\"" + jesc(msg) + "\",\"inputs\":" + inputsJson(m) + ",\"text\":\"" + textJson(m) + "\",\"stack\":\"";
    std::string st; int n = 0; for (size_t j = frames.size(); j-- > 0 && n < 12; n++) st += frames[j].fn->name.substr(0, 120) + " | ";
    d += jesc(st) + "\"}";
    if (d.size() >= sizeof v.data) d = "{\"kind\":\"" + std::string(kind) + "\",\"code\":" + std::to_string(code) + ",\"msg\":\"" + jesc(msg) + "\",\"inputs\":" + inputsJson(m) + ",\"text\":\"\",\"stack\":\"\"}";
    strncpy(v.data, d.c_str(), sizeof v.data - 1); v.used = 1;
    double dl = now() + 15; if (dl < sh->deadline) sh->deadline = dl;
  }
  void flush() { sh->instrs += totIns - flushed; flushed = totIns; if (P.n.size() > sh->exprs) sh->exprs = P.n.size(); if (P.vars.size() > sh->symvars) sh->symvars = P.vars.size(); }
  void pathDone() {
    u64 k = sh->paths.fetch_add(1); flush();
    if (concrete) return;
    // the whole path condition, decided by the solver
    if (!cons.empty() && (z3all || k % 16 == 0)) {
      std::vector<u64> m; u32 last = cons.back().e;
      if (checkSat(last, m, true) != 1) fatal("path condition of a completed path is unsatisfiable");
      sh->pcchecks++;
    }
    if ((k & (k - 1)) == 0) {
      int i = sh->nsample.fetch_add(1);
      if (i < 64) { std::string d = "{\"path\":" + std::to_string(k) + ",\"inputs\":" + inputsJson(model) + ",\"text\":\"" + textJson(model) + "\"}"; if (d.size() < sizeof sh->sample[i].data) { strcpy(sh->sample[i].data, d.c_str()); sh->sample[i].used = 1; } }
    }
    if (sh->stop || now() > sh->deadline) { sh->stop = 1; throw int(1); }
  }
#include "translate.inc"
#include "interp.inc"
};

int main(int argc, char **argv) {
  std::string bc; int workers = 8; double tmo = 600; Engine E; bool listInputs = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--harness") E.harness = atoi(argv[++i]);
    else if (a == "--param") E.params.push_back(strtoul(argv[++i], 0, 0));
    else if (a == "--workers") workers = atoi(argv[++i]);
    else if (a == "--timeout") tmo = atof(argv[++i]);
    else if (a == "--max-path") E.maxPathIns = strtoull(argv[++i], 0, 0);
    else if (a == "--no-z3-all") E.z3all = false;
    else if (a == "--trace") E.traceDec = true;
    else if (a == "--concrete") E.concrete = true;
    else if (a == "--input") E.inputs.push_back(strtoull(argv[++i], 0, 0));
    else bc = a;
  }
  (void)listInputs;
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(bc, err, ctx);
  if (!M) { err.print("symex", errs()); return 2; }
  sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->active = 1; sh->maxw = E.concrete ? 1 : workers; sh->deadline = now() + tmo;
  if (!E.concrete) prctl(PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0);
  E.P.onBad = [&] { fprintf(stderr, "%s", E.stackTrace().c_str()); };
  int rc = E.start(M.get(), ctx);
  E.flush();
  sh->active--;
  if (!E.isRoot) _exit(rc);
  // wait for all workers
  for (;;) { int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) { if (errno == EINTR) continue; break; }
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { sh->errors++; if (!sh->err[0]) snprintf(sh->err, sizeof sh->err, "worker ended with status %x", st); } }
  bool incomplete = sh->stop || rc;
  printf("{\"complete\":%s,\"errors\":%d,\"error\":\"%s\",\"paths\":%llu,\"pruned\":%llu,\"instructions\":%llu,\"decisions\":%llu,\"implied\":%llu,\"table_forks\":%llu,\"solver_queries\":%llu,\"solver_sat\":%llu,\"solver_unsat\":%llu,\"solver_s\":%.3f,\"solver_max_ms\":%.1f,\"cache_hits\":%llu,\"asserts\":%llu,\"asserts_symbolic\":%llu,\"forks\":%llu,\"pc_checks\":%llu,\"max_depth\":%llu,\"choice_points\":%llu,\"expressions\":%llu,\"symbols\":%llu,\"violation_paths\":%llu,",
         incomplete ? "false" : "true", (int)sh->errors, Engine::jesc(sh->err).c_str(), (unsigned long long)sh->paths, (unsigned long long)sh->pruned, (unsigned long long)sh->instrs, (unsigned long long)sh->decides, (unsigned long long)sh->implied,
         (unsigned long long)sh->domdec, (unsigned long long)sh->z3q, (unsigned long long)sh->z3sat, (unsigned long long)sh->z3unsat, sh->z3us / 1e6, sh->z3max / 1e3, (unsigned long long)sh->cachehit, (unsigned long long)sh->asserts, (unsigned long long)sh->assertsSym,
         (unsigned long long)sh->forks, (unsigned long long)sh->pcchecks, (unsigned long long)sh->maxdepth, (unsigned long long)sh->cps, (unsigned long long)sh->exprs, (unsigned long long)sh->symvars, (unsigned long long)sh->violcount);
  printf("\"reach\":{"); bool f = true; for (int i = 0; i < 512; i++) if (sh->reach[i]) { printf("%s\"%d\":%llu", f ? "" : ",", i, (unsigned long long)sh->reach[i]); f = false; }
  printf("},\"checks\":{"); f = true; for (int i = 0; i < 512; i++) if (sh->checkn[i]) { printf("%s\"%d\":[%llu,%llu]", f ? "" : ",", i, (unsigned long long)sh->checkn[i], (unsigned long long)sh->checksym[i]); f = false; }
  printf("},\"violations\":["); f = true; for (int i = 0; i < 64; i++) if (sh->viol[i].used) { printf("%s%s", f ? "" : ",", sh->viol[i].data); f = false; }
  printf("],\"samples\":["); f = true; for (int i = 0; i < 64; i++) if (sh->sample[i].used) { printf("%s%s", f ? "" : ",", sh->sample[i].data); f = false; }
  printf("],\"functions\":["); f = true; for (size_t i = 0; i < E.fns.size() && i < 40000; i++) if (sh->fnUsed[i]) { printf("%s\"%s\"", f ? "" : ",", Engine::jesc(E.fns[i]->name).c_str()); f = false; }
  printf("]}\n");
  return sh->errors ? 3 : 0;
}
