// Bit-vector expressions (hash-consed, width <= 64), their evaluation and Z3 encoding.
#pragma once
#include <array>
#include <bitset>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>
typedef uint64_t u64; typedef int64_t s64; typedef uint32_t u32; typedef int32_t s32; typedef uint16_t u16; typedef uint8_t u8;

#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline s64 sx(u64 v, unsigned w) { return w >= 64 ? (s64)v : (s64)(v << (64 - w)) >> (64 - w); }

enum EOp : u8 { E_NONE, E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_SHL, E_LSHR, E_ASHR, E_AND, E_OR, E_XOR,
  E_EQ, E_ULT, E_SLT, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT, E_ITE, E_TAB };

struct Expr { u8 op, w; u16 pad; u32 a, b, c; u64 k; u32 vs; u32 tab; };  // k: const value / var id / extract low bit / table id

typedef std::bitset<256> Dom;
struct Table { u64 v[256]; };

struct ExprPool {
  std::function<void()> onBad;
  std::vector<Expr> n;
  std::vector<u32> ht; u32 htmask;
  // variable sets, interned; set 0 = {}
  std::vector<std::vector<u16>> sets;
  std::unordered_map<std::string, u32> setIdx;
  std::unordered_map<u64, u32> unionMemo;
  struct Var { u32 w; u32 expr; u32 order; };
  std::vector<Var> vars;
  std::unordered_map<u64, u32> varIdx;
  std::vector<std::shared_ptr<Table>> tables;  // E_TAB contents
  std::unordered_map<std::string, u32> tabIdx;
  std::unordered_map<u32, std::unique_ptr<Table>> tcache;  // node -> value per byte of its single variable
  std::vector<Z3_ast> z3;
  Z3_context zc = nullptr;

  ExprPool() {
    n.reserve(1 << 20); n.push_back({});
    ht.assign(1 << 20, 0); htmask = (1 << 20) - 1;
    sets.push_back({}); setIdx[""] = 0;
  }
  static u64 hashE(const Expr &e) {
    u64 h = e.op * 0x9E3779B97F4A7C15ull + e.w;
    auto mix = [&](u64 x) { h ^= x; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix(e.a); mix(e.b); mix(e.c); mix(e.k); return h;
  }
  u32 intern(Expr e) {
    u64 h = hashE(e);
    for (u32 i = h & htmask;; i = (i + 1) & htmask) {
      u32 id = ht[i];
      if (!id) break;
      Expr &o = n[id];
      if (o.op == e.op && o.w == e.w && o.a == e.a && o.b == e.b && o.c == e.c && o.k == e.k) return id;
    }
    u32 vs = 0;
    if (e.op == E_VAR) vs = mkSet({(u16)e.k});
    else { if (e.a) vs = n[e.a].vs; if (e.b) vs = uni(vs, n[e.b].vs); if (e.c) vs = uni(vs, n[e.c].vs); }
    e.vs = vs; e.tab = 0;
    u32 id = n.size(); n.push_back(e);
    if (n.size() * 2 > ht.size()) rehash(); else ins(id);
    return id;
  }
  void ins(u32 id) { u64 h = hashE(n[id]); u32 i = h & htmask; while (ht[i]) i = (i + 1) & htmask; ht[i] = id; }
  void rehash() { ht.assign(ht.size() * 2, 0); htmask = ht.size() - 1; for (u32 i = 1; i < n.size(); i++) ins(i); }
  u32 mkSet(std::vector<u16> v) {
    std::string s((char *)v.data(), v.size() * 2);
    auto it = setIdx.find(s);
    if (it != setIdx.end()) return it->second;
    u32 id = sets.size(); sets.push_back(v); setIdx[s] = id; return id;
  }
  u32 uni(u32 a, u32 b) {
    if (a == b || !b) return a;
    if (!a) return b;
    if (a > b) std::swap(a, b);
    u64 k = (u64)a << 32 | b;
    auto it = unionMemo.find(k);
    if (it != unionMemo.end()) return it->second;
    std::vector<u16> r; auto &x = sets[a]; auto &y = sets[b];
    size_t i = 0, j = 0;
    while (i < x.size() || j < y.size()) {
      if (j >= y.size() || (i < x.size() && x[i] < y[j])) r.push_back(x[i++]);
      else if (i >= x.size() || y[j] < x[i]) r.push_back(y[j++]);
      else { r.push_back(x[i]); i++; j++; }
    }
    u32 id = mkSet(r); unionMemo[k] = id; return id;
  }
  // the single 8-bit variable of e, or -1
  int byteVar(u32 e) const { auto &s = sets[n[e].vs]; return s.size() == 1 && vars[s[0]].w == 8 ? s[0] : -1; }
  bool isC(u32 e) const { return n[e].op == E_CONST; }
  u64 cv(u32 e) const { return n[e].k; }
  u32 C(u64 v, unsigned w) { return intern({E_CONST, (u8)w, 0, 0, 0, 0, v & mask(w)}); }
  u32 var(u32 order, unsigned w) {
    u64 key = (u64)order << 8 | w;
    auto it = varIdx.find(key);
    if (it != varIdx.end()) return vars[it->second].expr;
    u32 id = vars.size(); varIdx[key] = id; vars.push_back({w, 0, order});
    u32 e = intern({E_VAR, (u8)w, 0, 0, 0, 0, id}); vars[id].expr = e; return e;
  }
  u32 width(u32 e) const { return n[e].w; }

  static u64 ev(u8 op, unsigned w, unsigned wa, u64 a, u64 b, u64 c, u64 k, unsigned wb) {
    u64 r = 0;
    switch (op) {
    case E_ADD: r = a + b; break; case E_SUB: r = a - b; break; case E_MUL: r = a * b; break;
    case E_UDIV: r = b ? a / b : ~0ull; break;
    case E_UREM: r = b ? a % b : a; break;
    case E_SDIV: { s64 x = sx(a, wa), y = sx(b, wa); r = y == 0 ? (x < 0 ? 1 : ~0ull) : y == -1 ? -(u64)x : (u64)(x / y); break; }
    case E_SREM: { s64 x = sx(a, wa), y = sx(b, wa); r = y == 0 ? (u64)x : y == -1 ? 0 : (u64)(x % y); break; }
    case E_SHL: r = b >= w ? 0 : a << b; break;
    case E_LSHR: r = b >= w ? 0 : a >> b; break;
    case E_ASHR: { s64 x = sx(a, w); r = b >= w ? (x < 0 ? ~0ull : 0) : (u64)(x >> b); break; }
    case E_AND: r = a & b; break; case E_OR: r = a | b; break; case E_XOR: r = a ^ b; break;
    case E_EQ: r = a == b; break; case E_ULT: r = a < b; break; case E_SLT: r = sx(a, wa) < sx(b, wa); break;
    case E_ZEXT: r = a; break; case E_SEXT: r = (u64)sx(a, wa); break;
    case E_EXTRACT: r = a >> k; break;
    case E_CONCAT: r = a << wb | b; break;
    case E_ITE: r = a ? b : c; break;
    default: abort();
    }
    return r & mask(w);
  }
  u32 tabNode(u32 idx, const Table &t, unsigned w) {  // idx: an expression of width 8 (the variable itself)
    std::string s((char *)t.v, sizeof t.v);
    auto it = tabIdx.find(s); u32 id;
    if (it != tabIdx.end()) id = it->second;
    else { id = tables.size(); tables.push_back(std::make_shared<Table>(t)); tabIdx[s] = id; }
    return intern({E_TAB, (u8)w, 0, idx, 0, 0, id});
  }
  u32 mk(EOp op, unsigned w, u32 a, u32 b = 0, u32 c = 0, u64 k = 0) {
    const Expr A = n[a], B = n[b], Cc = n[c];
    if (op >= E_ADD && ((op <= E_SLT && A.w != B.w) || (op <= E_XOR && A.w != w) || (op == E_ITE && (A.w != 1 || B.w != w || Cc.w != w)))) {
      fprintf(stderr, "symex: ill-formed expression op %d width %u operands %u %u %u\n", op, w, A.w, B.w, Cc.w); if (onBad) onBad(); abort();
    }
    bool ca = A.op == E_CONST, cb = !b || B.op == E_CONST, cc = !c || Cc.op == E_CONST;
    if (ca && cb && cc) return C(ev(op, w, A.w, A.k, B.k, Cc.k, k, B.w), w);
    switch (op) {
    case E_ADD: case E_MUL: case E_AND: case E_OR: case E_XOR:
      if (ca && !cb) { return mk(op, w, b, a); }
      break;
    case E_EQ: if (ca && !cb) return mk(op, w, b, a); break;
    default: break;
    }
    u64 bk = B.k;
    switch (op) {
    case E_ADD:
      if (cb && bk == 0) return a;
      if (cb && A.op == E_ADD && isC(A.b)) return mk(E_ADD, w, A.a, C(cv(A.b) + bk, w));
      if (cb && A.op == E_ITE && isC(A.b) && isC(A.c)) return mk(E_ITE, w, A.a, C(cv(A.b) + bk, w), C(cv(A.c) + bk, w));
      break;
    case E_SUB:
      if (a == b) return C(0, w);
      if (cb) return mk(E_ADD, w, a, C(-bk, w));
      // (x + k) - x
      if (A.op == E_ADD && A.a == b) return A.b;
      if (B.op == E_ADD && B.a == a && isC(B.b)) return C(-cv(B.b), w);
      if (A.op == E_ADD && B.op == E_ADD && A.a == B.a) return mk(E_SUB, w, A.b, B.b);
      break;
    case E_MUL:
      if (cb && bk == 0) return C(0, w);
      if (cb && bk == 1) return a;
      break;
    case E_AND:
      if (a == b) return a;
      if (cb && bk == 0) return C(0, w);
      if (cb && bk == mask(w)) return a;
      if (cb && A.op == E_ZEXT && (bk & mask(n[A.a].w)) == mask(n[A.a].w)) return a;
      if (cb && A.op == E_ZEXT) return mk(E_ZEXT, w, mk(E_AND, n[A.a].w, A.a, C(bk, n[A.a].w)));
      if (cb && A.op == E_AND && isC(A.b)) return mk(E_AND, w, A.a, C(cv(A.b) & bk, w));
      if (cb && A.op == E_ITE && isC(A.b) && isC(A.c)) return mk(E_ITE, w, A.a, C(cv(A.b) & bk, w), C(cv(A.c) & bk, w));
      if (w == 1 && notOf(a) == b) return C(0, 1);
      break;
    case E_OR:
      if (a == b) return a;
      if (cb && bk == 0) return a;
      if (cb && bk == mask(w)) return b;
      if (w == 1 && notOf(a) == b) return C(1, 1);
      break;
    case E_XOR:
      if (a == b) return C(0, w);
      if (cb && bk == 0) return a;
      if (cb && A.op == E_XOR && isC(A.b)) return mk(E_XOR, w, A.a, C(cv(A.b) ^ bk, w));
      if (cb && A.op == E_ITE && isC(A.b) && isC(A.c)) return mk(E_ITE, w, A.a, C(cv(A.b) ^ bk, w), C(cv(A.c) ^ bk, w));
      if (cb && A.op == E_ZEXT && bk <= mask(n[A.a].w)) return mk(E_ZEXT, w, mk(E_XOR, n[A.a].w, A.a, C(bk, n[A.a].w)));
      break;
    case E_SHL: case E_LSHR: case E_ASHR:
      if (cb && bk == 0) return a;
      if (cb && bk >= w && op != E_ASHR) return C(0, w);
      if (cb && op == E_LSHR) { // bits [bk,w) zero-extended
        return mk(E_ZEXT, w, mk(E_EXTRACT, w - bk, a, 0, 0, bk));
      }
      if (cb && op == E_SHL) { // concat(extract(a, 0, w-bk), 0)
        return mk(E_CONCAT, w, mk(E_EXTRACT, w - bk, a, 0, 0, 0), C(0, bk));
      }
      break;
    case E_UDIV: if (cb && bk == 1) return a; break;
    case E_UREM: if (cb && bk == 1) return C(0, w); break;
    case E_EQ: {
      if (a == b) return C(1, 1);
      unsigned aw = A.w;
      if (cb) {
        if (aw == 1) return bk ? a : mk(E_XOR, 1, a, C(1, 1));
        if (A.op == E_ZEXT) { unsigned iw = n[A.a].w; if (bk > mask(iw)) return C(0, 1); return mk(E_EQ, 1, A.a, C(bk, iw)); }
        if (A.op == E_SEXT) { unsigned iw = n[A.a].w; if ((u64)(sx(bk & mask(iw), iw) & mask(aw)) != bk) return C(0, 1); return mk(E_EQ, 1, A.a, C(bk, iw)); }
        if (A.op == E_ADD && isC(A.b)) return mk(E_EQ, 1, A.a, C(bk - cv(A.b), aw));
        if (A.op == E_XOR && isC(A.b)) return mk(E_EQ, 1, A.a, C(bk ^ cv(A.b), aw));
        if (A.op == E_ITE) {
          u32 t = mk(E_EQ, 1, A.b, b), f = mk(E_EQ, 1, A.c, b);
          if (isC(t) || isC(f)) return mk(E_ITE, 1, A.a, t, f);
        }
        if (A.op == E_CONCAT) {
          unsigned lw = n[A.b].w;
          u32 h = mk(E_EQ, 1, A.a, C(bk >> lw, n[A.a].w)), l = mk(E_EQ, 1, A.b, C(bk, lw));
          return mk(E_AND, 1, h, l);
        }
        if (A.op == E_SUB && bk == 0) return mk(E_EQ, 1, A.a, A.b);
      } else {
        if (A.op == E_ZEXT && B.op == E_ZEXT && n[A.a].w == n[B.a].w) return mk(E_EQ, 1, A.a, B.a);
        if (A.op == E_CONCAT && B.op == E_CONCAT && n[A.b].w == n[B.b].w)
          return mk(E_AND, 1, mk(E_EQ, 1, A.a, B.a), mk(E_EQ, 1, A.b, B.b));
        if (a > b) std::swap(a, b);
      }
      break;
    }
    case E_ULT:
      if (a == b) return C(0, 1);
      if (cb && bk == 0) return C(0, 1);
      if (ca && A.k == mask(A.w)) return C(0, 1);
      if (cb && bk == 1) return mk(E_EQ, 1, a, C(0, A.w));
      if (cb && A.op == E_ZEXT) { unsigned iw = n[A.a].w; if (bk > mask(iw)) return C(1, 1); return mk(E_ULT, 1, A.a, C(bk, iw)); }
      if (ca && B.op == E_ZEXT) { unsigned iw = n[B.a].w; if (A.k >= mask(iw)) return C(0, 1); return mk(E_ULT, 1, C(A.k, iw), B.a); }
      if (A.op == E_ZEXT && B.op == E_ZEXT && n[A.a].w == n[B.a].w) return mk(E_ULT, 1, A.a, B.a);
      if (cb && A.op == E_ITE && isC(A.b) && isC(A.c)) return mk(E_ITE, 1, A.a, C(cv(A.b) < bk, 1), C(cv(A.c) < bk, 1));
      break;
    case E_SLT:
      if (a == b) return C(0, 1);
      if (A.op == E_ZEXT && cb) { if (sx(bk, A.w) <= 0) return C(0, 1); return mk(E_ULT, 1, a, b); }
      if (B.op == E_ZEXT && ca) { if (sx(A.k, A.w) < 0) return C(1, 1); return mk(E_ULT, 1, a, b); }
      if (A.op == E_ZEXT && B.op == E_ZEXT) return mk(E_ULT, 1, a, b);
      if (cb && A.op == E_ITE && isC(A.b) && isC(A.c)) return mk(E_ITE, 1, A.a, C(sx(cv(A.b), A.w) < sx(bk, A.w), 1), C(sx(cv(A.c), A.w) < sx(bk, A.w), 1));
      break;
    case E_ZEXT:
      if (A.w == w) return a;
      if (A.op == E_ZEXT) return mk(E_ZEXT, w, A.a);
      if (A.op == E_ITE && isC(A.b) && isC(A.c)) return mk(E_ITE, w, A.a, C(cv(A.b), w), C(cv(A.c), w));
      break;
    case E_SEXT:
      if (A.w == w) return a;
      if (A.op == E_ZEXT) return mk(E_ZEXT, w, A.a);
      if (A.op == E_ITE && isC(A.b) && isC(A.c)) return mk(E_ITE, w, A.a, C((u64)sx(cv(A.b), A.w), w), C((u64)sx(cv(A.c), A.w), w));
      break;
    case E_EXTRACT:
      if (w == A.w) return a;
      if (A.op == E_EXTRACT) return mk(E_EXTRACT, w, A.a, 0, 0, k + A.k);
      if (A.op == E_ZEXT || A.op == E_SEXT) {
        unsigned iw = n[A.a].w;
        if (k + w <= iw) return mk(E_EXTRACT, w, A.a, 0, 0, k);
        if (A.op == E_ZEXT) {
          if (k >= iw) return C(0, w);
          return mk(E_ZEXT, w, mk(E_EXTRACT, iw - k, A.a, 0, 0, k));
        }
        if (k == 0) return mk(E_SEXT, w, A.a);
      }
      if (A.op == E_CONCAT) {
        unsigned lw = n[A.b].w;
        if (k + w <= lw) return mk(E_EXTRACT, w, A.b, 0, 0, k);
        if (k >= lw) return mk(E_EXTRACT, w, A.a, 0, 0, k - lw);
        return mk(E_CONCAT, w, mk(E_EXTRACT, w - (lw - k), A.a, 0, 0, 0), mk(E_EXTRACT, lw - k, A.b, 0, 0, k));
      }
      if (A.op == E_ITE && (isC(A.b) || isC(A.c))) return mk(E_ITE, w, A.a, mk(E_EXTRACT, w, A.b, 0, 0, k), mk(E_EXTRACT, w, A.c, 0, 0, k));
      if ((A.op == E_AND || A.op == E_OR || A.op == E_XOR) && isC(A.b)) return mk((EOp)A.op, w, mk(E_EXTRACT, w, A.a, 0, 0, k), C(cv(A.b) >> k, w));
      if (k == 0 && (A.op == E_ADD || A.op == E_SUB || A.op == E_MUL)) return mk((EOp)A.op, w, mk(E_EXTRACT, w, A.a, 0, 0, 0), mk(E_EXTRACT, w, A.b, 0, 0, 0));
      break;
    case E_CONCAT:
      if (ca && A.k == 0) return mk(E_ZEXT, w, b);
      if (A.op == E_EXTRACT && B.op == E_EXTRACT && A.a == B.a && A.k == B.k + B.w) return mk(E_EXTRACT, w, A.a, 0, 0, B.k);
      if (A.op == E_ZEXT && A.w + B.w == w) return mk(E_ZEXT, w, mk(E_CONCAT, n[A.a].w + B.w, A.a, b));
      // right-nested normal form: concat(concat(x,y),b) -> concat(x, concat(y,b)) when the inner merges
      if (B.op == E_CONCAT && A.op == E_EXTRACT && n[B.a].op == E_EXTRACT && n[B.a].a == A.a && A.k == n[B.a].k + n[B.a].w)
        return mk(E_CONCAT, w, mk(E_EXTRACT, A.w + n[B.a].w, A.a, 0, 0, n[B.a].k), B.b);
      // sext/zext recognition: high part constant zero handled above
      break;
    case E_ITE:
      if (ca) return A.k ? b : c;
      if (b == c) return b;
      if (w == 1 && B.op == E_CONST && Cc.op == E_CONST) return B.k ? a : mk(E_XOR, 1, a, C(1, 1));
      if (w == 1 && B.op == E_CONST) return B.k ? mk(E_OR, 1, a, c) : mk(E_AND, 1, mk(E_XOR, 1, a, C(1, 1)), c);
      if (w == 1 && Cc.op == E_CONST) return Cc.k ? mk(E_OR, 1, mk(E_XOR, 1, a, C(1, 1)), b) : mk(E_AND, 1, a, b);
      if (A.op == E_XOR && isC(A.b)) return mk(E_ITE, w, A.a, c, b);
      if (B.op == E_ITE && B.a == a) return mk(E_ITE, w, a, B.b, c);
      if (Cc.op == E_ITE && Cc.a == a) return mk(E_ITE, w, a, b, Cc.c);
      break;
    default: break;
    }
    return intern({op, (u8)w, 0, a, b, c, k});
  }
  u32 notOf(u32 e) { const Expr &E = n[e]; if (E.w == 1 && E.op == E_XOR && isC(E.b)) return E.a; return 0; }
  u32 lnot(u32 e) { return mk(E_XOR, 1, e, C(1, 1)); }

  // ---- evaluation under an assignment (indexed by variable id)
  std::vector<u64> evv; std::vector<u32> evs; u32 gen = 0;
  u64 eval(u32 root, const std::vector<u64> &m) {
    if (evs.size() < n.size()) { evs.resize(n.size() + n.size() / 2 + 1024, 0); evv.resize(evs.size()); }
    if (++gen == 0) { std::fill(evs.begin(), evs.end(), 0); gen = 1; }
    return evalR(root, m);
  }
  u64 evalR(u32 e, const std::vector<u64> &m) {
    const Expr &E = n[e];
    if (E.op == E_CONST) return E.k;
    if (E.op == E_VAR) return E.k < m.size() ? m[E.k] & mask(E.w) : 0;
    if (evs[e] == gen) return evv[e];
    u64 r;
    if (E.op == E_ITE) r = evalR(E.a, m) ? evalR(E.b, m) : evalR(E.c, m);
    else if (E.op == E_TAB) r = tables[E.k]->v[evalR(E.a, m) & 255];
    else r = ev(E.op, E.w, n[E.a].w, evalR(E.a, m), E.b ? evalR(E.b, m) : 0, E.c ? evalR(E.c, m) : 0, E.k, E.b ? n[E.b].w : 0);
    evs[e] = gen; evv[e] = r; return r;
  }
  // values of a single-byte-variable expression for all 256 values of that variable
  const Table &table(u32 e) {
    auto it = tcache.find(e);
    if (it != tcache.end()) return *it->second;
    if (tcache.size() > 60000) tcache.clear();
    auto t = std::make_unique<Table>();
    const Expr E = n[e];
    if (E.op == E_CONST) for (int i = 0; i < 256; i++) t->v[i] = E.k;
    else if (E.op == E_VAR) for (int i = 0; i < 256; i++) t->v[i] = i;
    else if (E.op == E_TAB) { Table a = table(E.a); for (int i = 0; i < 256; i++) t->v[i] = tables[E.k]->v[a.v[i] & 255]; }
    else {
      Table a = table(E.a), b, c; if (E.b) b = table(E.b); if (E.c) c = table(E.c);
      unsigned wa = n[E.a].w, wb = E.b ? n[E.b].w : 0;
      for (int i = 0; i < 256; i++) t->v[i] = ev(E.op, E.w, wa, a.v[i], E.b ? b.v[i] : 0, E.c ? c.v[i] : 0, E.k, wb);
    }
    const Table &r = *t; tcache[e] = std::move(t); return r;
  }
  // ---- Z3
  Z3_ast toZ3(u32 e) {
    if (z3.size() <= e) z3.resize(n.size() + 1024, nullptr);
    if (z3[e]) return z3[e];
    // iterative post-order
    std::vector<u32> st{e};
    while (!st.empty()) {
      u32 x = st.back();
      if (z3[x]) { st.pop_back(); continue; }
      const Expr &E = n[x];
      bool ready = true;
      if (E.op != E_CONST && E.op != E_VAR) for (u32 ch : {E.a, E.b, E.c}) if (ch && !z3[ch]) { st.push_back(ch); ready = false; }
      if (!ready) continue;
      st.pop_back();
      Z3_ast r = nullptr, a = E.a ? z3[E.a] : nullptr, b = E.b ? z3[E.b] : nullptr, c = E.c ? z3[E.c] : nullptr;
      Z3_sort s = Z3_mk_bv_sort(zc, E.w);
      auto b2v = [&](Z3_ast p) { Z3_sort s1 = Z3_mk_bv_sort(zc, 1); return Z3_mk_ite(zc, p, Z3_mk_unsigned_int64(zc, 1, s1), Z3_mk_unsigned_int64(zc, 0, s1)); };
      switch (E.op) {
      case E_CONST: r = Z3_mk_unsigned_int64(zc, E.k, s); break;
      case E_VAR: r = Z3_mk_const(zc, Z3_mk_int_symbol(zc, E.k), s); break;
      case E_ADD: r = Z3_mk_bvadd(zc, a, b); break; case E_SUB: r = Z3_mk_bvsub(zc, a, b); break; case E_MUL: r = Z3_mk_bvmul(zc, a, b); break;
      case E_UDIV: r = Z3_mk_bvudiv(zc, a, b); break; case E_SDIV: r = Z3_mk_bvsdiv(zc, a, b); break;
      case E_UREM: r = Z3_mk_bvurem(zc, a, b); break; case E_SREM: r = Z3_mk_bvsrem(zc, a, b); break;
      case E_SHL: r = Z3_mk_bvshl(zc, a, b); break; case E_LSHR: r = Z3_mk_bvlshr(zc, a, b); break; case E_ASHR: r = Z3_mk_bvashr(zc, a, b); break;
      case E_AND: r = Z3_mk_bvand(zc, a, b); break; case E_OR: r = Z3_mk_bvor(zc, a, b); break; case E_XOR: r = Z3_mk_bvxor(zc, a, b); break;
      case E_EQ: r = b2v(Z3_mk_eq(zc, a, b)); break; case E_ULT: r = b2v(Z3_mk_bvult(zc, a, b)); break; case E_SLT: r = b2v(Z3_mk_bvslt(zc, a, b)); break;
      case E_ZEXT: r = Z3_mk_zero_ext(zc, E.w - n[E.a].w, a); break; case E_SEXT: r = Z3_mk_sign_ext(zc, E.w - n[E.a].w, a); break;
      case E_EXTRACT: r = Z3_mk_extract(zc, E.k + E.w - 1, E.k, a); break;
      case E_CONCAT: r = Z3_mk_concat(zc, a, b); break;
      case E_ITE: r = Z3_mk_ite(zc, Z3_mk_eq(zc, a, Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1))), b, c); break;
      case E_TAB: { // intervals of equal value
        const Table &t = *tables[E.k]; Z3_sort s8 = Z3_mk_bv_sort(zc, 8);
        r = Z3_mk_unsigned_int64(zc, t.v[255], s);
        for (int i = 254; i >= 0; i--) if (t.v[i] != t.v[i + 1])
          r = Z3_mk_ite(zc, Z3_mk_bvule(zc, a, Z3_mk_unsigned_int64(zc, i, s8)), Z3_mk_unsigned_int64(zc, t.v[i], s), r);
        break; }
      default: abort();
      }
      z3[x] = r;
    }
    return z3[e];
  }
};
