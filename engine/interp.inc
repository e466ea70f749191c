  // ------------------------------------------------------------ interpreter (included in Engine)
  u32 ex(const Val &v, unsigned w) { return v.e ? v.e : P.C(v.v, w); }
  Val symBin(unsigned op, unsigned w, Val a, Val b) {
    static const EOp m[] = {E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_SHL, E_LSHR, E_ASHR, E_AND, E_OR, E_XOR};
    return norm(P.mk(m[op - O_ADD], w, ex(a, w), ex(b, w)));
  }
  u32 cmpE(unsigned p, u32 a, u32 b) {
    switch (p) {
    case CmpInst::ICMP_EQ: return P.mk(E_EQ, 1, a, b);
    case CmpInst::ICMP_NE: return P.lnot(P.mk(E_EQ, 1, a, b));
    case CmpInst::ICMP_ULT: return P.mk(E_ULT, 1, a, b);
    case CmpInst::ICMP_UGT: return P.mk(E_ULT, 1, b, a);
    case CmpInst::ICMP_ULE: return P.lnot(P.mk(E_ULT, 1, b, a));
    case CmpInst::ICMP_UGE: return P.lnot(P.mk(E_ULT, 1, a, b));
    case CmpInst::ICMP_SLT: return P.mk(E_SLT, 1, a, b);
    case CmpInst::ICMP_SGT: return P.mk(E_SLT, 1, b, a);
    case CmpInst::ICMP_SLE: return P.lnot(P.mk(E_SLT, 1, b, a));
    default: return P.lnot(P.mk(E_SLT, 1, a, b));
    }
  }
  static bool cmpC(unsigned p, u64 a, u64 b, unsigned w) {
    switch (p) {
    case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_ULE: return a <= b; case CmpInst::ICMP_UGE: return a >= b;
    case CmpInst::ICMP_SLT: return sx(a, w) < sx(b, w); case CmpInst::ICMP_SGT: return sx(a, w) > sx(b, w); case CmpInst::ICMP_SLE: return sx(a, w) <= sx(b, w); default: return sx(a, w) >= sx(b, w);
    }
  }
  // address operand; a read through a table indexed by one byte stays symbolic
  Val loadAt(Val p, u64 off, unsigned w) {
    if (p.e) {
      int bv = P.byteVar(p.e);
      if (bv >= 0 && !known.count(p.e)) {
        const Table t = P.table(p.e); Table r; bool ok = true; unsigned n = (w + 7) / 8;
        for (int i = 0; i < 256 && ok; i++) { r.v[i] = 0; if (!dom[bv][i]) continue; u64 a = t.v[i] + off; if (!inArena(a, n)) { ok = false; break; } Val x = loadMem(a, w); if (x.e) ok = false; else r.v[i] = x.v; }
        if (ok) { // values outside the domain: copy a neighbour, to keep the table simple
          int last = -1; for (int i = 0; i < 256; i++) { if (dom[bv][i]) last = i; else if (last >= 0) r.v[i] = r.v[last]; }
          int fi = 0; while (fi < 256 && !dom[bv][fi]) fi++; for (int i = 0; i < fi && fi < 256; i++) r.v[i] = r.v[fi];
          return norm(P.tabNode(P.vars[bv].expr, r, w)); }
      }
      return loadMem(concretize(p, 64) + off, w);
    }
    return loadMem(p.v + off, w);
  }
  void ovf(const Ins &I, Val a, Val b, Val *d) {
    unsigned w = I.w;
    if (!(a.e | b.e)) {
      u64 r = 0; bool o = false; s64 x = sx(a.v, w), y = sx(b.v, w), z;
      switch (I.k) {
      case V_UADD: r = (a.v + b.v) & mask(w); o = r < a.v; break;
      case V_USUB: r = (a.v - b.v) & mask(w); o = a.v < b.v; break;
      case V_UMUL: { unsigned __int128 m = (unsigned __int128)a.v * b.v; r = (u64)m & mask(w); o = (m >> w) != 0; break; }
      case V_SADD: o = __builtin_add_overflow(x, y, &z) || sx((u64)z & mask(w), w) != z; r = (a.v + b.v) & mask(w); break;
      case V_SSUB: o = __builtin_sub_overflow(x, y, &z) || sx((u64)z & mask(w), w) != z; r = (a.v - b.v) & mask(w); break;
      case V_SMUL: o = __builtin_mul_overflow(x, y, &z) || sx((u64)z & mask(w), w) != z; r = (a.v * b.v) & mask(w); break;
      }
      d[0] = {r, 0, 0}; d[1] = {o, 0, 0}; return;
    }
    u32 A = ex(a, w), B = ex(b, w), r, o;
    if (I.k == V_UMUL || I.k == V_SMUL) {
      if (a.e && b.e && w > 32) { b.v = concretize(b, w); b.e = 0; B = P.C(b.v, w); if (!b.v) { d[0] = d[1] = {0, 0, 0}; return; } }
      if (!a.e) { std::swap(a, b); std::swap(A, B); }
      r = P.mk(E_MUL, w, A, B);
      if (b.e) { // both symbolic, narrow: exact product in 2w bits
        EOp x = I.k == V_UMUL ? E_ZEXT : E_SEXT; u32 p = P.mk(E_MUL, 2 * w, P.mk(x, 2 * w, A), P.mk(x, 2 * w, B));
        o = P.lnot(P.mk(E_EQ, 1, p, P.mk(x, 2 * w, r)));
      } else if (I.k == V_UMUL) o = b.v == 0 ? P.C(0, 1) : P.mk(E_ULT, 1, P.C(mask(w) / b.v, w), A);
      else {
        s64 y = sx(b.v, w), mx = (s64)(mask(w) >> 1), mn = -mx - 1;
        if (y == 0) o = P.C(0, 1);
        else if (y == -1) o = P.mk(E_EQ, 1, A, P.C((u64)mn, w));
        else if (y > 0) o = P.mk(E_OR, 1, P.mk(E_SLT, 1, P.C((u64)(mx / y), w), A), P.mk(E_SLT, 1, A, P.C((u64)(mn / y), w)));
        else o = P.mk(E_OR, 1, P.mk(E_SLT, 1, P.C((u64)(mn / y), w), A), P.mk(E_SLT, 1, A, P.C((u64)(mx / y), w)));
      }
    } else {
      bool add = I.k == V_UADD || I.k == V_SADD; r = P.mk(add ? E_ADD : E_SUB, w, A, B);
      if (I.k == V_UADD) { if (!b.e) o = P.mk(E_ULT, 1, P.C(mask(w) - b.v, w), A); else if (!a.e) o = P.mk(E_ULT, 1, P.C(mask(w) - a.v, w), B); else o = P.mk(E_ULT, 1, r, A); }
      else if (I.k == V_USUB) o = P.mk(E_ULT, 1, A, B);
      else {
        u32 sa = P.mk(E_SLT, 1, A, P.C(0, w)), sb = P.mk(E_SLT, 1, B, P.C(0, w)), sr = P.mk(E_SLT, 1, r, P.C(0, w));
        u32 diffRes = P.mk(E_XOR, 1, sa, sr), ab = P.mk(E_XOR, 1, sa, sb);
        o = P.mk(E_AND, 1, diffRes, I.k == V_SADD ? P.lnot(ab) : ab);
      }
    }
    d[0] = norm(r); d[1] = norm(o);
  }
  Val un(const Ins &I, Val a) {
    unsigned w = I.w;
    if (a.e) {
      if (I.k == U_BSWAP) { u32 r = 0; for (unsigned i = 0; i < w; i += 8) { u32 b = P.mk(E_EXTRACT, 8, a.e, 0, 0, i); r = r ? P.mk(E_CONCAT, i + 8, r, b) : b; } return norm(r); }
      if (I.k == U_ABS) { u32 n = P.mk(E_SLT, 1, a.e, P.C(0, w)); return norm(P.mk(E_ITE, w, n, P.mk(E_SUB, w, P.C(0, w), a.e), a.e)); }
      if (I.k == U_CTPOP) { u32 r = P.C(0, w); for (unsigned i = 0; i < w; i++) r = P.mk(E_ADD, w, r, P.mk(E_ZEXT, w, P.mk(E_EXTRACT, 1, a.e, 0, 0, i))); return norm(r); }
      if (I.k == U_CTTZ) { u32 r = P.C(w, w); for (int i = w - 1; i >= 0; i--) r = P.mk(E_ITE, w, P.mk(E_EXTRACT, 1, a.e, 0, 0, i), P.C(i, w), r); return norm(r); }
      if (I.k == U_CTLZ) { u32 r = P.C(w, w); for (unsigned i = 0; i < w; i++) r = P.mk(E_ITE, w, P.mk(E_EXTRACT, 1, a.e, 0, 0, i), P.C(w - 1 - i, w), r); return norm(r); }
      a.v = concretize(a, w); a.e = 0;
    }
    u64 v = a.v;
    switch (I.k) {
    case U_CTPOP: v = __builtin_popcountll(v); break;
    case U_CTLZ: v = v ? __builtin_clzll(v) - (64 - w) : w; break;
    case U_CTTZ: v = v ? __builtin_ctzll(v) : w; break;
    case U_BSWAP: v = __builtin_bswap64(v) >> (64 - w); break;
    case U_ABS: v = sx(v, w) < 0 ? -v : v; break;
    case U_BITREV: { u64 r = 0; for (unsigned i = 0; i < w; i++) if (v >> i & 1) r |= 1ull << (w - 1 - i); v = r; break; }
    }
    return {v & mask(w), 0, 0};
  }
  Val bin2(const Ins &I, Val a, Val b) {
    unsigned w = I.w; u32 A, B;
    if (a.e | b.e) {
      A = ex(a, w); B = ex(b, w);
      switch (I.k) {
      case B_UMIN: return norm(P.mk(E_ITE, w, P.mk(E_ULT, 1, A, B), A, B));
      case B_UMAX: return norm(P.mk(E_ITE, w, P.mk(E_ULT, 1, A, B), B, A));
      case B_SMIN: return norm(P.mk(E_ITE, w, P.mk(E_SLT, 1, A, B), A, B));
      case B_SMAX: return norm(P.mk(E_ITE, w, P.mk(E_SLT, 1, A, B), B, A));
      case B_UADDS: { u32 s = P.mk(E_ADD, w, A, B); return norm(P.mk(E_ITE, w, P.mk(E_ULT, 1, s, A), P.C(mask(w), w), s)); }
      case B_USUBS: return norm(P.mk(E_ITE, w, P.mk(E_ULT, 1, A, B), P.C(0, w), P.mk(E_SUB, w, A, B)));
      default: { Ins J = I; J.k = I.k == B_SADDS ? V_SADD : V_SSUB; Val d[2]; ovf(J, a, b, d); u32 neg = P.mk(E_SLT, 1, A, P.C(0, w));
        return norm(P.mk(E_ITE, w, ex(d[1], 1), P.mk(E_ITE, w, neg, P.C(1ull << (w - 1), w), P.C(mask(w) >> 1, w)), ex(d[0], w))); }
      }
    }
    u64 x = a.v, y = b.v; s64 sxx = sx(x, w), sy = sx(y, w);
    switch (I.k) {
    case B_UMIN: x = std::min(x, y); break; case B_UMAX: x = std::max(x, y); break;
    case B_SMIN: x = sxx < sy ? x : y; break; case B_SMAX: x = sxx > sy ? x : y; break;
    case B_UADDS: { u64 s = (x + y) & mask(w); x = s < x ? mask(w) : s; break; }
    case B_USUBS: x = x < y ? 0 : x - y; break;
    default: { Ins J = I; J.k = I.k == B_SADDS ? V_SADD : V_SSUB; Val d[2]; ovf(J, a, b, d); x = d[1].v ? (sxx < 0 ? 1ull << (w - 1) : mask(w) >> 1) : d[0].v; }
    }
    return {x & mask(w), 0, 0};
  }
  void fp(const Ins &I, Val *fpv, Val *K) {
    auto R = [&](s32 i) -> Val & { return i >= 0 ? fpv[i] : K[~i]; };
    unsigned sw = I.k; u64 a = concretize(R(I.a), 64), b = 0; if (I.x <= 10) b = concretize(R(I.b), 64);
    auto D = [&](u64 v, unsigned w) -> double { if (w == 32) { float f; u32 x = v; memcpy(&f, &x, 4); return f; } double f; memcpy(&f, &v, 8); return f; };
    auto F = [&](double x, unsigned w) -> u64 { if (w == 32) { float f = x; u32 r; memcpy(&r, &f, 4); return r; } u64 r; memcpy(&r, &x, 8); return r; };
    u64 r = 0; double x = D(a, sw), y = D(b, sw);
    switch (I.x) {
    case 1: r = I.w == 32 ? F((float)x + (float)y, 32) : F(x + y, 64); break; case 2: r = I.w == 32 ? F((float)x - (float)y, 32) : F(x - y, 64); break;
    case 3: r = I.w == 32 ? F((float)x * (float)y, 32) : F(x * y, 64); break; case 4: r = I.w == 32 ? F((float)x / (float)y, 32) : F(x / y, 64); break; case 5: r = F(fmod(x, y), I.w); break;
    case 10: { bool un = x != x || y != y; unsigned p = I.imm; r = (p & 8 && un) || (!un && ((p & 1 && x == y) || (p & 2 && x > y) || (p & 4 && x < y))); break; }
    case 20: r = I.w == 32 ? F((float)sx(a, sw), 32) : F((double)sx(a, sw), 64); break; case 21: r = I.w == 32 ? F((float)a, 32) : F((double)a, 64); break;
    case 24: r = F(x, I.w); break;
    case 40: { double hi = ldexp(1, I.w - 1); if (x != x) r = 0; else if (x >= hi) r = mask(I.w) >> 1; else if (x <= -hi) r = 1ull << (I.w - 1); else r = (u64)(s64)x; break; }
    case 41: { double hi = ldexp(1, I.w); if (x != x || x <= 0) r = 0; else if (x >= hi) r = mask(I.w); else r = (u64)x; break; }
    case 42: r = F(fabs(x), I.w); break; case 43: r = F(floor(x), I.w); break;
    }
    fpv[I.d] = {r & mask(I.x == 10 ? 1 : I.w), 0, 0};
  }
  void wideOp(const Ins &I, Val *fpv, Val *K) {
    unsigned w = I.c, n = (w + 63) / 64; auto rd = [&](s32 i) { std::vector<uint64_t> v; for (unsigned k = 0; k < n; k++) { Val x = i >= 0 ? fpv[i + k] : K[~i + k]; v.push_back(concretize(x, 64)); } return APInt(w, v); };
    APInt a = rd(I.a), b = rd(I.b), r(w, 0); unsigned op = I.x; bool o = false, hasO = false, isCmp = false;
    switch (op) {
    case O_ADD: r = a + b; break; case O_SUB: r = a - b; break; case O_MUL: r = a * b; break;
    case O_UDIV: r = a.udiv(b); break; case O_SDIV: r = a.sdiv(b); break; case O_UREM: r = a.urem(b); break; case O_SREM: r = a.srem(b); break;
    case O_SHL: r = a.shl(b); break; case O_LSHR: r = a.lshr(b); break; case O_ASHR: r = a.ashr(b); break;
    case 100 + V_UADD: r = a.uadd_ov(b, o); hasO = true; break; case 100 + V_USUB: r = a.usub_ov(b, o); hasO = true; break; case 100 + V_UMUL: r = a.umul_ov(b, o); hasO = true; break;
    case 100 + V_SADD: r = a.sadd_ov(b, o); hasO = true; break; case 100 + V_SSUB: r = a.ssub_ov(b, o); hasO = true; break; case 100 + V_SMUL: r = a.smul_ov(b, o); hasO = true; break;
    case 200 + U_CTPOP: r = APInt(w, a.popcount()); break; case 200 + U_CTLZ: r = APInt(w, a.countl_zero()); break; case 200 + U_CTTZ: r = APInt(w, a.countr_zero()); break; case 200 + U_BSWAP: r = a.byteSwap(); break; case 200 + U_ABS: r = a.abs(); break;
    case 300 + B_UMIN: r = a.ult(b) ? a : b; break; case 300 + B_UMAX: r = a.ugt(b) ? a : b; break; case 300 + B_SMIN: r = a.slt(b) ? a : b; break; case 300 + B_SMAX: r = a.sgt(b) ? a : b; break;
    case 400: isCmp = true; o = ICmpInst::compare(a, b, (CmpInst::Predicate)I.k); break;
    default: fatal("wide operation");
    }
    if (isCmp) { fpv[I.d] = {o, 0, 0}; return; }
    for (unsigned k = 0; k < n; k++) fpv[I.d + k] = {r.getRawData()[k], 0, 0};
    if (hasO) fpv[I.d + n] = {o, 0, 0};
  }
  void repack(const RepackT &r, Val *fpv, Val *K, s32 d) {
    auto R = [&](s32 i) -> Val & { return i >= 0 ? fpv[i] : K[~i]; };
    std::vector<Val> out;
    if (r.sw < r.dw) {
      unsigned per = r.dw / r.sw;
      for (unsigned i = 0; i < r.dn; i++) {
        bool sym = false; u64 v = 0; for (unsigned k = 0; k < per; k++) { Val x = R(r.src[i * per + k]); if (x.e) sym = true; else v |= x.v << (k * r.sw); }
        if (!sym) { out.push_back({v, 0, 0}); continue; }
        u32 e = 0; for (unsigned k = 0; k < per; k++) { u32 y = ex(R(r.src[i * per + k]), r.sw); e = e ? P.mk(E_CONCAT, (k + 1) * r.sw, y, e) : y; }
        out.push_back(norm(e));
      }
    } else {
      unsigned per = r.sw / r.dw;
      for (unsigned i = 0; i < r.dn; i++) { Val x = R(r.src[i / per]); unsigned lo = (i % per) * r.dw; if (x.e) out.push_back(norm(P.mk(E_EXTRACT, r.dw, x.e, 0, 0, lo))); else out.push_back({(x.v >> lo) & mask(r.dw), 0, 0}); }
    }
    for (unsigned i = 0; i < out.size(); i++) fpv[d + i] = out[i];
  }

  enum Ext { X_NONE, X_ALLOC, X_ALLOCZ, X_DEALLOC, X_REALLOC, X_PANIC, X_BCMP, X_MEMCMP, X_MEMCHR, X_MEMRCHR, X_STRLEN, X_HVH, X_HVP, X_HVS, X_HVC, X_HVASSUME, X_HVASSERT, X_HVREACH, X_HVTEXT, X_SYSCALL, X_ERRNO, X_ZERO, X_MINUS1, X_WRITE, X_CLOCK, X_ABORT, X_KEYCREATE, X_GETSPEC, X_SETSPEC, X_SYSCONF, X_STACKPTR, X_GETSTACK, X_ONSTACK, X_GETENV, X_GETCWD, X_GETRANDOM, X_MALLOC, X_FREE, X_POSIXMEMALIGN, X_STRERR, X_HVKIND, X_ONE, X_WRITEV, X_HVWRITTEN };
  int extKind(StringRef n) {
    if (n == "__rust_alloc") return X_ALLOC; if (n == "__rust_alloc_zeroed") return X_ALLOCZ; if (n == "__rust_dealloc") return X_DEALLOC; if (n == "__rust_realloc") return X_REALLOC;
    if (n == "bcmp") return X_BCMP; if (n == "memcmp") return X_MEMCMP; if (n == "memchr") return X_MEMCHR; if (n == "memrchr") return X_MEMRCHR; if (n == "strlen") return X_STRLEN;
    if (n == "hv_harness") return X_HVH; if (n == "hv_param") return X_HVP; if (n == "hv_sym") return X_HVS; if (n == "hv_choose") return X_HVC; if (n == "hv_assume") return X_HVASSUME; if (n == "hv_assert") return X_HVASSERT; if (n == "hv_reach") return X_HVREACH; if (n == "hv_text") return X_HVTEXT; if (n == "hv_concrete") return X_HVKIND;
    if (n == "syscall") return X_SYSCALL; if (n == "__errno_location") return X_ERRNO; if (n == "write") return X_WRITE; if (n == "writev") return X_WRITEV; if (n == "hv_written") return X_HVWRITTEN; if (n == "clock_gettime") return X_CLOCK;
    if (n == "abort" || n == "_exit" || n == "exit") return X_ABORT;
    if (n == "pthread_key_create") return X_KEYCREATE; if (n == "pthread_getspecific") return X_GETSPEC; if (n == "pthread_setspecific") return X_SETSPEC;
    if (n == "sysconf") return X_SYSCONF; if (n == "rust_psm_stack_pointer") return X_STACKPTR; if (n == "pthread_attr_getstack") return X_GETSTACK; if (n == "rust_psm_on_stack") return X_ONSTACK;
    if (n == "getenv") return X_GETENV; if (n == "getcwd") return X_GETCWD; if (n == "malloc") return X_MALLOC; if (n == "free") return X_FREE; if (n == "__xpg_strerror_r") return X_STRERR;
    if (n == "sched_yield" || n == "pthread_key_delete" || n == "close" || n == "pthread_attr_init" || n == "pthread_attr_destroy" || n == "pthread_getattr_np" || n == "pthread_self" || n == "pthread_attr_getguardsize" || n == "dlsym" || n == "munmap" || n == "signal" || n == "sigaction" || n == "poll" || n == "__cxa_thread_atexit_impl" || n == "gnu_get_libc_version") return X_ZERO;
    if (n == "open64" || n == "sched_getaffinity" || n == "stat64" || n == "lstat64" || n == "fstat64" || n == "read" || n == "lseek64" || n == "readlink" || n == "opendir" || n == "mmap" || n == "mmap64") return X_MINUS1;
    if (n == "rust_psm_stack_direction") return X_ONE;
    static const char *pan[] = {"panicking", "panic", "unwrap_failed", "expect_failed", "slice_error_fail", "handle_alloc_error", "abort_internal", "process5abort", "begin_unwind", nullptr};
    for (auto p = pan; *p; ++p) if (n.contains(*p)) return X_PANIC;
    return X_NONE;
  }
  std::string gstr(u64 a, u64 n) { std::string s; if (n > 400) n = 400; if (!inArena(a, n)) return "?"; for (u64 i = 0; i < n; i++) { Val v = loadMem(a + i, 8); s += v.e ? '?' : (char)v.v; } return s; }

  u64 errnoAddr, tsdBase; u32 tsdN = 0;
  // returns true when the frame was changed (callback)
  void external(Fn *f, const Ins &I, std::vector<Val> &a, Val *d, unsigned nret) {
    auto C = [&](unsigned i) { return i < a.size() ? concretize(a[i], 64) : 0; };
    auto ret = [&](u64 v) { if (nret) d[0] = {v, 0, 0}; };
    switch (f->ext) {
    case X_ALLOC: { u64 n = C(0), al = C(1); ret(gAlloc(n, al)); return; }
    case X_ALLOCZ: { u64 n = C(0), al = C(1); u64 p = gAlloc(n, al); setMem(p, {0, 0, 0}, n); ret(p); return; }
    case X_DEALLOC: { u64 p = C(0), n = C(1), al = C(2); gFree(p, n, al); return; }
    case X_REALLOC: { u64 p = C(0), o = C(1), al = C(2), n = C(3); if (cls(o) == cls(n) && al <= 16) { ret(p); return; } u64 q = gAlloc(n, al); copyMem(q, p, std::min(o, n)); gFree(p, o, al); ret(q); return; }
    case X_MALLOC: { u64 n = C(0); u64 p = gAlloc(n + 16, 16); storeMem(p, 64, {n + 16, 0, 0}); ret(p + 16); return; }
    case X_FREE: { u64 p = C(0); if (p) gFree(p - 16, loadMem(p - 16, 64).v, 16); return; }
    case X_PANIC: {
      std::string msg = f->name, loc; 
      if (!a.empty() && !a.back().e && inArena(a.back().v, 24)) { u64 L = a.back().v; Val p = loadMem(L, 64), n = loadMem(L + 8, 64), ln = loadMem(L + 16, 32), col = loadMem(L + 20, 32); if (!p.e && !n.e && !ln.e && n.v < 300 && inArena(p.v, n.v)) loc = gstr(p.v, n.v) + ":" + std::to_string(ln.v) + ":" + std::to_string(col.v); }
      violation("panic", 0, (f->name.size() > 100 ? f->name.substr(0, 100) : f->name) + " at " + loc, fnv(loc.empty() ? f->name + stackTrace() : loc)); throw PathEnd(); }
    case X_ABORT: violation("abort", 0, f->name, fnv("abort" + stackTrace())); throw PathEnd();
    case X_BCMP: case X_MEMCMP: {
      u64 p = C(0), q = C(1), n = C(2); if (!n) { ret(0); return; }
      if (!inArena(p, n)) badAccess(p, n, "read"); if (!inArena(q, n)) badAccess(q, n, "read");
      if (!anySym(p, n) && !anySym(q, n)) { int r = memcmp((void *)p, (void *)q, n); ret((u32)(r < 0 ? -1 : r > 0)); return; }
      if (f->ext == X_BCMP) {
        std::vector<u32> eqs;
        for (u64 i = 0; i < n; i++) { Val x = loadMem(p + i, 8), y = loadMem(q + i, 8); if (!(x.e | y.e)) { if (x.v != y.v) { ret(1); return; } continue; } Val e = norm(P.mk(E_EQ, 1, ex(x, 8), ex(y, 8))); if (!e.e) { if (!e.v) { ret(1); return; } continue; } eqs.push_back(e.e); }
        u32 acc = P.C(1, 1); for (u32 e : eqs) acc = P.mk(E_AND, 1, acc, e);
        d[0] = norm(P.mk(E_ZEXT, 32, P.lnot(acc))); return;
      }
      u32 r = P.C(0, 32);
      for (u64 i = n; i-- > 0;) { Val x = loadMem(p + i, 8), y = loadMem(q + i, 8); u32 X = ex(x, 8), Y = ex(y, 8); Val eq = norm(P.mk(E_EQ, 1, X, Y)); Val lt = norm(P.mk(E_ULT, 1, X, Y));
        r = P.mk(E_ITE, 32, ex(eq, 1), r, P.mk(E_ITE, 32, ex(lt, 1), P.C(0xffffffff, 32), P.C(1, 32))); }
      d[0] = norm(r); return; }
    case X_MEMCHR: case X_MEMRCHR: {
      u64 p = C(0); u64 c = C(1) & 255; u64 n = C(2); if (n && !inArena(p, n)) badAccess(p, n, "read");
      for (u64 k = 0; k < n; k++) { u64 i = f->ext == X_MEMCHR ? k : n - 1 - k; Val x = loadMem(p + i, 8); bool h = x.e ? decide(P.mk(E_EQ, 1, x.e, P.C(c, 8))) : x.v == c; if (h) { ret(p + i); return; } }
      ret(0); return; }
    case X_STRLEN: { u64 p = C(0), n = 0; for (;; n++) { Val x = loadMem(p + n, 8); if (x.e ? decide(P.mk(E_EQ, 1, x.e, P.C(0, 8))) : x.v == 0) break; } ret(n); return; }
    case X_HVH: ret(harness); return;
    case X_HVP: { u64 i = C(0); ret(i < params.size() ? params[i] : 0); return; }
    case X_HVS: case X_HVC: {
      u64 b = f->ext == X_HVC ? 8 : C(0), lim = f->ext == X_HVC ? C(0) : 0; u32 e = P.var(nsym, b);
      if (symW.size() <= nsym) symW.resize(nsym + 1); symW[nsym] = b;
      if (concrete) { u64 v = nsym < inputs.size() ? inputs[nsym] : 0; nsym++; ret(v & mask(b)); return; }
      dom.resize(P.vars.size(), Dom().set()); multi.resize(P.vars.size(), 0); model.resize(P.vars.size(), 0);
      if (f->ext == X_HVC) {
        // an n-way choice: concretised at once (the instruction re-executes on the other values)
        u32 c = P.mk(E_ULT, 1, e, P.C(lim, 8)); if (!known.count(c) && !P.isC(c)) { u32 id = P.n[e].k; if (model[id] >= lim) model[id] = 0; addCons(c); }
        u64 v = concretize({0, e, 0}, 8); nsym++; ret(v); return; }
      nsym++;
      d[0] = b < 64 ? mkv(P.mk(E_ZEXT, 64, e)) : mkv(e); return; }
    case X_HVASSUME: {
      Val c = a[0]; if (!c.e) { if (!(c.v & 1)) { sh->pruned++; throw PathEnd(); } return; }
      u32 e = P.mk(E_EXTRACT, 1, c.e, 0, 0, 0); auto it = known.find(e); if (it != known.end() && it->second) return;
      if (P.isC(e)) { if (P.cv(e)) return; sh->pruned++; throw PathEnd(); }
      model.resize(P.vars.size(), 0);
      if (!P.eval(e, model)) { std::vector<u64> m; if (checkSat(e, m) != 1) { sh->pruned++; throw PathEnd(); } model = m; }
      addCons(e); return; }
    case X_HVASSERT: {
      Val c = a[0]; u32 code = C(1); sh->asserts++; sh->checkn[code & 511]++;
      if (!c.e) { if (!(c.v & 1)) { confirm(); violation("assert", code, "assertion " + std::to_string(code), fnv("a" + std::to_string(code))); throw PathEnd(); } return; }
      u32 e = P.mk(E_EXTRACT, 1, c.e, 0, 0, 0); if (P.isC(e)) { if (!P.cv(e)) { violation("assert", code, "assertion " + std::to_string(code), fnv("a" + std::to_string(code))); throw PathEnd(); } return; }
      sh->assertsSym++; sh->checksym[code & 511]++; std::vector<u64> m;
      if (checkSat(P.lnot(e), m) == 1) { violation("assert", code, "assertion " + std::to_string(code), fnv("a" + std::to_string(code)), &m); std::vector<u64> m2; if (checkSat(e, m2) != 1) throw PathEnd(); model = m2; }
      addCons(e); return; }
    case X_HVREACH: { u32 c = C(0); if (c < 512) sh->reach[c]++; return; }
    case X_HVTEXT: { u64 p = C(0), n = C(1); for (u64 i = 0; i < n; i++) { Val v = loadMem(p + i, 8); texts.push_back({v.e, (u32)v.v}); } texts.push_back({0, 0x1e}); return; }
    case X_HVKIND: { ret(concrete); return; }
    case X_SYSCALL: { u64 n = C(0);
      if (n == 202) { u64 op = C(2) & 127; if (op == 0 || op == 9) { violation("deadlock", 0, "a handler blocks on a lock that is never released", fnv("deadlock" + frames.back().fn->name)); throw PathEnd(); } ret(0); return; }
      if (n == 318) { u64 p = C(1), k = C(2); setMem(p, {7, 0, 0}, k); ret(k); return; }
      if (n == 332) { storeMem(errnoAddr, 32, {38, 0, 0}); ret(~0ull); return; }
      fatal("syscall " + std::to_string(n)); }
    case X_ERRNO: ret(errnoAddr); return;
    case X_ZERO: ret(0); return;
    case X_ONE: ret(1); return;
    case X_MINUS1: storeMem(errnoAddr, 32, {2, 0, 0}); ret(f->F->getReturnType()->isIntegerTy(32) ? 0xffffffffull : ~0ull); return;
    // bytes written to standard output are counted per path
    case X_WRITE: { u64 fd = C(0) & 0xffffffff, n = C(2); if (fd == 1) storeMem(tsdBase + 1008, 64, {loadMem(tsdBase + 1008, 64).v + n, 0, 0}); ret(n); return; }
    case X_WRITEV: { u64 fd = C(0) & 0xffffffff, v = C(1), k = C(2) & 0xffffffff, n = 0; for (u64 i = 0; i < k; i++) { Val l = loadMem(v + 16 * i + 8, 64); if (l.e) fatal("symbolic length in writev"); n += l.v; } if (fd == 1) storeMem(tsdBase + 1008, 64, {loadMem(tsdBase + 1008, 64).v + n, 0, 0}); ret(n); return; }
    case X_HVWRITTEN: { ret(loadMem(tsdBase + 1008, 64).v); return; }
    case X_CLOCK: { u64 p = C(1); storeMem(p, 64, {1700000000, 0, 0}); storeMem(p + 8, 64, {0, 0, 0}); ret(0); return; }
    case X_KEYCREATE: { u64 p = C(0); u64 k = loadMem(tsdBase, 64).v + 1; storeMem(tsdBase, 64, {k, 0, 0}); if (k > 100) fatal("thread-specific keys"); storeMem(p, 32, {k, 0, 0}); ret(0); return; }
    case X_GETSPEC: { d[0] = loadMem(tsdBase + 8 * C(0), 64); return; }
    case X_SETSPEC: { storeMem(tsdBase + 8 * C(0), 64, a[1]); ret(0); return; }
    case X_SYSCONF: ret(C(0) == 30 ? 4096 : 1); return;
    case X_STACKPTR: ret(stackBase + STACKSZ - 4096); return;
    case X_GETSTACK: { storeMem(C(1), 64, {stackBase, 0, 0}); storeMem(C(2), 64, {STACKSZ, 0, 0}); ret(0); return; }
    case X_GETENV: ret(0); return;
    case X_GETCWD: ret(0); return;
    case X_STRERR: { u64 p = C(1), n = C(2); if (n) storeMem(p, 8, {0, 0, 0}); ret(0); return; }
    default: fatal("external function " + f->name);
    }
  }
  // a violated assertion on a path: the solver confirms the path condition
  void confirm() { if (cons.empty() || concrete) return; std::vector<u64> m; if (checkSat(cons.back().e, m, true) != 1) fatal("path condition of a violating path is unsatisfiable"); sh->pcchecks++; model = m; }

  int start(Module *m, LLVMContext &c) {
    M = m; ctx = &c; DL = &M->getDataLayout();
    auto mapAt = [](u64 a, u64 n) { void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (a ? MAP_FIXED_NOREPLACE : 0), -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(3); } return p; };
    mapAt(ARENA, ASIZE); mapAt(SHADOW, ASIZE * 4); lineFlag = (u8 *)mapAt(0, ASIZE / 64); lineEpoch = (u32 *)mapAt(0, ASIZE / 16);
    regs = (Val *)mapAt(0, sizeof(Val) * (64ull << 20));
    Z3_config cfg = Z3_mk_config(); P.zc = Z3_mk_context(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(P.zc, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "symex: z3 error %d %s\n", e, Z3_get_error_msg(c, e)); _exit(3); });
    zs = Z3_mk_solver_for_logic(P.zc, Z3_mk_string_symbol(P.zc, "QF_BV")); Z3_solver_inc_ref(P.zc, zs);
    Z3_params zp = Z3_mk_params(P.zc); Z3_params_inc_ref(P.zc, zp); Z3_params_set_uint(P.zc, zp, Z3_mk_string_symbol(P.zc, "timeout"), z3Timeout); Z3_solver_set_params(P.zc, zs, zp);
    Fn *entry = nullptr;
    for (Function &F : *M) { Fn *f = new Fn; f->F = &F; f->name = F.getName().str(); fnIdx[&F] = fns.size(); if (F.isDeclaration()) f->ext = extKind(F.getName()); fns.push_back(f); if (f->name == "hv_entry") entry = f; }
    if (!entry) fatal("no entry");
    for (GlobalVariable &g : M->globals()) { if (g.hasExternalWeakLinkage()) { gaddr[&g] = 0; continue; } u64 al = g.getAlign() ? g.getAlign()->value() : 16; if (al < 8) al = 8; gtop = (gtop + al - 1) & ~(al - 1); gaddr[&g] = gtop; gtop += std::max<u64>(1, DL->getTypeAllocSize(g.getValueType())); }
    for (GlobalVariable &g : M->globals()) if (g.hasInitializer()) initGlobal(g.getInitializer(), gaddr[&g]);
    errnoAddr = (gtop + 63) & ~63ull; tsdBase = errnoAddr + 64; freeHeads = tsdBase + 1024; gtop = freeHeads + 4096;
    stackBase = (gtop + 4095) & ~4095ull; heapBase = stackBase + STACKSZ; bump = heapBase; sp = stackBase;
    if (!entry->ready) translate(entry);
    frames.push_back({entry, 0, 0, nullptr, sp}); sp += entry->frame;
    cur = entry->code.data();
    for (;;) {
      try { run(); pathDone(); }
      catch (PathEnd &) { flush(); if (sh->stop || now() > sh->deadline) { sh->stop = 1; return 0; } }
      catch (Backtracked &) {}
      catch (int) { return 0; }
      if (!backtrack()) return 0;
    }
  }

  void run() {
    Fn *fn = frames.back().fn; Val *fp = regs + frames.back().base; Val *K = fn->K.data(); const Ins *ip = cur; std::vector<Val> args;
#define R(i) (*((i) >= 0 ? fp + (i) : K + ~(i)))
#define BINC(OPN, EXPR) case OPN: { const Val a = R(ip->a), b = R(ip->b); const unsigned w = ip->w; if (likely(!(a.e | b.e))) { fp[ip->d] = {(u64)(EXPR) & mask(w), 0, 0}; } else fp[ip->d] = symBin(OPN, w, a, b); ip++; break; }
    u64 cnt = 0;
    struct Cnt { u64 &c; Engine *e; ~Cnt() { e->totIns += c; e->pathIns += c; c = 0; } } cg{cnt, this};
    for (;;) {
      cur = ip;
      if (unlikely((++cnt & 0xfffff) == 0)) {
        totIns += cnt; pathIns += cnt; cnt = 0; flush();
        if (pathIns > maxPathIns) { violation("hang", 0, "instruction limit exceeded on one path", fnv("hang")); throw PathEnd(); }
        if (sh->stop || now() > sh->deadline) { sh->stop = 1; throw int(1); }
      }
      switch (ip->op) {
      case O_NOP: ip++; break;
      case O_MOV: fp[ip->d] = R(ip->a); ip++; break;
      BINC(O_ADD, a.v + b.v) BINC(O_SUB, a.v - b.v) BINC(O_MUL, a.v * b.v)
      BINC(O_AND, a.v & b.v) BINC(O_OR, a.v | b.v) BINC(O_XOR, a.v ^ b.v)
      BINC(O_SHL, b.v >= w ? 0 : a.v << b.v) BINC(O_LSHR, b.v >= w ? 0 : a.v >> b.v) BINC(O_ASHR, sx(a.v, w) >> (b.v >= w ? 63 : b.v))
      BINC(O_UDIV, b.v ? a.v / b.v : 0) BINC(O_UREM, b.v ? a.v % b.v : 0)
      BINC(O_SDIV, P.ev(E_SDIV, w, w, a.v, b.v, 0, 0, w)) BINC(O_SREM, P.ev(E_SREM, w, w, a.v, b.v, 0, 0, w))
      case O_ICMP: { const Val a = R(ip->a), b = R(ip->b); if (likely(!(a.e | b.e))) fp[ip->d] = {cmpC(ip->k, a.v, b.v, ip->w), 0, 0}; else fp[ip->d] = norm(cmpE(ip->k, ex(a, ip->w), ex(b, ip->w))); ip++; break; }
      case O_ZEXT: { const Val a = R(ip->a); if (likely(!a.e)) fp[ip->d] = a; else fp[ip->d] = mkv(P.mk(E_ZEXT, ip->w, a.e)); ip++; break; }
      case O_SEXT: { const Val a = R(ip->a); if (likely(!a.e)) fp[ip->d] = {(u64)sx(a.v, ip->k) & mask(ip->w), 0, 0}; else fp[ip->d] = mkv(P.mk(E_SEXT, ip->w, a.e)); ip++; break; }
      case O_TRUNC: { const Val a = R(ip->a); if (likely(!a.e)) fp[ip->d] = {a.v & mask(ip->w), 0, 0}; else fp[ip->d] = norm(P.mk(E_EXTRACT, ip->w, a.e, 0, 0, 0)); ip++; break; }
      case O_SELECT: {
        const Val c = R(ip->a); if (likely(!c.e)) { fp[ip->d] = c.v & 1 ? R(ip->b) : R(ip->c); ip++; break; }
        const Val x = R(ip->b), y = R(ip->c);
        if (!x.e && !y.e && x.v == y.v) { fp[ip->d] = x; ip++; break; }
        if (ip->k) { bool t = decide(c.e); fp[ip->d] = t ? x : y; } else fp[ip->d] = norm(P.mk(E_ITE, ip->w, c.e, ex(x, ip->w), ex(y, ip->w)));
        ip++; break; }
      case O_GEPC: { const Val a = R(ip->a); if (likely(!a.e)) fp[ip->d] = {a.v + ip->imm, 0, 0}; else fp[ip->d] = norm(P.mk(E_ADD, 64, a.e, P.C(ip->imm, 64))); ip++; break; }
      case O_GEP: {
        const Val a = R(ip->a), b = R(ip->b);
        if (likely(!(a.e | b.e))) fp[ip->d] = {a.v + (u64)sx(b.v, ip->k) * ip->x + ip->imm, 0, 0};
        else { u32 ix = P.mk(E_MUL, 64, P.mk(E_SEXT, 64, ex(b, ip->k)), P.C(ip->x, 64)); fp[ip->d] = norm(P.mk(E_ADD, 64, P.mk(E_ADD, 64, ex(a, 64), ix), P.C(ip->imm, 64))); }
        ip++; break; }
      case O_LOAD: { const Val a = R(ip->a); if (likely(!a.e)) fp[ip->d] = loadMem(a.v + ip->imm, ip->w); else fp[ip->d] = loadAt(a, ip->imm, ip->w); ip++; break; }
      case O_STORE: { Val a = R(ip->a); if (unlikely(a.e)) a.v = concretize(a, 64); storeMem(a.v + ip->imm, ip->w, R(ip->b)); ip++; break; }
      case O_BR: ip = fn->code.data() + ip->x; break;
      case O_CBR: {
        const Val c = R(ip->a); bool t = likely(!c.e) ? c.v & 1 : decide(c.e);
        ip = fn->code.data() + (t ? ip->x : (u32)ip->c); break; }
      case O_SWITCH: {
        const Val c = R(ip->a); const SwitchT &s = fn->sw[ip->x]; u32 tgt = s.def;
        if (likely(!c.e)) { auto it = std::lower_bound(s.cases.begin(), s.cases.end(), c.v, [](auto &p, u64 v) { return p.first < v; }); if (it != s.cases.end() && it->first == c.v) tgt = it->second; }
        else {
          auto kn = known.find(c.e);
          if (kn != known.end()) { for (auto &p : s.cases) if (p.first == kn->second) tgt = p.second; }
          else {
            std::vector<u32> ts; for (auto &p : s.cases) if (std::find(ts.begin(), ts.end(), p.second) == ts.end()) ts.push_back(p.second);
            for (u32 T : ts) {
              u32 cond = P.C(0, 1); for (auto &p : s.cases) if (p.second == T) cond = P.mk(E_OR, 1, cond, P.mk(E_EQ, 1, c.e, P.C(p.first, ip->w)));
              Val q = norm(cond); if (q.e ? decide(q.e) : q.v) { tgt = T; break; } }
          } }
        ip = fn->code.data() + tgt; break; }
      case O_CALLI: case O_CALL: {
        Fn *g;
        if (ip->op == O_CALL) g = fns[ip->a];
        else { u64 p = concretize(R(ip->a), 64); u64 ix = (p - FNBASE) / 16; if (p < FNBASE || ix >= fns.size() || (p & 15)) { violation("memory", 0, "call of an invalid function pointer", fnv("call")); throw PathEnd(); } g = fns[ix]; if (g->F->isDeclaration()) { args.clear(); s32 *ax = fn->aux.data() + ip->x; for (int i = 0; i < ax[0]; i++) args.push_back(R(ax[1 + i])); external(g, *ip, args, fp + ip->d, ip->b); ip++; break; } }
        if (unlikely(!g->ready)) translate(g);
        Frame &cf = frames.back(); u32 nb = cf.base + fn->nregs; s32 *ax = fn->aux.data() + ip->x; Val *nf = regs + nb;
        for (int i = 0; i < ax[0]; i++) nf[i] = R(ax[1 + i]);
        if (unlikely(sp + g->frame > stackBase + STACKSZ || nb + g->nregs > (63u << 20))) { violation("stack", 0, "stack overflow", fnv("stack")); throw PathEnd(); }
        frames.push_back({g, nb, ip->d, ip + 1, sp}); sp = (sp + g->frame + 15) & ~15ull;
        fn = g; fp = nf; K = g->K.data(); ip = g->code.data(); break; }
      case O_RET: {
        s32 *ax = fn->aux.data() + ip->x; Frame f = frames.back(); 
        if (frames.size() == 1) { return; }
        frames.pop_back(); Frame &c = frames.back(); Val *cfp = regs + c.base;
        for (int i = 0; i < ax[0]; i++) cfp[f.retd + i] = R(ax[1 + i]);
        sp = f.sp; fn = c.fn; fp = cfp; K = fn->K.data(); ip = f.retip; break; }
      case O_TRAP: {
        if (ip->x == 2) fatal("unsupported instruction" + (ip->c ? " (" + fns[ip->c]->name + ")" : std::string()));
        violation("trap", 0, "unreachable code or trap reached in " + fn->name, fnv("trap" + fn->name)); throw PathEnd(); }
      case O_ALLOCA: fp[ip->d] = {frames.back().sp + ip->imm, 0, 0}; ip++; break;
      case O_ALLOCAD: { u64 n = concretize(R(ip->a), 64); u64 p = (sp + 15) & ~15ull; sp = p + n * ip->imm; fp[ip->d] = {p, 0, 0}; ip++; break; }
      case O_MEMCPY: { u64 d = concretize(R(ip->a), 64), s = concretize(R(ip->b), 64), n = concretize(R(ip->c), 64); copyMem(d, s, n); ip++; break; }
      case O_MEMSET: { u64 d = concretize(R(ip->a), 64), n = concretize(R(ip->c), 64); setMem(d, R(ip->b), n); ip++; break; }
      case O_OVF: { const Val a = R(ip->a), b = R(ip->b); Val r[2]; ovf(*ip, a, b, r); fp[ip->d] = r[0]; fp[ip->d + 1] = r[1]; ip++; break; }
      case O_UN: { const Val a = R(ip->a); fp[ip->d] = un(*ip, a); ip++; break; }
      case O_BIN2: { const Val a = R(ip->a), b = R(ip->b); fp[ip->d] = bin2(*ip, a, b); ip++; break; }
      case O_FSH: {
        Val a = R(ip->a), b = R(ip->b); u64 s = concretize(R(ip->c), 64) % ip->w; unsigned w = ip->w;
        if (ip->k) s = s ? w - s : w; // fshr by s == fshl by w-s (s != 0)
        if (!(a.e | b.e)) { u64 r = s == 0 ? a.v : s == w ? b.v : (a.v << s | b.v >> (w - s)); fp[ip->d] = {r & mask(w), 0, 0}; }
        else { if (s == 0) fp[ip->d] = a; else if (s == w) fp[ip->d] = b; else fp[ip->d] = norm(P.mk(E_OR, w, P.mk(E_SHL, w, ex(a, w), P.C(s, w)), P.mk(E_LSHR, w, ex(b, w), P.C(w - s, w)))); }
        ip++; break; }
      case O_EXT: {
        Fn *g = fns[ip->a]; s32 *ax = fn->aux.data() + ip->x;
        if (g->ext == X_ONSTACK) { // rust_psm_on_stack(data, retptr, callback, sp): call callback(data, retptr) here
          Val cb = R(ax[3]); u64 p = concretize(cb, 64); Fn *h = fns.at((p - FNBASE) / 16); if (!h->ready) translate(h); u32 nb = frames.back().base + fn->nregs; Val *nf = regs + nb; nf[0] = R(ax[1]); nf[1] = R(ax[2]); frames.push_back({h, nb, ip->d, ip + 1, sp}); sp = (sp + h->frame + 15) & ~15ull; fn = h; fp = nf; K = h->K.data(); ip = h->code.data(); break; }
        args.clear(); for (int i = 0; i < ax[0]; i++) args.push_back(R(ax[1 + i]));
        external(g, *ip, args, fp + ip->d, ip->b); ip++; break; }
      case O_WIDE: wideOp(*ip, fp, K); ip++; break;
      case O_FP: this->fp(*ip, fp, K); ip++; break;
      case O_REPACK: repack(fn->rp[ip->x], fp, K, ip->d); ip++; break;
      case O_EXTELT: { u64 i = concretize(R(ip->b), 64); fp[ip->d] = i < ip->w ? R(ip->a >= 0 ? ip->a + (s32)i : ~(~ip->a + (s32)i)) : Val{0, 0, 0}; ip++; break; }
      case O_PSAD: {
        Val o[2]; for (int h = 0; h < 2; h++) { Val acc{0, 0, 0}; for (int i = 0; i < 8; i++) { s32 ia = ip->a >= 0 ? ip->a + h * 8 + i : ~(~ip->a + h * 8 + i), ib = ip->b >= 0 ? ip->b + h * 8 + i : ~(~ip->b + h * 8 + i); const Val x = R(ia), y = R(ib); Val t;
            if (!(x.e | y.e)) t = {x.v > y.v ? x.v - y.v : y.v - x.v, 0, 0}; else { u32 X = ex(x, 8), Y = ex(y, 8); t = norm(P.mk(E_ITE, 8, P.mk(E_ULT, 1, X, Y), P.mk(E_SUB, 8, Y, X), P.mk(E_SUB, 8, X, Y))); if (t.e) t = mkv(P.mk(E_ZEXT, 64, t.e)); }
            if (acc.e | t.e) acc = norm(P.mk(E_ADD, 64, ex(acc, 64), ex(t, 64))); else acc.v += t.v; } o[h] = acc; }
        fp[ip->d] = o[0]; fp[ip->d + 1] = o[1]; ip++; break; }
      case O_RMW: {
        u64 p = concretize(R(ip->a), 64); const Val b = R(ip->b); Val o = loadMem(p, ip->w), n; unsigned w = ip->w;
        if (ip->k != AtomicRMWInst::Xchg && o.e) o = {concretize(o, w), 0, 0};
        u64 bv = ip->k == AtomicRMWInst::Xchg ? 0 : concretize(b, w);
        switch (ip->k) { case AtomicRMWInst::Xchg: n = b; break; case AtomicRMWInst::Add: n = {(o.v + bv) & mask(w), 0, 0}; break; case AtomicRMWInst::Sub: n = {(o.v - bv) & mask(w), 0, 0}; break; case AtomicRMWInst::And: n = {o.v & bv, 0, 0}; break; case AtomicRMWInst::Or: n = {o.v | bv, 0, 0}; break; case AtomicRMWInst::Xor: n = {o.v ^ bv, 0, 0}; break;
          case AtomicRMWInst::UMax: n = {std::max(o.v, bv), 0, 0}; break; case AtomicRMWInst::UMin: n = {std::min(o.v, bv), 0, 0}; break; case AtomicRMWInst::Nand: n = {~(o.v & bv) & mask(w), 0, 0}; break; default: fatal("atomicrmw"); }
        storeMem(p, w, n); fp[ip->d] = o; ip++; break; }
      case O_CMPXCHG: {
        u64 p = concretize(R(ip->a), 64); const Val e = R(ip->b), n = R(ip->c); Val o = loadMem(p, ip->w); u64 ov = concretize(o, ip->w), ev = concretize(e, ip->w);
        bool ok = ov == ev; if (ok) storeMem(p, ip->w, n); fp[ip->d] = {ov, 0, 0}; fp[ip->d + 1] = {ok, 0, 0}; ip++; break; }
      default: fatal("bytecode");
      }
    }
  }
#undef R
#undef BINC
