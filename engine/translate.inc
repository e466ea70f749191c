  // ------------------------------------------------------------ LLVM -> bytecode (included in Engine)
  static unsigned slots(Type *T) {
    if (T->isVoidTy()) return 0;
    if (auto *I = dyn_cast<IntegerType>(T)) return (I->getBitWidth() + 63) / 64;
    if (T->isPointerTy() || T->isFloatTy() || T->isDoubleTy()) return 1;
    if (auto *S = dyn_cast<StructType>(T)) { unsigned n = 0; for (Type *e : S->elements()) n += slots(e); return n; }
    if (auto *A = dyn_cast<ArrayType>(T)) return A->getNumElements() * slots(A->getElementType());
    if (auto *V = dyn_cast<FixedVectorType>(T)) return V->getNumElements() * slots(V->getElementType());
    if (T->isTokenTy() || T->isMetadataTy() || T->isLabelTy()) return 0;
    if (T->isX86_FP80Ty() || T->isFP128Ty()) return 2;
    std::string s; raw_string_ostream o(s); T->print(o); fprintf(stderr, "symex: type %s\n", s.c_str()); return 1;
  }
  unsigned bits(Type *T) { if (auto *I = dyn_cast<IntegerType>(T)) return I->getBitWidth(); if (T->isPointerTy() || T->isDoubleTy()) return 64; if (T->isFloatTy()) return 32; return 64; }
  // flattened leaves of a type: (byte offset, bits)
  void leaves(Type *T, u64 off, std::vector<std::pair<u64, unsigned>> &o) {
    if (auto *I = dyn_cast<IntegerType>(T)) { unsigned w = I->getBitWidth(); for (unsigned k = 0; k < w; k += 64) o.push_back({off + k / 8, std::min(64u, w - k)}); return; }
    if (auto *S = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) leaves(S->getElementType(i), off + L->getElementOffset(i), o); return; }
    if (auto *A = dyn_cast<ArrayType>(T)) { u64 sz = DL->getTypeAllocSize(A->getElementType()); for (u64 i = 0; i < A->getNumElements(); i++) leaves(A->getElementType(), off + i * sz, o); return; }
    if (auto *V = dyn_cast<FixedVectorType>(T)) { u64 sz = DL->getTypeSizeInBits(V->getElementType()) / 8; if (!sz) sz = 1; for (u64 i = 0; i < V->getNumElements(); i++) leaves(V->getElementType(), off + i * sz, o); return; }
    o.push_back({off, bits(T)});
  }
  u64 fnAddr(const Function *F) { return FNBASE + 16ull * fnIdx.at(F); }
  u64 constAddr(const Constant *C) { std::vector<Val> v; flat(C, v); return v[0].v; }
  void flat(const Constant *C, std::vector<Val> &o) {
    Type *T = C->getType(); unsigned n = slots(T);
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C) || isa<ConstantTokenNone>(C)) { for (unsigned i = 0; i < n; i++) o.push_back({0, 0, 0}); return; }
    if (auto *I = dyn_cast<ConstantInt>(C)) { const APInt &a = I->getValue(); for (unsigned i = 0; i < a.getNumWords(); i++) o.push_back({a.getRawData()[i], 0, 0}); return; }
    if (auto *F = dyn_cast<ConstantFP>(C)) { o.push_back({F->getValueAPF().bitcastToAPInt().getZExtValue(), 0, 0}); return; }
    if (auto *F = dyn_cast<Function>(C)) { o.push_back({F->hasExternalWeakLinkage() ? 0 : fnAddr(F), 0, 0}); return; }
    if (auto *G = dyn_cast<GlobalVariable>(C)) { o.push_back({gaddr.at(G), 0, 0}); return; }
    if (auto *A = dyn_cast<GlobalAlias>(C)) { flat(A->getAliasee(), o); return; }
    if (auto *A = dyn_cast<ConstantAggregate>(C)) { for (auto &op : A->operands()) flat(cast<Constant>(op.get()), o); return; }
    if (auto *D = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < D->getNumElements(); i++) flat(D->getElementAsConstant(i), o); return; }
    if (auto *E = dyn_cast<ConstantExpr>(C)) {
      if (auto *G = dyn_cast<GEPOperator>(E)) {
        u64 a = constAddr(cast<Constant>(G->getPointerOperand()));
        for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
          std::vector<Val> iv; flat(cast<Constant>(it.getOperand()), iv);
          if (StructType *S = it.getStructTypeOrNull()) a += DL->getStructLayout(S)->getElementOffset(iv[0].v);
          else a += (u64)sx(iv[0].v, bits(it.getOperand()->getType())) * DL->getTypeAllocSize(it.getIndexedType());
        }
        o.push_back({a, 0, 0}); return; }
      auto arg = [&](unsigned i) { std::vector<Val> v; flat(E->getOperand(i), v); return v[0].v; };
      unsigned w = bits(T);
      switch (E->getOpcode()) {
      case Instruction::PtrToInt: case Instruction::Trunc: o.push_back({arg(0) & mask(w), 0, 0}); return;
      case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: o.push_back({arg(0), 0, 0}); return;
      case Instruction::Sub: o.push_back({(arg(0) - arg(1)) & mask(w), 0, 0}); return;
      case Instruction::Add: o.push_back({(arg(0) + arg(1)) & mask(w), 0, 0}); return;
      case Instruction::Xor: o.push_back({(arg(0) ^ arg(1)) & mask(w), 0, 0}); return;
      case Instruction::ICmp: { u64 a = arg(0), b = arg(1); switch (E->getPredicate()) { case CmpInst::ICMP_EQ: o.push_back({a == b, 0, 0}); return; case CmpInst::ICMP_NE: o.push_back({a != b, 0, 0}); return; default: break; } break; }
      default: break;
      }
    }
    std::string s; raw_string_ostream os(s); C->print(os); fatal("constant " + s);
  }
  void initGlobal(const Constant *C, u64 a) {
    Type *T = C->getType();
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return;
    if (auto *D = dyn_cast<ConstantDataSequential>(C)) { StringRef r = D->getRawDataValues(); memcpy((void *)a, r.data(), r.size()); return; }
    if (auto *S = dyn_cast<ConstantStruct>(C)) { auto *L = DL->getStructLayout(cast<StructType>(T)); for (unsigned i = 0; i < S->getNumOperands(); i++) initGlobal(S->getOperand(i), a + L->getElementOffset(i)); return; }
    if (auto *A = dyn_cast<ConstantArray>(C)) { u64 sz = DL->getTypeAllocSize(cast<ArrayType>(T)->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); i++) initGlobal(A->getOperand(i), a + i * sz); return; }
    std::vector<Val> v; flat(C, v); std::vector<std::pair<u64, unsigned>> l; leaves(T, 0, l);
    for (size_t i = 0; i < l.size(); i++) memcpy((void *)(a + l[i].first), &v[i].v, (l[i].second + 7) / 8);
  }

  struct Tr { Fn *f; std::unordered_map<const Value *, s32> loc; std::unordered_map<const BasicBlock *, u32> start; std::vector<std::tuple<u32, int, const BasicBlock *>> fix; u32 next = 0; };
  s32 base(Tr &t, const Value *V) {
    auto it = t.loc.find(V); if (it != t.loc.end()) return it->second;
    if (auto *C = dyn_cast<Constant>(V)) { s32 k = t.f->K.size(); flat(C, t.f->K); if (t.f->K.size() == (size_t)k) t.f->K.push_back({0, 0, 0}); t.loc[V] = ~k; return ~k; }
    s32 r = t.next; t.next += std::max(1u, slots(V->getType())); t.loc[V] = r; return r;
  }
  s32 ref(Tr &t, const Value *V, unsigned lane = 0) { s32 b = base(t, V); return b >= 0 ? b + (s32)lane : ~(~b + (s32)lane); }
  s32 kref(Tr &t, u64 v) { s32 k = t.f->K.size(); t.f->K.push_back({v, 0, 0}); return ~k; }
  s32 tmp(Tr &t) { return t.next++; }
  Ins &emit(Tr &t, Op op, unsigned w = 0, s32 d = 0, s32 a = 0, s32 b = 0, s32 c = 0, u32 x = 0, u64 imm = 0, unsigned k = 0) {
    t.f->code.push_back({(u16)op, (u8)w, (u8)k, d, a, b, c, x, imm}); return t.f->code.back();
  }
  // jump to S from B with phi moves; returns code index of the edge
  void edge(Tr &t, const BasicBlock *B, const BasicBlock *S, u32 insIdx, int field) {
    bool phis = isa<PHINode>(S->front());
    if (!phis) { t.fix.push_back({insIdx, field, S}); return; }
    u32 at = t.f->code.size(); setField(t, insIdx, field, at);
    emitMoves(t, B, S);
    emit(t, O_BR); t.fix.push_back({(u32)t.f->code.size() - 1, 0, S});
  }
  void setField(Tr &t, u32 i, int field, u32 v) {
    Ins &I = t.f->code[i];
    if (field == 0) I.x = v; else if (field == 1) I.c = v; else { SwitchT &s = t.f->sw[I.x]; if (field == 2) s.def = v; else s.cases[field - 3].second = v; }
  }
  void emitMoves(Tr &t, const BasicBlock *B, const BasicBlock *S) {
    std::vector<std::pair<s32, s32>> mv; std::set<s32> dst;
    for (auto &P : S->phis()) { const Value *V = P.getIncomingValueForBlock(B); for (unsigned i = 0; i < slots(P.getType()); i++) { s32 d = ref(t, &P, i), s = ref(t, V, i); if (d != s) { mv.push_back({d, s}); dst.insert(d); } } }
    bool hazard = false; for (auto &m : mv) if (dst.count(m.second)) hazard = true;
    if (!hazard) { for (auto &m : mv) emit(t, O_MOV, 0, m.first, m.second); return; }
    std::vector<s32> tm; for (auto &m : mv) { if (dst.count(m.second)) { s32 x = tmp(t); emit(t, O_MOV, 0, x, m.second); tm.push_back(x); } else tm.push_back(m.second); }
    for (size_t i = 0; i < mv.size(); i++) emit(t, O_MOV, 0, mv[i].first, tm[i]);
  }
  static unsigned nlanes(Type *T) { if (auto *V = dyn_cast<FixedVectorType>(T)) return V->getNumElements(); return 1; }
  static Type *scal(Type *T) { return T->getScalarType(); }

  void wide(Tr &t, unsigned kind, unsigned w, s32 d, s32 a, s32 b, unsigned k = 0) { emit(t, O_WIDE, 0, d, a, b, w, kind, 0, k); }

  void translate(Fn *f) {
    f->ready = true; Tr t; t.f = f; const Function &F = *f->F;
    for (auto &A : F.args()) { base(t, &A); if (slots(A.getType()) == 0) {} }
    f->nargs = t.next;
    u64 fr = 0;
    for (auto &B : F) {
      t.start[&B] = f->code.size();
      for (auto &I : B) trIns(t, F, B, I, fr);
    }
    for (auto &x : t.fix) setField(t, std::get<0>(x), std::get<1>(x), t.start.at(std::get<2>(x)));
    f->nregs = t.next + 1; f->frame = (fr + 15) & ~15ull;
    u32 id = fnIdx.at(f->F); if (id < 40000) sh->fnUsed[id] = 1;
  }

  void callIns(Tr &t, const CallBase &I) {
    const Value *cv = I.getCalledOperand()->stripPointerCasts();
    if (auto *A = dyn_cast<GlobalAlias>(cv)) cv = A->getAliasee()->stripPointerCasts();
    s32 d = ref(t, &I);
    if (isa<InlineAsm>(cv)) {
      auto *ia = cast<InlineAsm>(cv); std::string s = ia->getAsmString();
      unsigned n = slots(I.getType());
      if (s.find("cpuid") != std::string::npos || s.empty()) { for (unsigned i = 0; i < n; i++) emit(t, O_MOV, 0, d + i, kref(t, 0)); return; }
      emit(t, O_TRAP, 0, 0, 0, 0, 0, 2); return;
    }
    auto *CF = dyn_cast<Function>(cv);
    if (CF && CF->isIntrinsic()) { intrinsic(t, I, CF); return; }
    u32 ax = t.f->aux.size(); std::vector<s32> args;
    for (auto &a : I.args()) { unsigned n = slots(a->getType()); for (unsigned i = 0; i < n; i++) args.push_back(ref(t, a, i)); if (n == 0 && !a->getType()->isMetadataTy()) {} }
    t.f->aux.push_back(args.size()); for (s32 a : args) t.f->aux.push_back(a);
    if (CF) emit(t, CF->isDeclaration() ? O_EXT : O_CALL, 0, d, fnIdx.at(CF), slots(I.getType()), 0, ax);
    else emit(t, O_CALLI, 0, d, ref(t, cv), slots(I.getType()), 0, ax);
  }

  void intrinsic(Tr &t, const CallBase &I, const Function *CF) {
    StringRef n = CF->getName(); s32 d = ref(t, &I); auto A = [&](unsigned i, unsigned l = 0) { return ref(t, I.getArgOperand(i), l); };
    Type *T = I.getType(); unsigned L = nlanes(T); unsigned w = T->isVoidTy() ? 0 : bits(scal(T));
    auto sw = [&](const char *p) { return n.starts_with(p); };
    if (sw("llvm.lifetime") || sw("llvm.assume") || sw("llvm.experimental.noalias") || sw("llvm.dbg") || sw("llvm.invariant") || sw("llvm.donothing") || sw("llvm.x86.sse2.pause") || sw("llvm.prefetch") || sw("llvm.va_") || sw("llvm.sideeffect")) return;
    if (sw("llvm.memcpy") || sw("llvm.memmove")) { emit(t, O_MEMCPY, 0, 0, A(0), A(1), A(2)); return; }
    if (sw("llvm.memset")) { emit(t, O_MEMSET, 0, 0, A(0), A(1), A(2)); return; }
    if (sw("llvm.trap") || sw("llvm.ubsantrap") || sw("llvm.debugtrap")) { emit(t, O_TRAP, 0, 0, 0, 0, 0, 1); return; }
    if (sw("llvm.expect") || sw("llvm.launder") || sw("llvm.strip.inv") || sw("llvm.ssa.copy") || sw("llvm.threadlocal.address") || sw("llvm.ptr.annotation")) { for (unsigned i = 0; i < slots(T); i++) emit(t, O_MOV, 0, d + i, A(0, i)); return; }
    if (sw("llvm.load.relative")) { // base + sext(load i32 (base+off))
      s32 x = tmp(t), y = tmp(t), z = tmp(t); emit(t, O_GEP, 64, x, A(0), A(1), 0, 1, 0, bits(I.getArgOperand(1)->getType())); emit(t, O_LOAD, 32, y, x); emit(t, O_SEXT, 64, z, y, 0, 0, 0, 0, 32); emit(t, O_ADD, 64, d, A(0), z); return; }
    if (sw("llvm.is.constant")) { emit(t, O_MOV, 0, d, kref(t, 0)); return; }
    if (sw("llvm.x86.sse2.psad.bw")) { emit(t, O_PSAD, 0, d, A(0), A(1)); return; }
    if (sw("llvm.x86.sse2.pmovmskb")) { // sign bits of 16 bytes
      s32 acc = kref(t, 0); for (unsigned i = 0; i < 16; i++) { s32 b = tmp(t), z = tmp(t), s = tmp(t), o = i == 15 ? d : tmp(t); emit(t, O_LSHR, 8, b, A(0, i), kref(t, 7)); emit(t, O_ZEXT, 32, z, b, 0, 0, 0, 0, 8); emit(t, O_SHL, 32, s, z, kref(t, i)); emit(t, O_OR, 32, o, acc, s); acc = o; } return; }
    if (sw("llvm.vector.reduce.")) {
      Type *V = I.getArgOperand(0)->getType(); unsigned N = nlanes(V); Op op = O_NOP; int b2 = -1;
      if (n.contains(".add.")) op = O_ADD; else if (n.contains(".mul.")) op = O_MUL; else if (n.contains(".or.")) op = O_OR; else if (n.contains(".and.")) op = O_AND; else if (n.contains(".xor.")) op = O_XOR;
      else if (n.contains("umax")) b2 = B_UMAX; else if (n.contains("umin")) b2 = B_UMIN; else if (n.contains("smax")) b2 = B_SMAX; else if (n.contains("smin")) b2 = B_SMIN; else { emit(t, O_TRAP, 0, 0, 0, 0, 0, 2); return; }
      s32 acc = A(0, 0); for (unsigned i = 1; i < N; i++) { s32 o = i == N - 1 ? d : tmp(t); if (op != O_NOP) emit(t, op, w, o, acc, A(0, i)); else emit(t, O_BIN2, w, o, acc, A(0, i), 0, 0, 0, b2); acc = o; }
      if (N == 1) emit(t, O_MOV, 0, d, acc); return; }
    int ov = n.contains("uadd.with") ? V_UADD : n.contains("usub.with") ? V_USUB : n.contains("umul.with") ? V_UMUL : n.contains("sadd.with") ? V_SADD : n.contains("ssub.with") ? V_SSUB : n.contains("smul.with") ? V_SMUL : -1;
    if (ov >= 0) { w = bits(I.getArgOperand(0)->getType()); if (w > 64) { wide(t, 100 + ov, w, d, A(0), A(1)); return; } emit(t, O_OVF, w, d, A(0), A(1), 0, 0, 0, ov); return; }
    int un = sw("llvm.ctpop") ? U_CTPOP : sw("llvm.ctlz") ? U_CTLZ : sw("llvm.cttz") ? U_CTTZ : sw("llvm.bswap") ? U_BSWAP : sw("llvm.abs") ? U_ABS : sw("llvm.bitreverse") ? U_BITREV : -1;
    if (un >= 0) { if (w > 64) { wide(t, 200 + un, w, d, A(0), A(0)); return; } for (unsigned i = 0; i < L; i++) emit(t, O_UN, w, d + i, A(0, i), 0, 0, 0, 0, un); return; }
    int b2 = sw("llvm.umin") ? B_UMIN : sw("llvm.umax") ? B_UMAX : sw("llvm.smin") ? B_SMIN : sw("llvm.smax") ? B_SMAX : sw("llvm.uadd.sat") ? B_UADDS : sw("llvm.usub.sat") ? B_USUBS : sw("llvm.sadd.sat") ? B_SADDS : sw("llvm.ssub.sat") ? B_SSUBS : -1;
    if (b2 >= 0) { if (w > 64) { wide(t, 300 + b2, w, d, A(0), A(1)); return; } for (unsigned i = 0; i < L; i++) emit(t, O_BIN2, w, d + i, A(0, i), A(1, i), 0, 0, 0, b2); return; }
    if (sw("llvm.fshl") || sw("llvm.fshr")) { for (unsigned i = 0; i < L; i++) emit(t, O_FSH, w, d + i, A(0, i), A(1, i), A(2, i), 0, 0, sw("llvm.fshr")); return; }
    if (sw("llvm.ucmp") || sw("llvm.scmp")) { emit(t, O_TRAP, 0, 0, 0, 0, 0, 2); return; }
    if (sw("llvm.fptosi.sat")) { emit(t, O_FP, w, d, A(0), 0, 0, 40, 0, bits(I.getArgOperand(0)->getType())); return; }
    if (sw("llvm.fptoui.sat")) { emit(t, O_FP, w, d, A(0), 0, 0, 41, 0, bits(I.getArgOperand(0)->getType())); return; }
    if (sw("llvm.fabs")) { emit(t, O_FP, w, d, A(0), 0, 0, 42, 0, w); return; }
    if (sw("llvm.floor")) { emit(t, O_FP, w, d, A(0), 0, 0, 43, 0, w); return; }
    emit(t, O_TRAP, 0, 0, 0, 0, fnIdx.at(CF), 2);
  }

  void trIns(Tr &t, const Function &F, const BasicBlock &B, const Instruction &I, u64 &fr) {
    Type *T = I.getType(); unsigned w = T->isVoidTy() ? 0 : bits(scal(T)); unsigned L = nlanes(T);
    auto A = [&](unsigned i, unsigned l = 0) { return ref(t, I.getOperand(i), l); };
    auto iw = [&](unsigned i) { return bits(scal(I.getOperand(i)->getType())); };
    switch (I.getOpcode()) {
    case Instruction::PHI: base(t, &I); return;
    case Instruction::Ret: {
      u32 ax = t.f->aux.size(); if (I.getNumOperands()) { unsigned n = slots(I.getOperand(0)->getType()); t.f->aux.push_back(n); for (unsigned i = 0; i < n; i++) t.f->aux.push_back(A(0, i)); } else t.f->aux.push_back(0);
      emit(t, O_RET, 0, 0, 0, 0, 0, ax); return; }
    case Instruction::Br: {
      auto &b = cast<BranchInst>(I);
      if (b.isUnconditional()) { emitMoves(t, &B, b.getSuccessor(0)); emit(t, O_BR); t.fix.push_back({(u32)t.f->code.size() - 1, 0, b.getSuccessor(0)}); return; }
      u32 i = t.f->code.size(); emit(t, O_CBR, 1, 0, A(0));
      edge(t, &B, b.getSuccessor(0), i, 0); edge(t, &B, b.getSuccessor(1), i, 1); return; }
    case Instruction::Switch: {
      auto &s = cast<SwitchInst>(I); u32 i = t.f->code.size(); u32 si = t.f->sw.size(); t.f->sw.emplace_back();
      unsigned cw = iw(0); if (cw > 64) { emit(t, O_TRAP, 0, 0, 0, 0, 0, 2); return; }
      emit(t, O_SWITCH, cw, 0, A(0), 0, 0, si);
      std::vector<std::pair<u64, const BasicBlock *>> cs; for (auto &c : s.cases()) cs.push_back({c.getCaseValue()->getZExtValue(), c.getCaseSuccessor()});
      std::sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
      for (auto &c : cs) t.f->sw[si].cases.push_back({c.first, 0});
      std::map<const BasicBlock *, u32> done;
      for (size_t k = 0; k < cs.size(); k++) {
        auto it = done.find(cs[k].second);
        if (it != done.end()) { t.f->sw[si].cases[k].second = it->second; continue; }
        // one edge stub per successor: emit a BR so that the target index is known now
        u32 at = t.f->code.size(); emitMoves(t, &B, cs[k].second); emit(t, O_BR); t.fix.push_back({(u32)t.f->code.size() - 1, 0, cs[k].second});
        t.f->sw[si].cases[k].second = at; done[cs[k].second] = at;
      }
      edge(t, &B, s.getDefaultDest(), i, 2); return; }
    case Instruction::Unreachable: emit(t, O_TRAP); return;
    case Instruction::LandingPad: case Instruction::Resume: case Instruction::CleanupPad: case Instruction::CatchPad: case Instruction::CatchSwitch: case Instruction::CleanupRet: case Instruction::CatchRet: base(t, &I); emit(t, O_TRAP, 0, 0, 0, 0, 0, 3); return;
    case Instruction::Call: callIns(t, cast<CallBase>(I)); return;
    case Instruction::Invoke: { callIns(t, cast<CallBase>(I)); auto *N = cast<InvokeInst>(I).getNormalDest(); emitMoves(t, &B, N); emit(t, O_BR); t.fix.push_back({(u32)t.f->code.size() - 1, 0, N}); return; }
    case Instruction::Alloca: {
      auto &a = cast<AllocaInst>(I); u64 sz = DL->getTypeAllocSize(a.getAllocatedType()); u64 al = a.getAlign().value();
      if (auto *n = dyn_cast<ConstantInt>(a.getArraySize())) { if (&B == &F.getEntryBlock()) { fr = (fr + al - 1) & ~(al - 1); emit(t, O_ALLOCA, 64, ref(t, &I), 0, 0, 0, 0, fr); fr += sz * n->getZExtValue(); if (al > 4096) fatal("alloca alignment"); return; } }
      emit(t, O_ALLOCAD, iw(0), ref(t, &I), A(0), 0, 0, 0, sz); return; }
    case Instruction::Load: {
      std::vector<std::pair<u64, unsigned>> l; leaves(T, 0, l); s32 d = ref(t, &I);
      if (T->isVectorTy() && bits(scal(T)) % 8) { emit(t, O_TRAP, 0, 0, 0, 0, 0, 2); return; }
      for (size_t i = 0; i < l.size(); i++) emit(t, O_LOAD, l[i].second, d + i, A(0), 0, 0, 0, l[i].first); return; }
    case Instruction::Store: {
      Type *V = I.getOperand(0)->getType(); std::vector<std::pair<u64, unsigned>> l; leaves(V, 0, l);
      if (V->isVectorTy() && bits(scal(V)) % 8) { emit(t, O_TRAP, 0, 0, 0, 0, 0, 2); return; }
      for (size_t i = 0; i < l.size(); i++) emit(t, O_STORE, l[i].second, 0, A(1), A(0, i), 0, 0, l[i].first); return; }
    case Instruction::GetElementPtr: {
      auto &g = cast<GetElementPtrInst>(I); if (T->isVectorTy()) { emit(t, O_TRAP, 0, 0, 0, 0, 0, 2); return; }
      u64 off = 0; std::vector<std::tuple<s32, u64, unsigned>> idx;
      for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
        const Value *ix = it.getOperand();
        if (StructType *S = it.getStructTypeOrNull()) { off += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
        u64 sz = DL->getTypeAllocSize(it.getIndexedType());
        if (auto *c = dyn_cast<ConstantInt>(ix)) { off += (u64)c->getSExtValue() * sz; continue; }
        idx.push_back({ref(t, ix), sz, bits(ix->getType())});
      }
      s32 d = ref(t, &I), cur0 = ref(t, g.getPointerOperand());
      if (idx.empty()) { emit(t, O_GEPC, 64, d, cur0, 0, 0, 0, off); return; }
      for (size_t i = 0; i < idx.size(); i++) { s32 o = i + 1 == idx.size() ? d : tmp(t); emit(t, O_GEP, 64, o, cur0, std::get<0>(idx[i]), 0, (u32)std::get<1>(idx[i]), i == 0 ? off : 0, std::get<2>(idx[i])); cur0 = o; }
      return; }
    case Instruction::ICmp: {
      auto &c = cast<ICmpInst>(I); unsigned ow = iw(0); s32 d = ref(t, &I);
      if (ow > 64) {
        if (c.isEquality() && L == 1) { unsigned n = (ow + 63) / 64; s32 acc = 0; for (unsigned i = 0; i < n; i++) { s32 e = tmp(t); emit(t, O_ICMP, 64, e, A(0, i), A(1, i), 0, 0, 0, CmpInst::ICMP_EQ); if (i) { s32 o = tmp(t); emit(t, O_AND, 1, o, acc, e); acc = o; } else acc = e; } if (c.getPredicate() == CmpInst::ICMP_NE) emit(t, O_XOR, 1, d, acc, kref(t, 1)); else emit(t, O_MOV, 0, d, acc); return; }
        wide(t, 400, ow, d, A(0), A(1), c.getPredicate()); return; }
      for (unsigned i = 0; i < L; i++) emit(t, O_ICMP, ow, d + i, A(0, i), A(1, i), 0, 0, 0, c.getPredicate()); return; }
    case Instruction::Select: {
      unsigned n = slots(T); s32 d = ref(t, &I); bool vc = I.getOperand(0)->getType()->isVectorTy();
      std::vector<std::pair<u64, unsigned>> l; leaves(T, 0, l); bool ptr = scal(T)->isPointerTy() || T->isAggregateType();
      for (unsigned i = 0; i < n; i++) emit(t, O_SELECT, l[i].second, d + i, vc ? A(0, i) : A(0), A(1, i), A(2, i), 0, 0, ptr); return; }
    case Instruction::Freeze: { s32 d = ref(t, &I); for (unsigned i = 0; i < slots(T); i++) emit(t, O_MOV, 0, d + i, A(0, i)); return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { s32 d = ref(t, &I); unsigned ow = iw(0); for (unsigned i = 0; i < L; i++) { if (w < ow) emit(t, O_TRUNC, w, d + i, A(0, i), 0, 0, 0, 0, ow); else if (w > ow) emit(t, O_ZEXT, w, d + i, A(0, i), 0, 0, 0, 0, ow); else emit(t, O_MOV, 0, d + i, A(0, i)); } return; }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
      s32 d = ref(t, &I); unsigned ow = iw(0);
      if (w <= 64 && ow <= 64) { Op o = I.getOpcode() == Instruction::ZExt ? O_ZEXT : I.getOpcode() == Instruction::SExt ? O_SEXT : O_TRUNC; for (unsigned i = 0; i < L; i++) emit(t, o, w, d + i, A(0, i), 0, 0, 0, 0, ow); return; }
      if (L > 1) { emit(t, O_TRAP, 0, 0, 0, 0, 0, 2); return; }
      unsigned n = (w + 63) / 64, on = (ow + 63) / 64;
      if (I.getOpcode() == Instruction::Trunc) { for (unsigned i = 0; i < n; i++) { unsigned rw = std::min(64u, w - 64 * i); emit(t, O_TRUNC, rw, d + i, A(0, i), 0, 0, 0, 0, std::min(64u, ow - 64 * i)); } return; }
      if (I.getOpcode() == Instruction::ZExt) { for (unsigned i = 0; i < n; i++) { if (i < on) { unsigned sw_ = std::min(64u, ow - 64 * i), dw = std::min(64u, w - 64 * i); emit(t, O_ZEXT, dw, d + i, A(0, i), 0, 0, 0, 0, sw_); } else emit(t, O_MOV, 0, d + i, kref(t, 0)); } return; }
      if (ow <= 64) { emit(t, O_SEXT, 64, d, A(0), 0, 0, 0, 0, ow); for (unsigned i = 1; i < n; i++) { emit(t, O_ASHR, 64, d + i, d, kref(t, 63)); if (i == n - 1 && w % 64) emit(t, O_TRUNC, w % 64, d + i, d + i, 0, 0, 0, 0, 64); } return; }
      emit(t, O_TRAP, 0, 0, 0, 0, 0, 2); return; }
    case Instruction::BitCast: {
      Type *S = I.getOperand(0)->getType(); s32 d = ref(t, &I); unsigned sn = slots(S), dn = slots(T);
      std::vector<std::pair<u64, unsigned>> ls, ld; leaves(S, 0, ls); leaves(T, 0, ld);
      bool same = sn == dn; if (same) for (unsigned i = 0; i < sn; i++) same &= ls[i].second == ld[i].second;
      if (same) { for (unsigned i = 0; i < sn; i++) emit(t, O_MOV, 0, d + i, A(0, i)); return; }
      RepackT r; for (unsigned i = 0; i < sn; i++) r.src.push_back(A(0, i)); r.sw = ls[0].second; r.dn = dn; r.dw = ld[0].second;
      t.f->rp.push_back(r); emit(t, O_REPACK, 0, d, 0, 0, 0, t.f->rp.size() - 1); return; }
    case Instruction::ExtractValue: {
      auto &e = cast<ExtractValueInst>(I); Type *c = e.getAggregateOperand()->getType(); unsigned off = 0;
      for (unsigned ix : e.indices()) { for (unsigned k = 0; k < ix; k++) off += slots(isa<StructType>(c) ? cast<StructType>(c)->getElementType(k) : cast<ArrayType>(c)->getElementType()); c = isa<StructType>(c) ? cast<StructType>(c)->getElementType(ix) : cast<ArrayType>(c)->getElementType(); }
      s32 d = ref(t, &I); for (unsigned i = 0; i < slots(T); i++) emit(t, O_MOV, 0, d + i, A(0, off + i)); return; }
    case Instruction::InsertValue: {
      auto &e = cast<InsertValueInst>(I); Type *c = T; unsigned off = 0;
      for (unsigned ix : e.indices()) { for (unsigned k = 0; k < ix; k++) off += slots(isa<StructType>(c) ? cast<StructType>(c)->getElementType(k) : cast<ArrayType>(c)->getElementType()); c = isa<StructType>(c) ? cast<StructType>(c)->getElementType(ix) : cast<ArrayType>(c)->getElementType(); }
      s32 d = ref(t, &I); unsigned vn = slots(c);
      for (unsigned i = 0; i < slots(T); i++) emit(t, O_MOV, 0, d + i, i >= off && i < off + vn ? A(1, i - off) : A(0, i)); return; }
    case Instruction::ExtractElement: {
      unsigned en = slots(T); auto *V = cast<FixedVectorType>(I.getOperand(0)->getType()); s32 d = ref(t, &I);
      if (auto *c = dyn_cast<ConstantInt>(I.getOperand(1))) { for (unsigned i = 0; i < en; i++) emit(t, O_MOV, 0, d + i, A(0, c->getZExtValue() * en + i)); return; }
      emit(t, O_EXTELT, V->getNumElements() > 255 ? 0 : V->getNumElements(), d, A(0), A(1)); return; }
    case Instruction::InsertElement: {
      auto *V = cast<FixedVectorType>(T); unsigned en = slots(V->getElementType()); s32 d = ref(t, &I);
      auto *c = dyn_cast<ConstantInt>(I.getOperand(2)); if (!c) { emit(t, O_TRAP, 0, 0, 0, 0, 0, 2); return; }
      u64 ix = c->getZExtValue(); for (unsigned i = 0; i < slots(T); i++) emit(t, O_MOV, 0, d + i, i / en == ix ? A(1, i % en) : A(0, i)); return; }
    case Instruction::ShuffleVector: {
      auto &s = cast<ShuffleVectorInst>(I); unsigned N = nlanes(I.getOperand(0)->getType()), en = slots(scal(T)); s32 d = ref(t, &I); auto m = s.getShuffleMask();
      for (unsigned i = 0; i < m.size(); i++) for (unsigned k = 0; k < en; k++) { if (m[i] < 0) emit(t, O_MOV, 0, d + i * en + k, kref(t, 0)); else if ((unsigned)m[i] < N) emit(t, O_MOV, 0, d + i * en + k, A(0, m[i] * en + k)); else emit(t, O_MOV, 0, d + i * en + k, A(1, (m[i] - N) * en + k)); } return; }
    case Instruction::Fence: return;
    case Instruction::AtomicRMW: { auto &r = cast<AtomicRMWInst>(I); emit(t, O_RMW, w, ref(t, &I), A(0), A(1), 0, 0, 0, r.getOperation()); return; }
    case Instruction::AtomicCmpXchg: emit(t, O_CMPXCHG, iw(1), ref(t, &I), A(0), A(1), A(2)); return;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: { s32 d = ref(t, &I); for (unsigned i = 0; i < L; i++) emit(t, O_FP, w, d + i, A(0, i), A(1, i), 0, I.getOpcode() == Instruction::FAdd ? 1 : I.getOpcode() == Instruction::FSub ? 2 : I.getOpcode() == Instruction::FMul ? 3 : I.getOpcode() == Instruction::FDiv ? 4 : 5, 0, w); return; }
    case Instruction::FNeg: emit(t, O_XOR, w, ref(t, &I), A(0), kref(t, 1ull << (w - 1))); return;
    case Instruction::FCmp: { s32 d = ref(t, &I); for (unsigned i = 0; i < L; i++) emit(t, O_FP, iw(0), d + i, A(0, i), A(1, i), 0, 10, cast<FCmpInst>(I).getPredicate(), iw(0)); return; }
    case Instruction::SIToFP: emit(t, O_FP, w, ref(t, &I), A(0), 0, 0, 20, 0, iw(0)); return;
    case Instruction::UIToFP: emit(t, O_FP, w, ref(t, &I), A(0), 0, 0, 21, 0, iw(0)); return;
    case Instruction::FPToSI: emit(t, O_FP, w, ref(t, &I), A(0), 0, 0, 40, 0, iw(0)); return;
    case Instruction::FPToUI: emit(t, O_FP, w, ref(t, &I), A(0), 0, 0, 41, 0, iw(0)); return;
    case Instruction::FPExt: case Instruction::FPTrunc: emit(t, O_FP, w, ref(t, &I), A(0), 0, 0, 24, 0, iw(0)); return;
    default: break;
    }
    if (I.isBinaryOp()) {
      Op op; switch (I.getOpcode()) { case Instruction::Add: op = O_ADD; break; case Instruction::Sub: op = O_SUB; break; case Instruction::Mul: op = O_MUL; break; case Instruction::UDiv: op = O_UDIV; break; case Instruction::SDiv: op = O_SDIV; break; case Instruction::URem: op = O_UREM; break; case Instruction::SRem: op = O_SREM; break; case Instruction::Shl: op = O_SHL; break; case Instruction::LShr: op = O_LSHR; break; case Instruction::AShr: op = O_ASHR; break; case Instruction::And: op = O_AND; break; case Instruction::Or: op = O_OR; break; default: op = O_XOR; }
      s32 d = ref(t, &I);
      if (w > 64) {
        unsigned n = (w + 63) / 64; if (L > 1) { emit(t, O_TRAP, 0, 0, 0, 0, 0, 2); return; }
        if (op == O_AND || op == O_OR || op == O_XOR) { for (unsigned i = 0; i < n; i++) emit(t, op, 64, d + i, A(0, i), A(1, i)); return; }
        if (op == O_SHL || op == O_LSHR) if (auto *c = dyn_cast<ConstantInt>(I.getOperand(1))) if (w % 64 == 0) {
          u64 s = c->getZExtValue(); unsigned ws = s / 64, bs = s % 64;
          for (unsigned i = 0; i < n; i++) {
            auto word = [&](int k) { return k >= 0 && k < (int)n ? A(0, k) : kref(t, 0); };
            int k = op == O_SHL ? (int)i - (int)ws : (int)i + (int)ws;
            if (!bs) { emit(t, O_MOV, 0, d + i, word(k)); continue; }
            s32 x = tmp(t), y = tmp(t);
            if (op == O_SHL) { emit(t, O_SHL, 64, x, word(k), kref(t, bs)); emit(t, O_LSHR, 64, y, word(k - 1), kref(t, 64 - bs)); }
            else { emit(t, O_LSHR, 64, x, word(k), kref(t, bs)); emit(t, O_SHL, 64, y, word(k + 1), kref(t, 64 - bs)); }
            emit(t, O_OR, 64, d + i, x, y);
          }
          return; }
        wide(t, op, w, d, A(0), A(1)); return; }
      for (unsigned i = 0; i < L; i++) emit(t, op, w, d + i, A(0, i), A(1, i));
      return;
    }
    std::string s; raw_string_ostream os(s); I.print(os); fprintf(stderr, "symex: unsupported instruction %s\n", s.c_str());
    emit(t, O_TRAP, 0, 0, 0, 0, 0, 2);
  }
