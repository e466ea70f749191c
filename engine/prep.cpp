// prep: turns the bitcode of the whole server (rustc, unoptimised) into the
// program the symbolic executor runs: environment functions lose their bodies,
// everything unreachable from main is dropped, and LLVM's scalar optimiser runs.
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <set>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/Scalar/Scalarizer.h>
#include <llvm/Transforms/Utils/ModuleUtils.h>
#include <cstdio>
#include <cstring>
#include <string>
using namespace llvm;

static bool has(StringRef s, const char *n) { return s.contains(n); }

int main(int argc, char **argv) {
  if (argc < 3) { fprintf(stderr, "usage: prep in.bc out.bc\n"); return 2; }
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print("prep", errs()); return 2; }
  Function *entry = nullptr;
  for (Function &F : *M) {
    StringRef n = F.getName();
    if (F.isDeclaration()) continue;
    if (n.starts_with("_ZN8hirverif4main17h")) entry = &F;
    bool external = false;
    // Panic entry points: reaching one is a violation.
    static const char *panics[] = {
        "4core9panicking9panic_fmt", "4core9panicking18panic_nounwind_fmt", "3std9panicking11begin_panic17h",
        "3std9panicking20rust_panic_with_hook", "3std9panicking19begin_panic_handler", "4core3str16slice_error_fail17h",
        "5alloc5alloc18handle_alloc_error17h", "4core9panicking19assert_failed_inner", "3std3sys4unix17abort_internal", "3std7process5abort",
        "4core9panicking5panic17h", "4core9panicking18panic_bounds_check", "4core6result13unwrap_failed", "4core6option13expect_failed", nullptr};
    for (auto p = panics; *p; ++p) if (has(n, *p)) external = true;
    if (n == "__rust_alloc" || n == "__rust_dealloc" || n == "__rust_realloc" || n == "__rust_alloc_zeroed" ||
        n == "rust_begin_unwind" || n == "__rust_start_panic" || n == "__rust_alloc_error_handler" || n == "__rust_foreign_exception" || n == "__rust_drop_panic")
      external = true;
    // memcpy & co. of compiler_builtins, if any
    if (n == "memcpy" || n == "memmove" || n == "memset" || n == "memcmp" || n == "bcmp" || n == "strlen") external = true;
    if (external) {
      F.deleteBody();
      F.setLinkage(GlobalValue::ExternalLinkage);
      F.setComdat(nullptr);
      continue;
    }
    // The hash of a HashMap key is a constant: maps degenerate to scanned lists.
    bool hw = (has(n, "4core4hash3sip") || has(n, "core..hash..sip..") || has(n, "DefaultHasher$u20$as$u20$core..hash..Hasher")) &&
              !has(n, "Debug");
    if (hw && (has(n, "6finish17h") || has(n, "Hasher$GT$5write17h") || has(n, "9write_str17h") || has(n, "8write_u8") || has(n, "8write_usize") || has(n, "9write_u32") || has(n,"9write_u64") || has(n, "15write_length_prefix") || has(n, "11short_write"))) {
      F.deleteBody();
      F.setComdat(nullptr);
      F.setLinkage(GlobalValue::InternalLinkage);
      BasicBlock *B = BasicBlock::Create(ctx, "", &F);
      IRBuilder<> ib(B);
      if (F.getReturnType()->isVoidTy()) ib.CreateRetVoid();
      else ib.CreateRet(Constant::getNullValue(F.getReturnType()));
    }
  }
  // std's vectorised substring search, as one loop over all offsets that does not branch on
  // the text: any(bcmp(haystack + i, needle, n) == 0).
  for (Function &F : *M) {
    if (F.isDeclaration() || !has(F.getName(), "4core3str7pattern13simd_contains17h") || F.arg_size() != 4 || !F.getReturnType()->isIntegerTy(8)) continue;
    F.deleteBody();
    F.setLinkage(GlobalValue::InternalLinkage);
    F.setComdat(nullptr);
    Type *i8 = Type::getInt8Ty(ctx), *i32 = Type::getInt32Ty(ctx), *i64 = Type::getInt64Ty(ctx), *ptr = PointerType::get(ctx, 0);
    FunctionCallee bcmp = M->getOrInsertFunction("bcmp", FunctionType::get(i32, {ptr, ptr, i64}, false));
    Value *nd = F.getArg(0), *nl = F.getArg(1), *h = F.getArg(2), *hl = F.getArg(3);
    BasicBlock *E = BasicBlock::Create(ctx, "", &F), *L = BasicBlock::Create(ctx, "", &F), *X = BasicBlock::Create(ctx, "", &F), *Z = BasicBlock::Create(ctx, "", &F);
    IRBuilder<> ib(E);
    ib.CreateCondBr(ib.CreateICmpUGT(nl, hl), Z, L);
    ib.SetInsertPoint(Z);
    ib.CreateRet(ConstantInt::get(i8, 0));
    ib.SetInsertPoint(L);
    PHINode *i = ib.CreatePHI(i64, 2), *acc = ib.CreatePHI(i8, 2);
    Value *c = ib.CreateCall(bcmp, {ib.CreateGEP(i8, h, i), nd, nl});
    Value *a2 = ib.CreateOr(acc, ib.CreateZExt(ib.CreateICmpEQ(c, ConstantInt::get(i32, 0)), i8));
    Value *i2 = ib.CreateAdd(i, ConstantInt::get(i64, 1));
    i->addIncoming(ConstantInt::get(i64, 0), E); i->addIncoming(i2, L);
    acc->addIncoming(ConstantInt::get(i8, 0), E); acc->addIncoming(a2, L);
    ib.CreateCondBr(ib.CreateICmpUGT(i2, ib.CreateSub(hl, nl)), X, L);
    ib.SetInsertPoint(X);
    ib.CreateRet(a2);
  }
  // The file system is a list of files that the harness keeps.
  if (Function *S = M->getFunction("hv_stat64"))
    for (const char *n : {"stat64", "stat"})
      if (Function *F = M->getFunction(n)) if (F->isDeclaration() && F->getFunctionType() == S->getFunctionType()) F->replaceAllUsesWith(S);
  if (Function *S = M->getFunction("hv_realpath"))
    if (Function *F = M->getFunction("realpath")) if (F->isDeclaration() && F->getFunctionType() == S->getFunctionType()) F->replaceAllUsesWith(S);
  if (!entry) { fprintf(stderr, "prep: no entry function\n"); return 2; }
  StripDebugInfo(*M);
  std::vector<GlobalVariable *> del;
  for (GlobalVariable &g : M->globals())
    if (g.getName() == "llvm.used" || g.getName() == "llvm.compiler.used" || g.getName() == "llvm.global_ctors") del.push_back(&g);
  for (auto *g : del) g->eraseFromParent();
  for (Function &F : *M) { F.removeFnAttr("target-features"); F.removeFnAttr("target-cpu"); F.removeFnAttr("probe-stack"); }
  for (Function &F : *M)
    if (!F.isDeclaration() && &F != entry) { F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); F.setDLLStorageClass(GlobalValue::DefaultStorageClass); F.setVisibility(GlobalValue::DefaultVisibility); }
  for (GlobalVariable &g : M->globals())
    if (!g.isDeclaration()) { g.setComdat(nullptr); g.setVisibility(GlobalValue::DefaultVisibility); g.setLinkage(GlobalValue::InternalLinkage); }
  for (GlobalAlias &a : M->aliases()) { a.setVisibility(GlobalValue::DefaultVisibility); a.setLinkage(GlobalValue::InternalLinkage); }
  entry->setLinkage(GlobalValue::ExternalLinkage);
  entry->setVisibility(GlobalValue::DefaultVisibility);
  entry->setName("hv_entry");

  PipelineTuningOptions PTO;
  PTO.LoopVectorization = false;
  PTO.SLPVectorization = false;
  PTO.LoopUnrolling = false;
  PTO.LoopInterleaving = false;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB(nullptr, PTO);
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager pre;
  pre.addPass(GlobalDCEPass());
  pre.run(*M, MAM);
  unsigned n0 = 0; for (Function &F : *M) n0 += !F.isDeclaration();
  if (argc > 3) {
    // The functions of the repository that are part of the encoding (before inlining).
    std::set<std::string> names;
    for (Function &F : *M) {
      if (F.isDeclaration() || !(has(F.getName(), "12hyper_ir_lsp") || has(F.getName(), "8hirverif") || has(F.getName(), "hyper_ir_lsp..") || has(F.getName(), "hirverif.."))) continue;
      std::string d = demangle(F.getName().str());
      size_t h = d.rfind("::h");
      if (h != std::string::npos && d.size() - h == 19) d.resize(h);
      names.insert(d);
    }
    if (FILE *f = fopen(argv[3], "w")) { for (auto &n : names) fprintf(f, "%s\n", n.c_str()); fclose(f); }
  }
  ModulePassManager MPM = PB.buildPerModuleDefaultPipeline(getenv("PREP_O2") ? OptimizationLevel::O2 : OptimizationLevel::O1);
  MPM.run(*M, MAM);
  ModulePassManager post;
  post.addPass(GlobalDCEPass());
  post.run(*M, MAM);
  unsigned n1 = 0; for (Function &F : *M) n1 += !F.isDeclaration();
  for (Function &F : *M) for (auto &B : F) { B.setName(""); for (auto &I : B) I.setName(""); }
  fprintf(stderr, "prep: %u functions reachable, %u after optimisation\n", n0, n1);
  if (verifyModule(*M, &errs())) { fprintf(stderr, "prep: broken module\n"); return 2; }
  std::error_code ec;
  raw_fd_ostream os(argv[2], ec);
  WriteBitcodeToFile(*M, os);
  return 0;
}
