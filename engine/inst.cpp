// inst: inserts a scheduling point before every atomic access of the real code and redirects the mutex / condition
// variable primitives to the deterministic scheduler in spec/sched.cpp. Used only to replay failed obligations as
// concrete interleavings of the real code.
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;
int main(int argc, char** argv) {
    LLVMContext ctx;
    SMDiagnostic err;
    auto m = parseIRFile(argv[1], err, ctx);
    if (!m) { err.print("inst", errs()); return 3; }
    auto* i32 = Type::getInt32Ty(ctx);
    auto* ptr = PointerType::get(ctx, 0);
    FunctionCallee y = m->getOrInsertFunction("vfs_yield", FunctionType::get(Type::getVoidTy(ctx), {ptr, i32}, false));
    std::vector<std::pair<Instruction*, Value*>> pts;
    for (auto& f : *m) {
        if (f.getName().starts_with("vfs_")) continue;
        for (auto& bb : f)
            for (auto& in : bb) {
                if (auto* l = dyn_cast<LoadInst>(&in)) { if (l->isAtomic()) pts.emplace_back(&in, l->getPointerOperand()); }
                else if (auto* s = dyn_cast<StoreInst>(&in)) { if (s->isAtomic()) pts.emplace_back(&in, s->getPointerOperand()); }
                else if (auto* r = dyn_cast<AtomicRMWInst>(&in)) pts.emplace_back(&in, r->getPointerOperand());
                else if (auto* c = dyn_cast<AtomicCmpXchgInst>(&in)) pts.emplace_back(&in, c->getPointerOperand());
            }
    }
    for (auto& p : pts) {
        IRBuilder<> b(p.first);
        unsigned kind = isa<LoadInst>(p.first) ? 1 : isa<StoreInst>(p.first) ? 2 : isa<AtomicRMWInst>(p.first) ? 3 : 4;
        b.CreateCall(y, {p.second, ConstantInt::get(i32, kind)});
    }
    auto ren = [&](const char* from, const char* to) { if (auto* f = m->getFunction(from)) if (f->isDeclaration()) {
            if (auto* g = m->getFunction(to)) f->replaceAllUsesWith(g);
            else f->setName(to);
        } };
    ren("pthread_mutex_lock", "vfs_mutex_lock");
    ren("pthread_mutex_trylock", "vfs_mutex_trylock");
    ren("pthread_mutex_unlock", "vfs_mutex_unlock");
    ren("_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", "vfs_cv_wait");
    ren("_ZNSt18condition_variable10notify_oneEv", "vfs_cv_notify");
    ren("_ZNSt18condition_variable10notify_allEv", "vfs_cv_notify_all");
    ren("pthread_cond_wait", "vfs_cond_wait");
    ren("pthread_cond_clockwait", "vfs_cond_clockwait");
    ren("pthread_cond_timedwait", "vfs_cond_timedwait");
    ren("pthread_cond_signal", "vfs_cv_notify");
    ren("pthread_cond_broadcast", "vfs_cv_notify_all");
    ren("pthread_self", "vfs_self");
    ren("_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", "vfs_thread_start");
    ren("_ZNSt6thread4joinEv", "vfs_thread_join");
    ren("clock_gettime", "vfs_clock_gettime");
    ren("_ZNSt6chrono3_V212steady_clock3nowEv", "vfs_now");
    ren("_ZNSt6chrono3_V212system_clock3nowEv", "vfs_now");
    ren("sched_yield", "vfs_sched_yield");
    ren("nanosleep", "vfs_sched_yield");
    ren("_Znwm", "vfs_new");
    ren("_Znam", "vfs_new");
    ren("_ZdlPv", "vfs_delete");
    ren("_ZdaPv", "vfs_delete");
    ren("_ZdlPvm", "vfs_delete2");
    ren("_ZdaPvm", "vfs_delete2");
    std::error_code ec;
    raw_fd_ostream o(argv[2], ec, sys::fs::OF_None);
    WriteBitcodeToFile(*m, o);
    return 0;
}
