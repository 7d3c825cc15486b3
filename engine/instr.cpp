// symx-instr: rewrites LLVM IR so that every SSA value carries a symbolic shadow term.
// usage: symx-instr in.bc out.bc
#include <llvm/ADT/SmallVector.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Scalar/Scalarizer.h>
#include <llvm/Transforms/Utils/BasicBlockUtils.h>
#include <llvm/Transforms/Utils/ModuleUtils.h>
#include <map>
#include <set>
#include <string>
using namespace llvm;

static std::set<std::string> unknownExt;

// functions of the runtime that read/write shadow argument slots themselves
static std::map<std::string,std::string> const awareNames = {
  {"memcmp","symx_w_memcmp"},{"bcmp","symx_w_memcmp"},{"strlen","symx_w_strlen"},{"memchr","symx_w_memchr"},{"strcmp","symx_w_strcmp"},
  {"memcpy","symx_w_memcpy"},{"memmove","symx_w_memmove"},{"memset","symx_w_memset"},
  {"_ZSt11_Hash_bytesPKvmm","symx_w_hash_bytes"},
};
static std::map<std::string,std::string> const renamed = {
  {"_Znwm","symx_new"},{"_Znam","symx_new"},{"_ZdlPv","symx_delete"},{"_ZdlPvm","symx_delete"},{"_ZdaPv","symx_delete"},{"_ZdaPvm","symx_delete"},
  {"malloc","symx_new"},{"free","symx_delete"},{"_ZnwmSt11align_val_t","symx_new_al"},{"_ZdlPvmSt11align_val_t","symx_delete"},{"_ZdlPvSt11align_val_t","symx_delete"},
  {"_ZnwmRKSt9nothrow_t","symx_new"},{"_ZdlPvRKSt9nothrow_t","symx_delete"},
  {"_ZNSt6chrono3_V212steady_clock3nowEv","symx_w_now"},{"_ZNSt6chrono3_V212system_clock3nowEv","symx_w_now"},
  {"__assert_fail","symx_w_assert_fail"},{"abort","symx_w_abort"},
};
static bool isAware(StringRef n){ return n.starts_with("sym_") || n.starts_with("symx_w_"); }
static bool isCrg(StringRef n){ return n.starts_with("_ZN3crg")||n.starts_with("_ZNK3crg")||n.starts_with("_ZTHN3crg")||n.starts_with("_ZTWN3crg"); }
static bool isSafeExt(StringRef n){
  static std::set<std::string> const s={
    "__cxa_begin_catch","__cxa_end_catch","__cxa_rethrow","__cxa_allocate_exception","__cxa_free_exception","__cxa_throw","__cxa_atexit","__cxa_guard_acquire","__cxa_guard_release","__cxa_guard_abort","__cxa_pure_virtual","__cxa_bad_cast","__cxa_throw_bad_array_new_length","__dynamic_cast","__gxx_personality_v0","__cxa_call_unexpected",
    "_ZSt9terminatev","pthread_mutex_lock","pthread_mutex_unlock","pthread_mutex_trylock","pthread_rwlock_rdlock","pthread_rwlock_wrlock","pthread_rwlock_unlock","__real___cxa_guard_acquire","__real___cxa_guard_release","__real___cxa_guard_abort","__real_pthread_mutex_lock","__real_pthread_mutex_unlock","__real_pthread_mutex_trylock","__real_pthread_rwlock_rdlock","__real_pthread_rwlock_wrlock","__real_pthread_rwlock_unlock","getcontext","makecontext","swapcontext","pthread_once","__once_proxy","abort","exit","fputs","fputc","fwrite","puts","printf","fprintf","snprintf","vsnprintf","sprintf","fflush","putchar","strtol","_Unwind_Resume","pow","round","floor","ceil","log2","__errno_location","getenv"};
  if(s.count(n.str())) return true;
  // libstdc++ shared object: containers' pointer-only helpers, exception throwers, streams, strings out-of-line
  static char const* pre[]={"_ZSt18_Rb_tree","_ZSt28_Rb_tree","_ZSt29_Rb_tree","_ZNKSt8__detail20_Prime_rehash_policy","_ZNSt8__detail15_List_node_base","_ZSt20__throw","_ZSt17__throw","_ZSt19__throw","_ZSt24__throw","_ZSt2","_ZSt1","_ZNSo","_ZNSi","_ZNSd","_ZStls","_ZSt4","_ZSt3","_ZSt7","_ZSt16__ostream","_ZNSt8ios_base","_ZNKSt8ios_base","_ZNSt9basic_ios","_ZNKSt9basic_ios","_ZNSt6locale","_ZNKSt6locale","_ZNSt13runtime_error","_ZNSt9exception","_ZNKSt9exception","_ZNSt11logic_error","_ZNSt16invalid_argument","_ZNSt12out_of_range","_ZNSt15basic_streambuf","_ZNKSt13runtime_error","_ZNSt12length_error","_ZNSt14basic_ofstream","_ZNSt13basic_filebuf","_ZNSt13basic_fstream","_ZNSt12__basic_file","_ZNSt7__cxx11","_ZNKSt7__cxx11","_ZTv0","_ZNSt10bad_typeid","_ZNSt8bad_cast","_ZNKSt5ctype","_ZNSt5ctype","_ZNSt10filesystem","_ZNKSt10filesystem","_ZSt8","_ZSt5","_ZSt9use_facet","_ZNSt12domain_error","_ZNKSt11logic_error"};
  for(auto p:pre) if(n.starts_with(p)) return true;
  return false;
}

struct Instr {
  Module& M; LLVMContext& C; DataLayout const& DL;
  Type *I64,*I32,*I8,*Ptr,*Void;
  GlobalVariable *gArgs,*gRet,*gCallee,*gFn;
  uint32_t site=1; uint32_t fnId=0; std::vector<std::string> fnNames;
  static constexpr unsigned MAXA=64, MAXR=16;
  Instr(Module& m):M(m),C(m.getContext()),DL(m.getDataLayout()){
    I64=Type::getInt64Ty(C);I32=Type::getInt32Ty(C);I8=Type::getInt8Ty(C);Ptr=PointerType::get(C,0);Void=Type::getVoidTy(C);
    auto mk=[&](char const* n,Type* t){return new GlobalVariable(M,t,false,GlobalValue::ExternalLinkage,nullptr,n);};
    gArgs=mk("__symx_args",ArrayType::get(I64,MAXA)); gRet=mk("__symx_ret",ArrayType::get(I64,MAXR)); gCallee=mk("__symx_callee",I64);
    gFn=mk("__symx_fn",ArrayType::get(I8,1));
  }
  FunctionCallee rt(char const* n,Type* r,std::initializer_list<Type*> a){
    auto fc=M.getOrInsertFunction(n,FunctionType::get(r,ArrayRef<Type*>(a.begin(),a.size()),false));
    if(auto f=dyn_cast<Function>(fc.getCallee())) f->setDoesNotThrow();
    return fc;
  }
  // ---- per function
  Function* F=nullptr; std::map<Value*,Value*> sh; std::vector<std::pair<PHINode*,Value*>> phis; Instruction* entryIns=nullptr;
  Type* shTy(Type* t){
    if(auto s=dyn_cast<StructType>(t)){ std::vector<Type*> e; for(auto x:s->elements()) e.push_back(shTy(x)); return StructType::get(C,e);} 
    if(auto a=dyn_cast<ArrayType>(t)) return ArrayType::get(shTy(a->getElementType()),a->getNumElements());
    return I64;
  }
  bool agg(Type* t){return t->isStructTy()||t->isArrayTy();}
  Value* zero(Type* t){ return Constant::getNullValue(shTy(t)); }
  bool isZ(Value* v){ if(auto c=dyn_cast<Constant>(v)) return c->isNullValue(); return false; }
  Value* S(Value* v){
    if(isa<Constant>(v)||isa<MetadataAsValue>(v)||isa<InlineAsm>(v)||isa<BasicBlock>(v)) return v->getType()->isMetadataTy()||v->getType()->isLabelTy()?nullptr:zero(v->getType());
    auto it=sh.find(v); if(it!=sh.end()) return it->second; return zero(v->getType());
  }
  unsigned W(Type* t){ if(t->isPointerTy()) return 64; return (unsigned)DL.getTypeSizeInBits(t).getFixedValue(); }
  Value* scratch(Type* t){ IRBuilder<> B(entryIns); auto a=B.CreateAlloca(t); return a; }
  // concrete value as i64 (width<=64)
  Value* V64(IRBuilder<>& B,Value* v){
    Type* t=v->getType(); if(t->isPointerTy()) return B.CreatePtrToInt(v,I64);
    unsigned w=W(t); assert(w<=64); if(!t->isIntegerTy()) v=B.CreateBitCast(v,IntegerType::get(C,w));
    return w<64?B.CreateZExt(v,I64):v;
  }
  // an E that is definitely an expression if 'cond' (another shadow) is non null; wide or narrow
  Value* lift(IRBuilder<>& B,Value* v,Value* e){ // returns E for v: e if nonnull else constant
    unsigned w=W(v->getType());
    if(w<=64) return B.CreateCall(rt("symx_lift",I64,{I64,I64,I32}),{e,V64(B,v),B.getInt32(w)});
    auto p=scratch(v->getType()); B.CreateStore(v,p);
    return B.CreateCall(rt("symx_liftw",I64,{I64,Ptr,I32}),{e,p,B.getInt32(w)});
  }
  Value* iptr(GlobalVariable* g,unsigned i,IRBuilder<>& B){ return B.CreateConstInBoundsGEP2_64(g->getValueType(),g,0,i); }
  void leaves(IRBuilder<>& B,Type* t,Value* s,SmallVectorImpl<Value*>& out){
    if(auto st=dyn_cast<StructType>(t)){ for(unsigned i=0;i<st->getNumElements();++i) leaves(B,st->getElementType(i),B.CreateExtractValue(s,i),out); }
    else if(auto at=dyn_cast<ArrayType>(t)){ for(unsigned i=0;i<at->getNumElements();++i) leaves(B,at->getElementType(),B.CreateExtractValue(s,i),out); }
    else out.push_back(s);
  }
  Value* unleaves(IRBuilder<>& B,Type* t,GlobalVariable* g,unsigned& i,unsigned max){
    if(agg(t)){ Value* r=Constant::getNullValue(shTy(t)); unsigned n=t->isStructTy()?t->getStructNumElements():t->getArrayNumElements();
      for(unsigned k=0;k<n;++k){ Type* et=t->isStructTy()?t->getStructElementType(k):t->getArrayElementType(); r=B.CreateInsertValue(r,unleaves(B,et,g,i,max),k);} return r; }
    if(i>=max) return B.getInt64(0);
    return B.CreateLoad(I64,iptr(g,i++,B));
  }
  void run(){
    std::vector<Function*> fs; for(auto& f:M) if(!f.isDeclaration()) fs.push_back(&f);
    // rename
    for(auto& kv:awareNames) if(auto f=M.getFunction(kv.first)) if(f->isDeclaration()) { if(auto g=M.getFunction(kv.second)) f->replaceAllUsesWith(g); else f->setName(kv.second); }
    for(auto& kv:renamed) if(auto f=M.getFunction(kv.first)) if(f->isDeclaration()) { if(auto g=M.getFunction(kv.second)) { f->replaceAllUsesWith(g);} else f->setName(kv.second);} 
    for(auto& f:M) if(f.isDeclaration()&&!f.isIntrinsic()) { f.removeFnAttr(Attribute::Memory); if(f.getName().starts_with("symx_")) f.setAttributes(AttributeList()); }
    // constant tables (for loads at a symbolic index)
    Constant* cgTab=nullptr; unsigned cgN=0;
    { std::vector<Constant*> tab; for(auto& g:M.globals()) if(g.isConstant()&&g.hasInitializer()&&g.getValueType()->isArrayTy()){ uint64_t sz=DL.getTypeAllocSize(g.getValueType()); if(sz>=2&&sz<=8192){ tab.push_back(ConstantExpr::getPtrToInt(&g,I64)); tab.push_back(ConstantInt::get(I64,sz)); } }
      cgN=tab.size()/2; tab.push_back(ConstantInt::get(I64,0)); auto at=ArrayType::get(I64,tab.size()); cgTab=new GlobalVariable(M,at,false,GlobalValue::InternalLinkage,ConstantArray::get(at,tab),"__symx_cg"); }
    for(auto f:fs) doFunc(*f);
    // fn table
    auto arr=ArrayType::get(I8,fnNames.size()+1);
    auto nf=new GlobalVariable(M,arr,false,GlobalValue::InternalLinkage,Constant::getNullValue(arr),"__symx_fn_flags");
    gFn->replaceAllUsesWith(nf); gFn->eraseFromParent();
    std::string all; for(auto& n:fnNames){ all+=n; all+='\n'; }
    auto str=ConstantDataArray::getString(C,all,true);
    auto names=new GlobalVariable(M,str->getType(),true,GlobalValue::InternalLinkage,str,"__symx_fn_names");
    auto init=Function::Create(FunctionType::get(Void,false),GlobalValue::InternalLinkage,"symx_module_init",M);
    IRBuilder<> B(BasicBlock::Create(C,"e",init));
    B.CreateCall(rt("symx_register",Void,{Ptr,Ptr,I64,Ptr,I64}),{nf,names,B.getInt64(fnNames.size()),cgTab,B.getInt64(cgN)}); B.CreateRetVoid();
    appendToGlobalCtors(M,init,1);
  }
  void doFunc(Function& f){
    F=&f; sh.clear(); phis.clear();
    f.removeFnAttr(Attribute::Memory);
    f.removeFnAttr(Attribute::WillReturn); f.removeFnAttr(Attribute::NoSync);
    for(auto& a:f.args()){ for(auto k:{Attribute::ReadNone,Attribute::ReadOnly,Attribute::WriteOnly,Attribute::NoCapture}) a.removeAttr(k);} 
    // split normal dests of invokes
    std::vector<InvokeInst*> inv; for(auto& bb:f) if(auto i=dyn_cast<InvokeInst>(bb.getTerminator())) inv.push_back(i);
    for(auto i:inv){ auto nd=i->getNormalDest(); if(!nd->getSinglePredecessor()||isa<PHINode>(nd->front())){ SplitEdge(i->getParent(),nd);} }
    std::vector<BasicBlock*> order; {
      // reverse post order by simple DFS
      std::set<BasicBlock*> seen; std::vector<BasicBlock*> post; std::vector<std::pair<BasicBlock*,unsigned>> st;
      st.push_back({&f.getEntryBlock(),0}); seen.insert(&f.getEntryBlock());
      while(!st.empty()){ auto& t=st.back(); auto term=t.first->getTerminator(); if(t.second<term->getNumSuccessors()){ auto s=term->getSuccessor(t.second++); if(seen.insert(s).second) st.push_back({s,0}); } else { post.push_back(t.first); st.pop_back(); } }
      order.assign(post.rbegin(),post.rend());
      // unreachable blocks: delete
    }
    EliminateUnreachableBlocks(f);
    std::vector<Instruction*> work; std::vector<AllocaInst*> allocas;
    for(auto bb:order) for(auto& i:*bb) { work.push_back(&i); if(auto a=dyn_cast<AllocaInst>(&i)) allocas.push_back(a);} 
    // entry
    Instruction* first=&*f.getEntryBlock().getFirstNonPHIOrDbgOrAlloca();
    { IRBuilder<> B(first); entryIns=first;
      // marker instr for scratch allocas: put at very beginning
    }
    Instruction* top=&f.getEntryBlock().front();
    { IRBuilder<> B(top); entryIns=cast<Instruction>(B.CreateAlloca(I8)); } // anchor
    {
      IRBuilder<> B(first);
      std::string nm=f.getName().str();
      B.CreateStore(B.getInt8(1),B.CreateConstInBoundsGEP2_64(gFn->getValueType(),gFn,0,fnNames.size())); fnNames.push_back(nm);
      if(f.arg_size()){
        Value* ok=B.CreateICmpEQ(B.CreateLoad(I64,gCallee),B.CreatePtrToInt(&f,I64));
        Value* mask=B.CreateSExt(ok,I64);
        unsigned i=0;
        for(auto& a:f.args()){
          if(a.hasByValAttr()){
            Type* bt=a.getParamByValType(); if(i<MAXA){ Value* src=B.CreateAnd(B.CreateLoad(I64,iptr(gArgs,i++,B)),mask);
              B.CreateCall(rt("symx_shcopy",Void,{Ptr,I64,I64}),{&a,src,B.getInt64(DL.getTypeAllocSize(bt))}); }
            continue; }
          if(a.getType()->isMetadataTy()) continue;
          Value* s=unleavesMask(B,a.getType(),i,mask); sh[&a]=s;
        }
      }
      for(auto a:allocas){ if(a->isStaticAlloca()){ auto sz=a->getAllocationSize(DL); if(sz) B.CreateCall(rt("symx_clear",Void,{Ptr,I64}),{a,B.getInt64(sz->getFixedValue())}); } }
    }
    for(auto i:work) visit(i);
    for(auto& p:phis){ auto sp=cast<PHINode>(p.second); for(unsigned k=0;k<p.first->getNumIncomingValues();++k) sp->addIncoming(S(p.first->getIncomingValue(k)),p.first->getIncomingBlock(k)); }
  }
  Value* unleavesMask(IRBuilder<>& B,Type* t,unsigned& i,Value* mask){
    if(agg(t)){ Value* r=Constant::getNullValue(shTy(t)); unsigned n=t->isStructTy()?t->getStructNumElements():t->getArrayNumElements();
      for(unsigned k=0;k<n;++k){ Type* et=t->isStructTy()?t->getStructElementType(k):t->getArrayElementType(); r=B.CreateInsertValue(r,unleavesMask(B,et,i,mask),k);} return r; }
    if(i>=MAXA) return B.getInt64(0);
    return B.CreateAnd(B.CreateLoad(I64,iptr(gArgs,i++,B)),mask);
  }
  Value* nn(IRBuilder<>& B,Value* a,Value* b){ return B.CreateOr(a,b); }
  // load/store of arbitrary first class type incl. aggregates
  Value* loadSh(IRBuilder<>& B,Type* t,Value* addr,Value* addrE,Value* off){
    if(agg(t)){
      Value* r=Constant::getNullValue(shTy(t)); unsigned n=t->isStructTy()?t->getStructNumElements():t->getArrayNumElements();
      for(unsigned k=0;k<n;++k){ Type* et=t->isStructTy()?t->getStructElementType(k):t->getArrayElementType();
        uint64_t o=t->isStructTy()?DL.getStructLayout(cast<StructType>(t))->getElementOffset(k).getFixedValue():k*DL.getTypeAllocSize(et);
        r=B.CreateInsertValue(r,loadSh(B,et,addr,addrE,B.CreateAdd(off,B.getInt64(o))),k);} return r; }
    unsigned bytes=DL.getTypeStoreSize(t); unsigned w=W(t);
    Value* e=B.CreateCall(rt("symx_load",I64,{I64,I32,I64,I64,I32}),{B.CreateAdd(B.CreatePtrToInt(addr,I64),off),B.getInt32(bytes),addrE,off,B.getInt32(site++)});
    if(w!=bytes*8) e=B.CreateCall(rt("symx_cast",I64,{I32,I32,I32,I64}),{B.getInt32(0),B.getInt32(bytes*8),B.getInt32(w),e});
    return e;
  }
  void storeSh(IRBuilder<>& B,Type* t,Value* addr,Value* s,uint64_t off){
    if(agg(t)){
      unsigned n=t->isStructTy()?t->getStructNumElements():t->getArrayNumElements();
      for(unsigned k=0;k<n;++k){ Type* et=t->isStructTy()?t->getStructElementType(k):t->getArrayElementType();
        uint64_t o=t->isStructTy()?DL.getStructLayout(cast<StructType>(t))->getElementOffset(k).getFixedValue():k*DL.getTypeAllocSize(et);
        storeSh(B,et,addr,B.CreateExtractValue(s,k),off+o);} return; }
    unsigned bytes=DL.getTypeStoreSize(t); unsigned w=W(t); Value* e=s;
    if(w!=bytes*8&&!isZ(e)) e=B.CreateCall(rt("symx_cast",I64,{I32,I32,I32,I64}),{B.getInt32(1),B.getInt32(w),B.getInt32(bytes*8),e});
    B.CreateCall(rt("symx_store",Void,{I64,I32,I64}),{B.CreateAdd(B.CreatePtrToInt(addr,I64),B.getInt64(off)),B.getInt32(bytes),e});
  }
  void conc(IRBuilder<>& B,Value* v){
    Type* t=v->getType(); if(t->isMetadataTy()||t->isLabelTy()||t->isVoidTy()||t->isTokenTy()) return;
    Value* s=S(v); if(!s||isZ(s)) return;
    if(agg(t)){ SmallVector<Value*,8> l; leaves(B,t,s,l); for(auto e:l) B.CreateCall(rt("symx_conc",Void,{I32,I64}),{B.getInt32(site++),e}); return; }
    B.CreateCall(rt("symx_conc",Void,{I32,I64}),{B.getInt32(site++),s});
  }
  // an atomic access orders the threads and does not race
  struct Sync { Instr& i; IRBuilder<>& B; unsigned on; Sync(Instr& i_,IRBuilder<>& b,unsigned o,Value* p):i(i_),B(b),on(o){ if(on) B.CreateCall(i.rt("symx_atomic",i.Void,{i.Ptr,i.I32}),{p,B.getInt32(on)}); } ~Sync(){ if(on) B.CreateCall(i.rt("symx_atomic_end",i.Void,{}),{}); } };
  void visit(Instruction* I){
    Type* t=I->getType();
    switch(I->getOpcode()){
    case Instruction::PHI: {
      IRBuilder<> B(I); auto p=cast<PHINode>(I); auto sp=B.CreatePHI(shTy(t),p->getNumIncomingValues()); sh[I]=sp; phis.push_back({p,sp}); return; }
    case Instruction::Alloca: { auto a=cast<AllocaInst>(I); if(!a->isStaticAlloca()){ IRBuilder<> B(I); conc(B,a->getArraySize()); } return; }
    case Instruction::Load: {
      auto l=cast<LoadInst>(I); IRBuilder<> B(I); Value* ae=S(l->getPointerOperand()); Sync sy(*this,B,l->isAtomic()?1:0,l->getPointerOperand());
      Value* e=loadSh(B,t,l->getPointerOperand(),ae,B.getInt64(0)); sh[I]=e; return; }
    case Instruction::Store: {
      auto s=cast<StoreInst>(I); IRBuilder<> B(I); conc(B,s->getPointerOperand()); Sync sy(*this,B,s->isAtomic()?2:0,s->getPointerOperand());
      storeSh(B,s->getValueOperand()->getType(),s->getPointerOperand(),S(s->getValueOperand()),0); return; }
    case Instruction::GetElementPtr: {
      auto g=cast<GetElementPtrInst>(I); IRBuilder<> B(I);
      bool any=false; for(auto& o:g->operands()) if(!isZ(S(o))) any=true;
      if(!any||t->isVectorTy()) { if(any) for(auto& o:g->operands()) conc(B,o); return; }
      unsigned bw=64; MapVector<Value*,APInt> vo; APInt co(bw,0);
      if(!g->collectOffset(DL,bw,vo,co)){ for(auto& o:g->operands()) conc(B,o); return; }
      Value* e=S(g->getPointerOperand()); Value* cur=B.CreatePtrToInt(g->getPointerOperand(),I64);
      for(auto& kv:vo){
        Value* ix=kv.first; unsigned w=W(ix->getType()); Value* ie=S(ix); Value* iv=ix;
        if(w<64){ iv=B.CreateSExt(ix,I64); if(!isZ(ie)) ie=B.CreateCall(rt("symx_cast",I64,{I32,I32,I32,I64}),{B.getInt32(2),B.getInt32(w),B.getInt32(64),ie}); }
        else if(w>64){ iv=B.CreateTrunc(ix,I64); conc(B,ix); ie=B.getInt64(0);} 
        e=B.CreateCall(rt("symx_gep",I64,{I64,I64,I64,I64,I64}),{e,cur,ie,iv,B.getInt64(kv.second.getSExtValue())});
        cur=B.CreateAdd(cur,B.CreateMul(iv,B.getInt64(kv.second.getSExtValue())));
      }
      if(co!=0&&!isZ(e)) e=B.CreateCall(rt("symx_bin",I64,{I32,I32,I64,I64,I64,I64}),{B.getInt32(Instruction::Add),B.getInt32(64),e,cur,B.getInt64(0),B.getInt64(co.getSExtValue())});
      sh[I]=e; return; }
    case Instruction::ICmp: {
      auto c=cast<ICmpInst>(I); IRBuilder<> B(I); Value *a=c->getOperand(0),*b=c->getOperand(1),*ea=S(a),*eb=S(b);
      if(isZ(ea)&&isZ(eb)) return; 
      if(a->getType()->isVectorTy()){ conc(B,a);conc(B,b); return; }
      unsigned w=W(a->getType());
      if(w<=64) sh[I]=B.CreateCall(rt("symx_cmp",I64,{I32,I32,I64,I64,I64,I64}),{B.getInt32(c->getPredicate()),B.getInt32(w),ea,V64(B,a),eb,V64(B,b)});
      else sh[I]=B.CreateCall(rt("symx_cmpw",I64,{I32,I32,I64,I64,I64}),{B.getInt32(c->getPredicate()),B.getInt32(w),nn(B,ea,eb),lift(B,a,ea),lift(B,b,eb)});
      return; }
    case Instruction::FCmp: {
      auto c=cast<FCmpInst>(I); IRBuilder<> B(I); Value *a=c->getOperand(0),*b=c->getOperand(1),*ea=S(a),*eb=S(b);
      if(isZ(ea)&&isZ(eb)) return; if(a->getType()->isVectorTy()||W(a->getType())>64){ conc(B,a);conc(B,b); return; }
      sh[I]=B.CreateCall(rt("symx_fcmp",I64,{I32,I32,I64,I64,I64,I64}),{B.getInt32(c->getPredicate()),B.getInt32(W(a->getType())),ea,V64(B,a),eb,V64(B,b)}); return; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: case Instruction::FNeg: {
      IRBuilder<> B(I); Value *a=I->getOperand(0),*b=I->getNumOperands()>1?I->getOperand(1):a,*ea=S(a),*eb=S(b); if(isZ(ea)&&isZ(eb)) return;
      if(t->isVectorTy()||W(t)>64||I->getOpcode()==Instruction::FRem){ conc(B,a);conc(B,b); return; }
      sh[I]=B.CreateCall(rt("symx_fbin",I64,{I32,I32,I64,I64,I64,I64}),{B.getInt32(I->getOpcode()),B.getInt32(W(t)),ea,V64(B,a),eb,V64(B,b)}); return; }
    case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt: {
      IRBuilder<> B(I); Value* a=I->getOperand(0); Value* ea=S(a); if(isZ(ea)) return; unsigned w=W(a->getType());
      if(t->isVectorTy()||w>64||W(t)>64){ conc(B,a); return; }
      sh[I]=B.CreateCall(rt("symx_fcast",I64,{I32,I32,I32,I64}),{B.getInt32(I->getOpcode()),B.getInt32(w),B.getInt32(W(t)),ea}); return; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
      IRBuilder<> B(I); Value* a=I->getOperand(0); Value* ea=S(a); if(isZ(ea)) return; if(t->isVectorTy()){ conc(B,a); return; }
      unsigned k=I->getOpcode()==Instruction::Trunc?0:I->getOpcode()==Instruction::ZExt?1:2;
      sh[I]=B.CreateCall(rt("symx_cast",I64,{I32,I32,I32,I64}),{B.getInt32(k),B.getInt32(W(a->getType())),B.getInt32(W(t)),ea}); return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
      IRBuilder<> B(I); Value* a=I->getOperand(0); Value* ea=S(a); if(isZ(ea)) return; if(t->isVectorTy()){ conc(B,a); return; }
      unsigned w1=W(a->getType()),w2=W(t); if(w1!=w2) ea=B.CreateCall(rt("symx_cast",I64,{I32,I32,I32,I64}),{B.getInt32(w2<w1?0:1),B.getInt32(w1),B.getInt32(w2),ea});
      sh[I]=ea; return; }
    case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: { sh[I]=S(I->getOperand(0)); return; }
    case Instruction::Select: {
      auto s=cast<SelectInst>(I); IRBuilder<> B(I); Value *c=s->getCondition(),*a=s->getTrueValue(),*b=s->getFalseValue(); Value *ec=S(c),*ea=S(a),*eb=S(b);
      if(isZ(ec)&&isZ(ea)&&isZ(eb)) return;
      if(c->getType()->isVectorTy()||agg(t)){ conc(B,c); if(c->getType()->isVectorTy()){conc(B,a);conc(B,b);} else sh[I]=B.CreateSelect(c,ea,eb); return; }
      if(isZ(ec)){ sh[I]=B.CreateSelect(c,ea,eb); return; }
      if(W(t)<=64) sh[I]=B.CreateCall(rt("symx_select",I64,{I32,I64,I32,I64,I64,I64,I64}),{B.getInt32(W(t)),ec,B.CreateZExt(c,I32),ea,V64(B,a),eb,V64(B,b)});
      else sh[I]=B.CreateCall(rt("symx_selectw",I64,{I64,I32,I64,I64,I64,I64}),{ec,B.CreateZExt(c,I32),ea,eb,lift(B,a,ea),lift(B,b,eb)});
      return; }
    case Instruction::ExtractValue: { auto e=cast<ExtractValueInst>(I); IRBuilder<> B(I); sh[I]=B.CreateExtractValue(S(e->getAggregateOperand()),e->getIndices()); return; }
    case Instruction::InsertValue: { auto e=cast<InsertValueInst>(I); IRBuilder<> B(I); sh[I]=B.CreateInsertValue(S(e->getAggregateOperand()),S(e->getInsertedValueOperand()),e->getIndices()); return; }
    case Instruction::ExtractElement: {
      IRBuilder<> B(I); Value* v=I->getOperand(0); Value* e=S(v); auto ci=dyn_cast<ConstantInt>(I->getOperand(1)); if(isZ(e)&&isZ(S(I->getOperand(1)))) return;
      if(!ci){ conc(B,v); conc(B,I->getOperand(1)); return; }
      unsigned w=W(t); sh[I]=B.CreateCall(rt("symx_extract",I64,{I64,I32,I32}),{e,B.getInt32(ci->getZExtValue()*w),B.getInt32(w)}); return; }
    case Instruction::InsertElement: {
      IRBuilder<> B(I); Value *v=I->getOperand(0),*x=I->getOperand(1); auto ci=dyn_cast<ConstantInt>(I->getOperand(2)); Value *ev=S(v),*ex=S(x);
      if(isZ(ev)&&isZ(ex)) return; if(!ci){ conc(B,v);conc(B,x); return; }
      unsigned w=W(x->getType()); Value* vf=v; if(isa<UndefValue>(v)) vf=Constant::getNullValue(v->getType());
      sh[I]=B.CreateCall(rt("symx_insert",I64,{I64,I64,I64,I32,I32,I32}),{nn(B,ev,ex),liftf(B,vf,ev),lift(B,x,ex),B.getInt32(ci->getZExtValue()*w),B.getInt32(w),B.getInt32(W(t))}); return; }
    case Instruction::ShuffleVector: {
      auto s=cast<ShuffleVectorInst>(I); IRBuilder<> B(I); Value *a=s->getOperand(0),*b=s->getOperand(1); Value *ea=S(a),*eb=S(b); if(isZ(ea)&&isZ(eb)) return;
      unsigned n=cast<FixedVectorType>(a->getType())->getNumElements(); unsigned w=W(t->getScalarType()); Value* nnv=nn(B,ea,eb);
      Value* la=liftf(B,isa<UndefValue>(a)?Constant::getNullValue(a->getType()):a,ea); Value* lb=liftf(B,isa<UndefValue>(b)?Constant::getNullValue(b->getType()):b,eb);
      Value* cur=nullptr; unsigned k=0;
      for(int m:s->getShuffleMask()){ Value* p; if(m<0) p=B.CreateCall(rt("symx_lift",I64,{I64,I64,I32}),{B.getInt64(0),B.getInt64(0),B.getInt32(w)}); else p=B.CreateCall(rt("symx_extractf",I64,{I64,I32,I32}),{(unsigned)m<n?la:lb,B.getInt32(((unsigned)m<n?m:m-n)*w),B.getInt32(w)});
        cur=cur?B.CreateCall(rt("symx_concatf",I64,{I64,I64}),{p,cur}):(Value*)p; ++k; }
      sh[I]=B.CreateCall(rt("symx_gate",I64,{I64,I64}),{nnv,cur}); return; }
    case Instruction::Br: { auto b=cast<BranchInst>(I); if(b->isConditional()){ Value* e=S(b->getCondition()); if(!isZ(e)){ IRBuilder<> B(I); B.CreateCall(rt("symx_br",Void,{I32,I64,I32}),{B.getInt32(site++),e,B.CreateZExt(b->getCondition(),I32)}); } } return; }
    case Instruction::Switch: {
      auto s=cast<SwitchInst>(I); Value* e=S(s->getCondition()); if(isZ(e)) return; IRBuilder<> B(I); unsigned w=W(s->getCondition()->getType());
      if(w>64){ conc(B,s->getCondition()); return; }
      std::vector<Constant*> tab; std::map<BasicBlock*,unsigned> ids; ids[s->getDefaultDest()]=0; 
      for(auto& c:s->cases()){ auto it=ids.emplace(c.getCaseSuccessor(),(unsigned)ids.size()); tab.push_back(ConstantInt::get(I64,c.getCaseValue()->getZExtValue())); tab.push_back(ConstantInt::get(I64,it.first->second)); }
      auto at=ArrayType::get(I64,tab.size()); auto g=new GlobalVariable(M,at,true,GlobalValue::PrivateLinkage,ConstantArray::get(at,tab),"symx_sw");
      B.CreateCall(rt("symx_switch",Void,{I32,I64,I32,Ptr,I32}),{B.getInt32(site++),e,B.getInt32(w),g,B.getInt32(tab.size()/2)}); return; }
    case Instruction::Ret: {
      IRBuilder<> B(I); auto r=cast<ReturnInst>(I); if(auto v=r->getReturnValue()){ SmallVector<Value*,8> l; leaves(B,v->getType(),S(v),l); unsigned i=0; for(auto e:l) if(i<MAXR) B.CreateStore(e,iptr(gRet,i++,B)); } return; }
    case Instruction::AtomicRMW: { IRBuilder<> B(I); for(auto& o:I->operands()) conc(B,o); auto a=cast<AtomicRMWInst>(I); Sync sy(*this,B,3,a->getPointerOperand());
      Value* e=loadSh(B,t,a->getPointerOperand(),B.getInt64(0),B.getInt64(0)); B.CreateCall(rt("symx_conc",Void,{I32,I64}),{B.getInt32(site++),e}); storeSh(B,t,a->getPointerOperand(),B.getInt64(0),0); return; }
    case Instruction::AtomicCmpXchg: { IRBuilder<> B(I); for(auto& o:I->operands()) conc(B,o); auto a=cast<AtomicCmpXchgInst>(I); Type* vt=a->getCompareOperand()->getType(); Sync sy(*this,B,3,a->getPointerOperand());
      Value* e=loadSh(B,vt,a->getPointerOperand(),B.getInt64(0),B.getInt64(0)); B.CreateCall(rt("symx_conc",Void,{I32,I64}),{B.getInt32(site++),e}); storeSh(B,vt,a->getPointerOperand(),B.getInt64(0),0); return; }
    case Instruction::Call: case Instruction::Invoke: visitCall(cast<CallBase>(I)); return;
    case Instruction::Resume: case Instruction::LandingPad: case Instruction::Unreachable: case Instruction::Fence: return;
    default: break;
    }
    if(auto bo=dyn_cast<BinaryOperator>(I)){
      IRBuilder<> B(I); Value *a=bo->getOperand(0),*b=bo->getOperand(1),*ea=S(a),*eb=S(b); if(isZ(ea)&&isZ(eb)) return;
      if(t->isVectorTy()){ conc(B,a);conc(B,b); return; }
      unsigned w=W(t);
      if(w<=64) sh[I]=B.CreateCall(rt("symx_bin",I64,{I32,I32,I64,I64,I64,I64}),{B.getInt32(bo->getOpcode()),B.getInt32(w),ea,V64(B,a),eb,V64(B,b)});
      else sh[I]=B.CreateCall(rt("symx_binw",I64,{I32,I32,I64,I64,I64}),{B.getInt32(bo->getOpcode()),B.getInt32(w),nn(B,ea,eb),lift(B,a,ea),lift(B,b,eb)});
      return;
    }
    // fallback: concretise operands
    IRBuilder<> B(I); for(auto& o:I->operands()) conc(B,o);
  }
  Value* liftf(IRBuilder<>& B,Value* v,Value* e){ return lift(B,v,e); }
  void visitCall(CallBase* I){
    IRBuilder<> B(I);
    if(auto mi=dyn_cast<MemTransferInst>(I)){ conc(B,mi->getRawDest());conc(B,mi->getRawSource());conc(B,mi->getLength());
      B.CreateCall(rt("symx_shcopy",Void,{Ptr,I64,I64}),{mi->getRawDest(),B.CreatePtrToInt(mi->getRawSource(),I64),B.CreateZExtOrTrunc(mi->getLength(),I64)}); return; }
    if(auto ms=dyn_cast<MemSetInst>(I)){ conc(B,ms->getRawDest());conc(B,ms->getLength());
      B.CreateCall(rt("symx_shset",Void,{Ptr,I64,I64}),{ms->getRawDest(),S(ms->getValue()),B.CreateZExtOrTrunc(ms->getLength(),I64)}); return; }
    if(auto ii=dyn_cast<IntrinsicInst>(I)){
      auto id=ii->getIntrinsicID(); Type* t=I->getType();
      unsigned k=0;
      switch(id){
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::eh_typeid_for: case Intrinsic::trap: case Intrinsic::ubsantrap: return;
      case Intrinsic::lifetime_start: { auto p=ii->getArgOperand(1); auto sz=cast<ConstantInt>(ii->getArgOperand(0))->getSExtValue(); if(sz>0) B.CreateCall(rt("symx_clear",Void,{Ptr,I64}),{p,B.getInt64(sz)}); return; }
      case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: sh[I]=S(ii->getArgOperand(0)); return;
      case Intrinsic::umin: k=1; break; case Intrinsic::umax: k=2; break; case Intrinsic::smin: k=3; break; case Intrinsic::smax: k=4; break; case Intrinsic::abs: k=5; break;
      case Intrinsic::usub_sat: k=6; break; case Intrinsic::uadd_sat: k=7; break; case Intrinsic::bswap: k=8; break; case Intrinsic::fshl: k=9; break; case Intrinsic::fshr: k=10; break;
      case Intrinsic::ctpop: k=11; break; case Intrinsic::ctlz: k=12; break; case Intrinsic::cttz: k=13; break;
      case Intrinsic::uadd_with_overflow: k=20; break; case Intrinsic::sadd_with_overflow: k=21; break; case Intrinsic::usub_with_overflow: k=22; break; case Intrinsic::ssub_with_overflow: k=23; break; case Intrinsic::umul_with_overflow: k=24; break; case Intrinsic::smul_with_overflow: k=25; break;
      default: break; }
      if(k){
        Value* a=ii->getArgOperand(0); Type* at=a->getType();
        Value* b=ii->arg_size()>1?ii->getArgOperand(1):a; Value* c=ii->arg_size()>2?ii->getArgOperand(2):a;
        bool any=!isZ(S(a))||(!isZ(S(b)))||(!isZ(S(c))); if(!any) return;
        if(at->isVectorTy()||W(at)>64){ for(auto& o:ii->args()) conc(B,o); return; }
        auto call=[&](unsigned kk){ return B.CreateCall(rt("symx_intr",I64,{I32,I32,I64,I64,I64,I64,I64,I64}),{B.getInt32(kk),B.getInt32(W(at)),S(a),V64(B,a),b->getType()==at?S(b):B.getInt64(0),b->getType()==at?V64(B,b):(Value*)B.getInt64(0),c->getType()==at?S(c):B.getInt64(0),c->getType()==at?V64(B,c):(Value*)B.getInt64(0)}); };
        if(k<20) sh[I]=call(k);
        else { Value* r=Constant::getNullValue(shTy(t)); r=B.CreateInsertValue(r,call(k),0); r=B.CreateInsertValue(r,call(k+10),1); sh[I]=r; }
        return;
      }
      for(auto& o:ii->args()) conc(B,o);
      return;
    }
    Function* cf=I->getCalledFunction(); 
    if(!cf) if(auto ga=dyn_cast<GlobalAlias>(I->getCalledOperand()->stripPointerCasts())) cf=dyn_cast<Function>(ga->getAliaseeObject());
    if(I->isInlineAsm()){ for(auto& o:I->args()) conc(B,o); return; }
    bool ext=cf&&cf->isDeclaration()&&!isAware(cf->getName())&&!isCrg(cf->getName());
    // attributes on call sites that would let later passes drop/merge shadow code
    I->removeFnAttr(Attribute::Memory); 
    if(ext){
      std::string n=cf->getName().str();
      if(n.rfind("symx_",0)!=0&&!isSafeExt(n)){ unknownExt.insert(n); B.CreateCall(rt("symx_unmodelled",Void,{Ptr}),{B.CreateGlobalStringPtr(n)}); }
      for(auto& o:I->args()) conc(B,o);
      B.CreateStore(B.getInt64(0),gCallee);
      return; // ret shadow stays zero
    }
    if(!cf) conc(B,I->getCalledOperand());
    unsigned i=0; SmallVector<Value*,16> l;
    for(unsigned k=0;k<I->arg_size();++k){ Value* a=I->getArgOperand(k); if(a->getType()->isMetadataTy()) continue;
      if(I->isByValArgument(k)){ conc(B,a); l.push_back(B.CreatePtrToInt(a,I64)); continue; }
      if(cf&&k>=cf->getFunctionType()->getNumParams()) { conc(B,a); continue; }
      leaves(B,a->getType(),S(a),l); }
    for(auto e:l){ if(i<MAXA) B.CreateStore(e,iptr(gArgs,i++,B)); else conc(B,e); }
    B.CreateStore(B.CreatePtrToInt(I->getCalledOperand(),I64),gCallee);
    Type* t=I->getType(); if(t->isVoidTy()) return;
    { SmallVector<Value*,8> z; unsigned n=0; countLeaves(t,n); for(unsigned k=0;k<n&&k<MAXR;++k) B.CreateStore(B.getInt64(0),iptr(gRet,k,B)); }
    Instruction* after; if(auto inv=dyn_cast<InvokeInst>(I)) after=&*inv->getNormalDest()->getFirstInsertionPt(); else after=I->getNextNode();
    IRBuilder<> A(after); unsigned r=0; sh[I]=unleaves(A,t,gRet,r,MAXR);
  }
  void countLeaves(Type* t,unsigned& n){ if(auto st=dyn_cast<StructType>(t)) for(auto e:st->elements()) countLeaves(e,n); else if(auto at=dyn_cast<ArrayType>(t)) for(unsigned i=0;i<at->getNumElements();++i) countLeaves(at->getElementType(),n); else ++n; }
};

int main(int argc,char** argv){
  LLVMContext C; SMDiagnostic err; auto M=parseIRFile(argv[1],err,C); if(!M){ err.print(argv[0],errs()); return 1; }
  StripDebugInfo(*M);
  { LoopAnalysisManager L; FunctionAnalysisManager FA; CGSCCAnalysisManager CG; ModuleAnalysisManager MA; PassBuilder PB; PB.registerModuleAnalyses(MA);PB.registerCGSCCAnalyses(CG);PB.registerFunctionAnalyses(FA);PB.registerLoopAnalyses(L);PB.crossRegisterProxies(L,FA,CG,MA);
    for(auto& f:*M) if(!f.isDeclaration()){ FunctionPassManager P; ScalarizerPassOptions o; o.ScalarizeLoadStore=false; P.addPass(ScalarizerPass(o)); P.run(f,FA); } }
  Instr(*M).run();
  if(verifyModule(*M,&errs())){ errs()<<"broken module\n"; return 2; }
  std::error_code ec; raw_fd_ostream os(argv[2],ec); WriteBitcodeToFile(*M,os);
  if(!unknownExt.empty()){ errs()<<"unmodelled externals:"; for(auto& n:unknownExt) errs()<<" "<<n; errs()<<"\n"; }
  return 0;
}
