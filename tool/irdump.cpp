// irdump: LLVM bitcode -> normalised IR -> JSON.
//   irdump IN.bc -o OUT.json -p "<pass pipeline>" [-keep FILE] [-p2 "<pipeline after inlining>"]
// Functions that are not named in the -keep file are internal helpers: they are marked
// alwaysinline so that their bodies appear in their callers (a helper extracted from an API
// function is analysed exactly where it is used).
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/LoopPeel.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include <set>
#include <map>
#include <fstream>
#include <cstring>
using namespace llvm;
static std::string tystr(Type *T){ std::string s; raw_string_ostream o(s); if(auto*S=dyn_cast<StructType>(T)){ if(S->hasName()) {o<<"%"<<S->getName(); return o.str();} } T->print(o,false,true); return o.str(); }
static std::string ditype(const DIType *T,int depth=0){
  if(!T) return "void"; if(depth>8) return "?";
  if(auto*B=dyn_cast<DIBasicType>(T)) return B->getName().str();
  if(auto*D=dyn_cast<DIDerivedType>(T)){
    switch(D->getTag()){
      case dwarf::DW_TAG_pointer_type: return "*"+ditype(D->getBaseType(),depth+1);
      case dwarf::DW_TAG_typedef: {
        const DIType*B=D->getBaseType();
        if(B&&isa<DICompositeType>(B)&&(B->getTag()==dwarf::DW_TAG_structure_type)){ return "%"+(B->getName().empty()?D->getName().str():B->getName().str()); }
        return ditype(B,depth);
      }
      default: return ditype(D->getBaseType(),depth);
    }
  }
  if(auto*C=dyn_cast<DICompositeType>(T)){
    if(C->getTag()==dwarf::DW_TAG_array_type){ std::string s; for(auto*E:C->getElements()){ if(auto*R=dyn_cast<DISubrange>(E)){ int64_t n=-1; if(auto*CI=dyn_cast_if_present<ConstantInt*>(R->getCount())) n=CI->getSExtValue(); s+="["+std::to_string(n)+"]"; } } return s+ditype(C->getBaseType(),depth+1); }
    return "%"+C->getName().str();
  }
  if(isa<DISubroutineType>(T)) return "fn";
  return "?";
}
static std::map<const Value*,int> VID; static std::map<const BasicBlock*,int> BID;
static const DataLayout*DL;
static json::Value opnd(const Value*V);
static json::Object gepinfo(const GEPOperator*G){
  json::Object o; o["st"]=tystr(G->getSourceElementType());
  json::Array idx; for(auto I=G->idx_begin();I!=G->idx_end();++I) idx.push_back(opnd(*I)); o["idx"]=std::move(idx);
  MapVector<Value*,APInt> vo; APInt co(64,0);
  if(G->collectOffset(*DL,64,vo,co)){ o["co"]=co.getSExtValue(); json::Array a; for(auto&p:vo) a.push_back(json::Array{opnd(p.first),p.second.getSExtValue()}); o["vo"]=std::move(a);}  
  return o;
}
static json::Value opnd(const Value*V){
  if(auto*I=dyn_cast<Instruction>(V)) return json::Array{"v",VID[I]};
  if(auto*A=dyn_cast<Argument>(V)) return json::Array{"a",(int)A->getArgNo()};
  if(auto*B=dyn_cast<BasicBlock>(V)) return json::Array{"bb",BID[B]};
  if(auto*C=dyn_cast<ConstantInt>(V)){ if(C->getBitWidth()<=64) return json::Array{"i",C->getBitWidth()==1?(int64_t)C->getZExtValue():C->getSExtValue()}; return json::Array{"?"}; }
  if(auto*C=dyn_cast<ConstantFP>(V)){ bool li; APFloat f=C->getValueAPF(); f.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&li); double d=f.convertToDouble(); SmallString<32> s; C->getValueAPF().toString(s); if(!std::isfinite(d)) return json::Array{"f",std::string(s.str())}; return json::Array{"f",d}; }
  if(isa<ConstantPointerNull>(V)) return json::Array{"null"};
  if(isa<PoisonValue>(V)) return json::Array{"poison"};
  if(isa<UndefValue>(V)) return json::Array{"undef"};
  if(auto*G=dyn_cast<GlobalValue>(V)) return json::Array{"g",G->getName().str()};
  if(auto*E=dyn_cast<ConstantExpr>(V)){ json::Object o; o["op"]=E->getOpcodeName(); json::Array a; for(auto&u:E->operands()) a.push_back(opnd(u)); o["ops"]=std::move(a); if(auto*G=dyn_cast<GEPOperator>(E)) o["gep"]=gepinfo(G); return json::Array{"ce",std::move(o)}; }
  if(isa<ConstantAggregateZero>(V)) return json::Array{"zero"};
  return json::Array{"?"};
}
static std::string relf(StringRef f){ return f.str(); }
static json::Value locj(const DebugLoc&D){
  if(!D) return nullptr; json::Array a; const DILocation*L=D.get();
  while(L){ std::string fn; if(auto*S=L->getScope()->getSubprogram()) fn=S->getName().str(); a.push_back(json::Array{relf(L->getFilename()),(int)L->getLine(),fn}); L=L->getInlinedAt(); }
  return std::move(a);
}
static json::Object initj(const GlobalVariable&G){ json::Object o; o["const"]=G.isConstant(); o["ty"]=tystr(G.getValueType()); o["internal"]=G.hasLocalLinkage(); o["size"]=(int64_t)(G.getValueType()->isSized()?DL->getTypeAllocSize(G.getValueType()):0); o["extern"]=G.isDeclaration(); o["tls"]=G.isThreadLocal();
  SmallVector<DIGlobalVariableExpression*,1> ge; G.getDebugInfo(ge); if(!ge.empty()){ auto*v=ge[0]->getVariable(); o["diname"]=v->getName().str(); o["line"]=(int)v->getLine(); o["file"]=v->getFilename().str(); o["di"]=ditype(v->getType()); }
  if(G.hasInitializer()){ auto*I=G.getInitializer(); if(auto*C=dyn_cast<ConstantDataSequential>(I)){ if(C->isCString()) { o["str"]=C->getAsCString().str(); std::string s=C->getAsCString().str(); for(char&c:s) if((unsigned char)c>=128) c='?'; o["str"]=s; } else { json::Array a; for(unsigned i=0;i<C->getNumElements();++i){ if(C->getElementType()->isIntegerTy()) a.push_back((int64_t)C->getElementAsInteger(i)); else if(C->getElementType()->isDoubleTy()) a.push_back(C->getElementAsDouble(i)); } o["data"]=std::move(a);} } else if(isa<ConstantAggregateZero>(I)) o["zero"]=true; else if(auto*C=dyn_cast<ConstantInt>(I)) o["int"]=C->getSExtValue(); }
  return o; }
// -io: stdio modelled as streams of values, on the path where every file operation succeeds.  fscanf conversions become
// vg_scan_* calls whose results are stored, fprintf arguments vg_emit.* calls, string building a value kept in the first
// eight bytes of the buffer.  W_..._n<k>: the first integer read in that function is k.
static std::string hexs(const std::string&s){ std::string o; char b[3]; for(unsigned char c:s){ snprintf(b,3,"%02x",c); o+=b; } return o; }
struct Conv{ std::string pre,flags; int width=-1,prec=-1; bool star=false; std::string len; char c=0; };
static std::vector<Conv> convs(const std::string&f,std::string&tail){ std::vector<Conv> r; std::string lit; size_t i=0;
  while(i<f.size()){ if(f[i]!='%'){ lit+=f[i++]; continue; } if(i+1<f.size()&&f[i+1]=='%'){ lit+='%'; i+=2; continue; }
    Conv k; k.pre=lit; lit=""; ++i; while(i<f.size()&&strchr("-+ #0",f[i])) k.flags+=f[i++]; if(i<f.size()&&f[i]=='*'){ k.star=true; ++i; }
    if(i<f.size()&&isdigit(f[i])){ k.width=0; while(i<f.size()&&isdigit(f[i])) k.width=k.width*10+f[i++]-'0'; }
    if(i<f.size()&&f[i]=='.'){ ++i; k.prec=0; while(i<f.size()&&isdigit(f[i])) k.prec=k.prec*10+f[i++]-'0'; }
    while(i<f.size()&&strchr("hlLzjt",f[i])) k.len+=f[i++];
    if(i<f.size()&&f[i]=='['){ k.c='['; ++i; if(i<f.size()&&f[i]=='^') ++i; if(i<f.size()) ++i; while(i<f.size()&&f[i]!=']') ++i; if(i<f.size()) ++i; }
    else if(i<f.size()) k.c=f[i++];
    r.push_back(k); }
  tail=lit; return r; }
// A format (or name) chosen by a condition: the call is made on either branch.
static void splitFormats(Module&M){
  for(auto&F:M) for(bool again=true;again;){ again=false; for(auto&B:F){ for(auto&I:B){ auto*c=dyn_cast<CallInst>(&I); auto*f=c?c->getCalledFunction():nullptr; if(!f||!f->isDeclaration()) continue; StringRef n=f->getName();
      if(!(n.contains("scanf")||n.contains("printf")||n=="fputs"||n=="fopen"||n=="fopen64")) continue; SelectInst*s=nullptr; for(auto&u:c->args()) if(auto*x=dyn_cast<SelectInst>(u->stripPointerCasts())) if(x->getType()->isPointerTy()){ StringRef r; if(getConstantStringInfo(x->getTrueValue(),r)&&getConstantStringInfo(x->getFalseValue(),r)) s=x; } if(!s) continue;
      Instruction*t,*e; SplitBlockAndInsertIfThenElse(s->getCondition(),c,&t,&e); auto*a=cast<CallInst>(c->clone()); a->insertBefore(t); auto*b=cast<CallInst>(c->clone()); b->insertBefore(e);
      for(unsigned k=0;k<c->arg_size();++k) if(c->getArgOperand(k)->stripPointerCasts()==s){ a->setArgOperand(k,s->getTrueValue()); b->setArgOperand(k,s->getFalseValue()); }
      if(!c->getType()->isVoidTy()&&!c->use_empty()){ auto*p=PHINode::Create(c->getType(),2,"",c); p->addIncoming(a,t->getParent()); p->addIncoming(b,e->getParent()); c->replaceAllUsesWith(p); } c->eraseFromParent(); again=true; break; } if(again) break; } } }
static void ioRewrite(Module&M){
  LLVMContext&C=M.getContext(); auto*D=Type::getDoubleTy(C); auto*I32=Type::getInt32Ty(C); auto*PT=PointerType::get(C,0);
  auto fn=[&](const std::string&n,Type*R,std::vector<Type*> a,bool pure){ auto fc=M.getOrInsertFunction(n,FunctionType::get(R,a,false)); auto*F=cast<Function>(fc.getCallee());
    F->addFnAttr(Attribute::NoUnwind); F->addFnAttr(Attribute::WillReturn); F->setMemoryEffects(pure?MemoryEffects::none():MemoryEffects::inaccessibleMemOnly()); return F; };
  auto cstr=[&](Value*v,std::string&s){ StringRef r; if(getConstantStringInfo(v,r)){ s=r.str(); return true; } return false; };
  for(auto&F:M) if(F.isDeclaration()&&(F.getName()=="vg_want"||F.getName()=="vg_total")){ F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly()); F.addFnAttr(Attribute::NoUnwind); F.addFnAttr(Attribute::WillReturn); }
  for(auto&F:M) if(!F.isDeclaration()){
    int want=-1; { std::string n=F.getName().str(); size_t p=n.rfind("_n"); if(p!=std::string::npos&&p+2<n.size()&&isdigit(n[p+2])) want=atoi(n.c_str()+p+2); }
    auto suf=[&](const char*t,int d){ std::string n=F.getName().str(); size_t p=n.rfind(t); return p!=std::string::npos&&p+2<n.size()&&isdigit(n[p+2])?atoi(n.c_str()+p+2):d; };
    int feofs=suf("_f",1), eofs=suf("_e",0), all=suf("_a",-1); std::string miss=suf("_o",0)>0?std::to_string(suf("_o",0)):""; int nopen=0; AllocaInst*fc=nullptr,*ec=nullptr;
    auto count=[&](AllocaInst*&a,IRBuilder<>&B)->Value*{ if(!a){ IRBuilder<> E(&*F.getEntryBlock().getFirstInsertionPt()); a=E.CreateAlloca(I32); E.CreateStore(ConstantInt::get(I32,0),a); } Value*v=B.CreateAdd(B.CreateLoad(I32,a),ConstantInt::get(I32,1)); B.CreateStore(v,a); return v; };
    std::vector<CallInst*> W; ReversePostOrderTraversal<Function*> R(&F); for(auto*B:R) for(auto&I:*B) if(auto*c=dyn_cast<CallInst>(&I)) W.push_back(c);
    for(auto*c:W){ auto*cf=dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts()); if(!cf) continue; std::string n=cf->getName().str(); IRBuilder<> B(c);
      auto tok=[&](Value*p)->Value*{ std::string s; if(cstr(p,s)) return B.CreateCall(fn("vg_lit."+hexs(s),D,{},true)); return B.CreateLoad(D,p); };
      auto fin=[&](Value*v){ if(!c->getType()->isVoidTy()) c->replaceAllUsesWith(v?v:Constant::getNullValue(c->getType())); c->eraseFromParent(); };
      auto cat=[&](Value*a,Value*b)->Value*{ return a?B.CreateCall(fn("vg_cat",D,{D,D},true),{a,b}):b; };
      bool isf=n.find("fscanf")!=std::string::npos;
      if(isf){ std::string f,t; if(!cstr(c->getArgOperand(1),f)) continue; auto cs=convs(f,t); unsigned k=2; int cnt=0; Value*fp=c->getArgOperand(0);
        for(auto&v:cs){ Value*x; if(v.c=='d'||v.c=='i'||v.c=='u'){ Type*T=v.len=="l"||v.len=="ll"?Type::getInt64Ty(C):v.len=="h"?Type::getInt16Ty(C):v.len=="hh"?Type::getInt8Ty(C):(Type*)I32; x=B.CreateCall(fn("vg_scan_"+tystr(T),T,{PT},false),{fp}); if(want>=0&&!v.star){ x=ConstantInt::get(T,want); want=-1; } else if(all>=0&&cs.size()==1) x=ConstantInt::get(T,all); }
          else if(strchr("feEgGaA",v.c)&&v.c) { Type*T=v.len=="l"?D:Type::getFloatTy(C); x=B.CreateCall(fn("vg_scan_"+tystr(T),T,{PT},false),{fp}); }
          else if(v.c=='s'||v.c=='['||v.c=='c') x=B.CreateCall(fn("vg_scan_str",D,{PT},false),{fp}); else continue;
          if(v.star) continue; if(k<c->arg_size()) B.CreateStore(x,c->getArgOperand(k++)); ++cnt; }
        if(eofs) fin(B.CreateSelect(B.CreateICmpSLE(count(ec,B),ConstantInt::get(I32,eofs)),ConstantInt::get(I32,cnt),ConstantInt::get(I32,-1)));
        else fin(ConstantInt::get(I32,cnt)); }
      else if(n=="fgets"){ B.CreateStore(B.CreateCall(fn("vg_scan_str",D,{PT},false),{c->getArgOperand(2)}),c->getArgOperand(0)); fin(c->getArgOperand(0)); }
      else if(n=="fprintf"){ bool std=false; if(auto*l=dyn_cast<LoadInst>(c->getArgOperand(0))) if(isa<GlobalVariable>(l->getPointerOperand())) std=true;
        std::string f,t; if(std){ fin(ConstantInt::get(I32,1)); continue; } if(!cstr(c->getArgOperand(1),f)) continue; auto cs=convs(f,t); unsigned k=2; Value*fp=c->getArgOperand(0);
        auto blank=[](const std::string&s){ for(char x:s) if(!isspace((unsigned char)x)) return false; return true; };
        for(size_t q=0;q<cs.size();++q){ auto&v=cs[q]; if(!blank(v.pre)) B.CreateCall(fn("vg_text."+hexs(v.pre),Type::getVoidTy(C),{PT},false),{fp});
          std::string nx=q+1<cs.size()?cs[q+1].pre:t; bool wb=!v.pre.empty(),wa=!nx.empty(); if(k>=c->arg_size()) break; Value*x=c->getArgOperand(k++); bool fl=x->getType()->isDoubleTy();
          int pr=fl?(v.prec>=0?v.prec:6):-1; if(fl&&strchr("gG",v.c)) pr=0; if(fl&&strchr("eE",v.c)) pr=pr+4; if(x->getType()->isPointerTy()) x=tok(x);
          B.CreateCall(fn("vg_emit."+tystr(x->getType())+"."+std::to_string(pr)+"."+(wb?"1":"0")+(wa?"1":"0"),Type::getVoidTy(C),{PT,x->getType()},false),{fp,x}); }
        if(cs.empty()&&!blank(t)) B.CreateCall(fn("vg_text."+hexs(t),Type::getVoidTy(C),{PT},false),{fp}); else if(cs.empty()||!t.empty()) B.CreateCall(fn("vg_space",Type::getVoidTy(C),{PT},false),{fp});
        fin(ConstantInt::get(I32,8)); }
      else if(n=="fputc"||n=="putc"||n=="fputs"){ std::string s; bool ch=n!="fputs"; bool bl=false; if(!ch&&cstr(c->getArgOperand(0),s)){ bl=true; for(char x:s) if(!isspace((unsigned char)x)) bl=false; } if(ch) if(auto*ci=dyn_cast<ConstantInt>(c->getArgOperand(0))) bl=isspace((int)ci->getZExtValue());
        B.CreateCall(fn(bl?"vg_space":"vg_text."+hexs(s),Type::getVoidTy(C),{PT},false),{c->getArgOperand(1)}); fin(ConstantInt::get(I32,1)); }
      else if(n=="snprintf"||n=="sprintf"){ unsigned fi=n=="sprintf"?1:2; std::string f,t; if(!cstr(c->getArgOperand(fi),f)) continue; auto cs=convs(f,t); unsigned k=fi+1; Value*r=nullptr;
        for(auto&v:cs){ if(!v.pre.empty()) r=cat(r,B.CreateCall(fn("vg_lit."+hexs(v.pre),D,{},true))); if(k>=c->arg_size()) break; Value*x=c->getArgOperand(k++);
          if(v.c=='s') x=tok(x); else { if(x->getType()->isIntegerTy()) x=B.CreateSIToFP(x,D); x=B.CreateCall(fn("vg_num."+hexs(v.flags+"|"+(v.width>=0?std::to_string(v.width):"")+"|"+std::to_string(v.prec)+(v.c=='i'?'d':v.c)),D,{D},true),{x}); } r=cat(r,x); }
        if(!t.empty()||!r) r=cat(r,B.CreateCall(fn("vg_lit."+hexs(t),D,{},true))); B.CreateStore(r,c->getArgOperand(0)); fin(ConstantInt::get(I32,8)); }
      else if(n=="strcpy"||n=="strncpy"||n=="stpcpy"){ B.CreateStore(tok(c->getArgOperand(1)),c->getArgOperand(0)); fin(c->getArgOperand(0)); }
      else if(n=="strcat"||n=="strncat"){ Value*a=B.CreateLoad(D,c->getArgOperand(0)); B.CreateStore(cat(a,tok(c->getArgOperand(1))),c->getArgOperand(0)); fin(c->getArgOperand(0)); }
      else if(n=="fopen"||n=="fopen64"){ std::string m; if(!cstr(c->getArgOperand(1),m)) continue; if(miss.find((char)('0'+ ++nopen))!=std::string::npos){ fin(nullptr); continue; } auto*G=fn("vg_open."+hexs(m),PT,{D},false); G->addRetAttr(Attribute::NonNull); G->addRetAttr(Attribute::NoAlias); fin(B.CreateCall(G,{tok(c->getArgOperand(0))})); }
      else if(n=="feof") fin(B.CreateZExt(B.CreateICmpSGE(count(fc,B),ConstantInt::get(I32,feofs)),I32));
      else if(n=="fclose"||n=="fflush"||n=="ferror") fin(ConstantInt::get(I32,0));
      else if(n=="setlocale"||n=="perror"||n=="printf"||n=="puts"||n=="putchar") fin(nullptr);
      else if(n=="realloc"&&isa<Instruction>(c->getArgOperand(0)->stripPointerCasts())) fin(c->getArgOperand(0));
      else if(n=="malloc"&&isa<ConstantInt>(c->getArgOperand(0))&&cast<ConstantInt>(c->getArgOperand(0))->getZExtValue()<8) { c->setArgOperand(0,ConstantInt::get(c->getArgOperand(0)->getType(),4096)); c->removeRetAttr(Attribute::DereferenceableOrNull); c->addRetAttr(Attribute::NonNull); }
      else if(n=="malloc"||n=="calloc"||n=="realloc") c->addRetAttr(Attribute::NonNull);
    } } }
// Peel one iteration off the first loop, in control-flow order, that simplification could not unroll.
// Structure assignments field by field, so that the fields are followed one by one.
static bool leaves(const DataLayout&D,Type*t,uint64_t o,std::vector<std::pair<uint64_t,Type*>>&v){
  if(v.size()>256) return false;
  if(auto*S=dyn_cast<StructType>(t)){ auto*L=D.getStructLayout(S); for(unsigned i=0;i<S->getNumElements();++i) if(!leaves(D,S->getElementType(i),o+L->getElementOffset(i),v)) return false; return true; }
  if(auto*A=dyn_cast<ArrayType>(t)){ uint64_t n=D.getTypeAllocSize(A->getElementType()); for(uint64_t i=0;i<A->getNumElements();++i) if(!leaves(D,A->getElementType(),o+i*n,v)) return false; return true; }
  v.push_back({o,t}); return true; }
static Type*structAt(const DataLayout&D,Value*p,uint64_t n){
  if(auto*g=dyn_cast<GEPOperator>(p)){ Type*r=g->getResultElementType(); if(D.getTypeAllocSize(r)==n&&r->isStructTy()) return r; if(g->getNumIndices()==1&&g->getSourceElementType()->isStructTy()&&D.getTypeAllocSize(g->getSourceElementType())==n) return g->getSourceElementType(); }
  if(auto*a=dyn_cast<AllocaInst>(p)) if(D.getTypeAllocSize(a->getAllocatedType())==n&&a->getAllocatedType()->isStructTy()) return a->getAllocatedType();
  return nullptr; }
static void splitCopies(Module&M){
  { auto&D=M.getDataLayout(); std::vector<MemCpyInst*> w; for(auto&F:M) for(auto&B:F) for(auto&I:B) if(auto*m=dyn_cast<MemCpyInst>(&I)) if(isa<ConstantInt>(m->getLength())&&!m->isVolatile()) w.push_back(m);
    for(auto*m:w){ uint64_t n=cast<ConstantInt>(m->getLength())->getZExtValue(); Type*t=structAt(D,m->getRawSource(),n); if(!t) t=structAt(D,m->getRawDest(),n); if(!t) continue;
      std::vector<std::pair<uint64_t,Type*>> f; if(!leaves(D,t,0,f)||f.empty()||f.size()>256) continue; IRBuilder<> B(m);
      std::vector<Value*> v; for(auto&x:f) v.push_back(B.CreateLoad(x.second,B.CreateConstGEP1_64(B.getInt8Ty(),m->getRawSource(),x.first)));
      for(size_t i=0;i<f.size();++i) B.CreateStore(v[i],B.CreateConstGEP1_64(B.getInt8Ty(),m->getRawDest(),f[i].first));
      m->eraseFromParent(); } }
  std::vector<MemCpyInst*> w; for(auto&F:M) for(auto&B:F) for(auto&I:B) if(auto*m=dyn_cast<MemCpyInst>(&I)) if(m->getMetadata(LLVMContext::MD_tbaa_struct)&&!m->isVolatile()) w.push_back(m);
  for(auto*m:w){ auto*md=m->getMetadata(LLVMContext::MD_tbaa_struct); IRBuilder<> B(m); struct Fd{ uint64_t o,n; Type*t; }; std::vector<Fd> f; bool ok=md->getNumOperands()%3==0;
    for(unsigned i=0;ok&&i+2<md->getNumOperands();i+=3){ uint64_t o=mdconst::extract<ConstantInt>(md->getOperand(i))->getZExtValue(), n=mdconst::extract<ConstantInt>(md->getOperand(i+1))->getZExtValue(); auto*tag=dyn_cast<MDNode>(md->getOperand(i+2)); std::string k;
      if(tag&&tag->getNumOperands()>1) if(auto*ty=dyn_cast<MDNode>(tag->getOperand(1))) if(auto*nm=dyn_cast<MDString>(ty->getOperand(0))) k=nm->getString().str();
      Type*t=nullptr; uint64_t e=0; if(k=="double"){ t=B.getDoubleTy(); e=8; } else if(k=="float"){ t=B.getFloatTy(); e=4; } else if(k=="int"){ t=B.getInt32Ty(); e=4; } else if(k=="any pointer"){ t=B.getPtrTy(); e=8; } else if(k=="omnipotent char"){ t=B.getInt8Ty(); e=1; } else if(k=="long"||k=="long long"){ t=B.getInt64Ty(); e=8; } else if(k=="short"){ t=B.getInt16Ty(); e=2; }
      if(!t||n%e||n/e>64){ ok=false; break; } for(uint64_t q=0;q<n;q+=e) f.push_back({o+q,e,t}); }
    if(!ok||f.empty()||f.size()>256) continue;
    std::vector<Value*> v; for(auto&x:f) v.push_back(B.CreateLoad(x.t,B.CreateConstGEP1_64(B.getInt8Ty(),m->getRawSource(),x.o)));
    for(size_t i=0;i<f.size();++i) B.CreateStore(v[i],B.CreateConstGEP1_64(B.getInt8Ty(),m->getRawDest(),f[i].o));
    m->eraseFromParent(); }
}
static const int RECURSE=24;
static bool peelFirst(Function&F){
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CAM,MAM);
  FunctionPassManager FPM; if(auto e=PB.parsePassPipeline(FPM,"loop-simplify,lcssa")){ consumeError(std::move(e)); return false; } FPM.run(F,FAM);
  auto&LI=FAM.getResult<LoopAnalysis>(F); auto&DT=FAM.getResult<DominatorTreeAnalysis>(F); auto&SE=FAM.getResult<ScalarEvolutionAnalysis>(F); auto&AC=FAM.getResult<AssumptionAnalysis>(F);
  ReversePostOrderTraversal<Function*> RPO(&F);
  for(BasicBlock*BB:RPO) if(Loop*L=LI.getLoopFor(BB)) if(L->getHeader()==BB&&L->isOutermost()){
    if(!canPeel(L)) return false;
    ValueToValueMapTy VM; return peelLoop(L,1,&LI,&SE,DT,&AC,true,VM);
  }
  return false;
}
// Heap blocks of constant size allocated once (outside loops) become local arrays, so that their content is followed; their release becomes nothing.
static bool stackify(Function&F){
    DominatorTree DT(F); LoopInfo LI(DT); std::vector<CallInst*> w; bool any=false;
    for(auto&B:F) if(!LI.getLoopFor(&B)) for(auto&I:B) if(auto*c=dyn_cast<CallInst>(&I)) if(auto*f=c->getCalledFunction()) if(f->isDeclaration()&&(f->getName()=="malloc"||f->getName()=="calloc")) w.push_back(c);
    std::set<Value*> mine; for(auto&I:F.getEntryBlock()) if(auto*a=dyn_cast<AllocaInst>(&I)) if(a->getName().starts_with("heap.")) mine.insert(a);
    for(auto*c:w){ uint64_t n=1; bool ok=true; for(auto&u:c->args()){ auto*k=dyn_cast<ConstantInt>(u); if(!k){ ok=false; break; } n*=k->getZExtValue(); } if(!ok||n==0||n>(1<<20)) continue;
        IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt()); auto*a=B.CreateAlloca(ArrayType::get(B.getInt8Ty(),n),nullptr,"heap."); a->setAlignment(Align(16)); mine.insert(a);
        { IRBuilder<> Z(c); Z.CreateMemSet(a,Z.getInt8(c->getCalledFunction()->getName()=="calloc"?0:0x5a),n,Align(16)); } // malloc: no content to rely on
        c->replaceAllUsesWith(a); c->eraseFromParent(); any=true; }
    std::vector<CallInst*> fr; for(auto&B:F) for(auto&I:B) if(auto*c=dyn_cast<CallInst>(&I)) if(auto*f=c->getCalledFunction()) if(f->getName()=="free"){ SmallVector<const Value*,4> o; getUnderlyingObjects(c->getArgOperand(0),o,nullptr,0); bool ok=!o.empty(); for(auto*v:o) if(!isa<ConstantPointerNull>(v)&&!mine.count(const_cast<Value*>(v))) ok=false; if(ok) fr.push_back(c); }
    for(auto*c:fr){ c->eraseFromParent(); any=true; }
    return any;
}

// Bytes copied into a heap block that became a local array, or moved within a local array: copied one by one, so that loads see what was stored.
static bool spreadCopies(Function&F){
    std::vector<MemTransferInst*> w; for(auto&B:F) for(auto&I:B) if(auto*m=dyn_cast<MemTransferInst>(&I)) if(auto*n=dyn_cast<ConstantInt>(m->getLength())) if(n->getZExtValue()<=128) if(auto*a=dyn_cast<AllocaInst>(getUnderlyingObject(m->getRawDest()))) if(a->getName().starts_with("heap.")||isa<MemMoveInst>(m)) w.push_back(m);
    for(auto*m:w){ IRBuilder<> B(m); uint64_t n=cast<ConstantInt>(m->getLength())->getZExtValue(); std::vector<Value*> v;
        for(uint64_t i=0;i<n;++i) v.push_back(B.CreateLoad(B.getInt8Ty(),B.CreateConstGEP1_64(B.getInt8Ty(),m->getRawSource(),i)));
        for(uint64_t i=0;i<n;++i) B.CreateStore(v[i],B.CreateConstGEP1_64(B.getInt8Ty(),m->getRawDest(),i));
        m->eraseFromParent(); }
    return !w.empty();
}

// Long chains of constant pointer steps become one step (alias analysis only looks through a few).
static bool flattenSteps(Function&F){
    bool any=false; const DataLayout&L=F.getParent()->getDataLayout(); std::vector<GetElementPtrInst*> w;
    for(auto&B:F) for(auto&I:B) if(auto*g=dyn_cast<GetElementPtrInst>(&I)) w.push_back(g);
    for(auto*g:w){ int n=0; Value*b=g; APInt off(64,0); bool in=true;
        while(auto*h=dyn_cast<GetElementPtrInst>(b)){ if(!h->getType()->isPointerTy()||!h->accumulateConstantOffset(L,off)) break; in=in&&h->isInBounds(); b=h->getPointerOperand(); ++n; }
        if(n<3) continue;
        IRBuilder<> B(g); auto*r=B.CreateConstGEP1_64(B.getInt8Ty(),b,off.getSExtValue()); if(in) if(auto*x=dyn_cast<GetElementPtrInst>(r)) x->setIsInBounds(true);
        g->replaceAllUsesWith(r); any=true; }
    return any;
}

int main(int argc,char**argv){
  bool io=false,strip=false,split=false; int peel=0; std::vector<std::string> in, clo; std::string out,pipe,pipe2,pipe3,keep; 
  for(int i=1;i<argc;++i){ std::string a=argv[i]; if(a=="-strip") strip=true; else if(a=="-split") split=true; else if(a=="-io") io=true; else if(a=="-peel") peel=atoi(argv[++i]); else if(a=="-o") out=argv[++i]; else if(a=="-p") pipe=argv[++i]; else if(a=="-p2") pipe2=argv[++i]; else if(a=="-p3") pipe3=argv[++i]; else if(a=="-keep") keep=argv[++i]; else if(a=="-cl") clo.push_back(argv[++i]); else in.push_back(a); }
  if(!clo.empty()){ std::vector<const char*> v{"irdump"}; for(auto&x:clo) v.push_back(x.c_str()); cl::ParseCommandLineOptions(v.size(),v.data()); }
  LLVMContext C; SMDiagnostic E; std::unique_ptr<Module> M;
  for(auto&f:in){ auto m=parseIRFile(f,E,C); if(!m){ E.print("irdump",errs()); return 3; } if(!M) M=std::move(m); else if(Linker::linkModules(*M,std::move(m),strip&&&f==&in.back()?Linker::OverrideFromSrc:Linker::None)){ errs()<<"link error\n"; return 3; } }
  std::set<std::string> K; if(!keep.empty()){ std::ifstream f(keep); std::string s; while(f>>s) K.insert(s); }
  auto run=[&](const std::string&p){ if(p.empty()) return 0; PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CAM,MAM); ModulePassManager MPM; if(auto err=PB.parsePassPipeline(MPM,p)){ errs()<<"pipeline: "<<toString(std::move(err))<<"\n"; return 3; } MPM.run(*M,MAM); return 0; };
  std::set<std::string> rec; { CallGraph CG(*M); for(auto it=scc_begin(&CG);!it.isAtEnd();++it){ if(it.hasCycle()) for(auto*n:*it) if(n->getFunction()) rec.insert(n->getFunction()->getName().str()); } }
  std::set<std::string> helpers; std::map<std::string,std::vector<std::string>> inl;
  for(auto&F:*M) if(!F.isDeclaration()){ F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline);
     if(!keep.empty()&&!K.count(F.getName().str())&&!rec.count(F.getName().str())){ F.addFnAttr(Attribute::AlwaysInline); helpers.insert(F.getName().str()); } }
  if(split) splitCopies(*M);
  if(int r=run(pipe)) return r;
  if(!helpers.empty()) if(int r=run("always-inline")) return r;
  if(strip){ for(auto&F:*M) if(!F.isDeclaration()&&!K.count(F.getName().str())) F.setLinkage(GlobalValue::InternalLinkage); if(int r=run("globaldce")) return r; }
  if(io){ if(int r=run(pipe2)) return r; splitFormats(*M); ioRewrite(*M); }
  if(int r=run(pipe2)) return r;
  // one function at a time: heap blocks, calls through resolved pointers and recursive calls one level at a time, then loops one iteration at a time
  if(peel) for(auto&F:*M) if(!F.isDeclaration()&&(F.getName().starts_with("W_")||rec.empty())){
    auto inl=[&](bool r){ bool any=false; std::vector<CallInst*> w; for(auto&B:F) for(auto&I:B) if(auto*c=dyn_cast<CallInst>(&I)) if(auto*f=c->getCalledFunction()) if(f!=&F&&!f->isDeclaration()&&(r?rec.count(f->getName().str())>0:f->hasFnAttribute(Attribute::AlwaysInline))) w.push_back(c);
      for(auto*c:w){ InlineFunctionInfo fi; if(InlineFunction(*c,fi).isSuccess()) any=true; if(r) break; } return any; };
    auto simp=[&]()->int{ PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CAM,MAM); FunctionPassManager FPM; if(auto err=PB.parsePassPipeline(FPM,pipe3)){ errs()<<"pipeline: "<<toString(std::move(err))<<"\n"; return 3; } FPM.run(F,FAM); return 0; };
    int d=0; for(int k=0;;){ bool ch=stackify(F)|inl(false)|spreadCopies(F); if(!ch&&k<peel&&peelFirst(F)){ ++k; ch=true; } if(!ch&&d<RECURSE&&F.size()<2000&&inl(true)){ ++d; ch=true; } if(!ch) break; flattenSteps(F); if(int r=simp()) return r; } }
  DL=&M->getDataLayout();
  json::Object J; 
  // struct types
  json::Object st; for(auto*S:M->getIdentifiedStructTypes()){ if(S->isOpaque()) continue; auto*SL=DL->getStructLayout(S); json::Array a; for(unsigned i=0;i<S->getNumElements();++i) a.push_back(json::Array{tystr(S->getElementType(i)),(int64_t)SL->getElementOffset(i).getFixedValue(),(int64_t)DL->getTypeAllocSize(S->getElementType(i)).getFixedValue()}); st["%"+S->getName().str()]=json::Object{{"size",(int64_t)SL->getSizeInBytes()},{"elems",std::move(a)}}; }
  J["structs"]=std::move(st);
  DebugInfoFinder DF; DF.processModule(*M); json::Object dt; std::map<const DICompositeType*,std::string> nm;
  for(auto*T:DF.types()) if(auto*D=dyn_cast<DIDerivedType>(T)) if(D->getTag()==dwarf::DW_TAG_typedef) if(auto*CT=dyn_cast_or_null<DICompositeType>(D->getBaseType())) if(CT->getName().empty()) nm[CT]=D->getName().str();
  for(auto*T:DF.types()) if(auto*CT=dyn_cast<DICompositeType>(T)) if(CT->getTag()==dwarf::DW_TAG_structure_type){ std::string n=CT->getName().str(); if(n.empty()) n=nm[CT]; if(n.empty()||CT->isForwardDecl()) continue; json::Array a; for(auto*e:CT->getElements()) if(auto*m=dyn_cast<DIDerivedType>(e)) a.push_back(json::Array{m->getName().str(),(int64_t)m->getOffsetInBits()/8,(int64_t)m->getSizeInBits()/8,ditype(m->getBaseType())}); dt[n]=json::Object{{"size",(int64_t)CT->getSizeInBits()/8},{"members",std::move(a)},{"file",CT->getFilename().str()},{"line",(int)CT->getLine()}}; }
  J["ditypes"]=std::move(dt);
  json::Object gl; for(auto&G:M->globals()) gl[G.getName().str()]=initj(G); J["globals"]=std::move(gl);
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CAM,MAM);
  json::Object fs; for(auto&F:*M){ json::Object f; f["decl"]=F.isDeclaration(); f["internal"]=F.hasLocalLinkage(); f["helper"]=helpers.count(F.getName().str())>0; f["rec"]=rec.count(F.getName().str())>0; f["ret"]=tystr(F.getReturnType());
    json::Array as; for(auto&A:F.args()) as.push_back(json::Object{{"name",A.getName().str()},{"ty",tystr(A.getType())},{"byval",A.hasByValAttr()},{"bvt",A.hasByValAttr()?tystr(A.getParamByValType()):""}}); f["vararg"]=F.isVarArg();
    if(F.isDeclaration()){ f["args"]=std::move(as); fs[F.getName().str()]=std::move(f); continue; }
    if(auto*S=F.getSubprogram()){ f["file"]=S->getFilename().str(); f["line"]=(int)S->getLine(); json::Array ts; if(S->getType()) for(auto*t:S->getType()->getTypeArray()) ts.push_back(ditype(t)); f["dity"]=std::move(ts); }
    VID.clear(); BID.clear(); int v=0,b=0; for(auto&B:F){ BID[&B]=b++; for(auto&I:B) VID[&I]=v++; }
    json::Object vars; // value -> variable name
    json::Array bl; json::Array dv;
    for(auto&B:F){ json::Array is; for(auto&I:B){
        if(auto*D=dyn_cast<DbgVariableIntrinsic>(&I)){ for(auto*V:D->location_ops()) { if(D->getRawLocation()&&V) dv.push_back(json::Array{opnd(V),D->getVariable()->getName().str(),(int)D->getVariable()->getArg(),ditype(D->getVariable()->getType()),isa<DbgDeclareInst>(D)?"decl":"val",BID[&B],VID[&I], D->getDebugLoc()&&D->getDebugLoc()->getInlinedAt()?1:0}); } continue; }
        if(isa<DbgInfoIntrinsic>(&I)) continue;
        json::Object o; o["id"]=VID[&I]; o["op"]=I.getOpcodeName(); if(!I.getType()->isVoidTy()) o["ty"]=tystr(I.getType()); if(auto l=I.getDebugLoc()) o["loc"]=locj(l);
        if(auto*P=dyn_cast<PHINode>(&I)){ json::Array a; for(unsigned i=0;i<P->getNumIncomingValues();++i) a.push_back(json::Array{opnd(P->getIncomingValue(i)),BID[P->getIncomingBlock(i)]}); o["in"]=std::move(a); }
        else if(auto*CI=dyn_cast<CallBase>(&I)){ json::Array a; for(auto&u:CI->args()) a.push_back(opnd(u)); o["ops"]=std::move(a); Value*c=CI->getCalledOperand()->stripPointerCasts(); if(auto*cf=dyn_cast<Function>(c)) o["callee"]=cf->getName().str(); else o["icallee"]=opnd(c); json::Array bv; for(unsigned i=0;i<CI->arg_size();++i) if(CI->isByValArgument(i)) bv.push_back((int)i); if(!bv.empty()) o["byval"]=std::move(bv); }
        else { json::Array a; for(auto&u:I.operands()) a.push_back(opnd(u)); o["ops"]=std::move(a);
          if(auto*c=dyn_cast<CmpInst>(&I)) o["pred"]=CmpInst::getPredicateName(c->getPredicate()).str();
          if(auto*c=dyn_cast<OverflowingBinaryOperator>(&I)){ o["nsw"]=c->hasNoSignedWrap(); }
          if(auto*G=dyn_cast<GEPOperator>(&I)) o["gep"]=gepinfo(G);
          if(auto*A=dyn_cast<AllocaInst>(&I)) { o["aty"]=tystr(A->getAllocatedType()); o["asize"]=(int64_t)DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue(); }
          if(auto*S=dyn_cast<StoreInst>(&I)) o["sty"]=tystr(S->getValueOperand()->getType());
          if(auto*S=dyn_cast<SwitchInst>(&I)){ json::Array cs; for(auto c:S->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(),BID[c.getCaseSuccessor()]}); o["cases"]=std::move(cs); o["default"]=BID[S->getDefaultDest()]; }
          if(auto*cst=dyn_cast<CastInst>(&I)) o["from"]=tystr(cst->getSrcTy());
        }
        if(I.isTerminator()){ json::Array s; for(auto*x:successors(&B)) s.push_back(BID[x]); o["succ"]=std::move(s); }
        is.push_back(std::move(o)); }
      bl.push_back(std::move(is)); }
    f["blocks"]=std::move(bl); f["dv"]=std::move(dv);
    for(auto&a:as) (void)a; f["args"]=std::move(as);
    auto&LI=FAM.getResult<LoopAnalysis>(F); auto&SE=FAM.getResult<ScalarEvolutionAnalysis>(F); json::Array ls;
    for(auto*L:LI.getLoopsInPreorder()){ json::Object l; l["header"]=BID[L->getHeader()]; json::Array bs; for(auto*x:L->blocks()) bs.push_back(BID[x]); l["blocks"]=std::move(bs); SmallVector<BasicBlock*,4> lt; L->getLoopLatches(lt); json::Array la; for(auto*x:lt) la.push_back(BID[x]); l["latches"]=std::move(la); SmallVector<BasicBlock*,4> ex; L->getExitingBlocks(ex); json::Array ea; for(auto*x:ex){ std::string s; raw_string_ostream os(s); SE.getExitCount(L,x)->print(os); ea.push_back(json::Array{BID[x],os.str()}); } l["exiting"]=std::move(ea); std::string s; raw_string_ostream os(s); SE.getSymbolicMaxBackedgeTakenCount(L)->print(os); l["symmax"]=os.str(); std::string s2; raw_string_ostream os2(s2); SE.getConstantMaxBackedgeTakenCount(L)->print(os2); l["constmax"]=os2.str(); l["depth"]=(int)L->getLoopDepth(); l["parent"]=L->getParentLoop()?BID[L->getParentLoop()->getHeader()]:-1; l["line"]=L->getStartLoc()?(int)L->getStartLoc().getLine():0; ls.push_back(std::move(l)); }
    f["loops"]=std::move(ls);
    fs[F.getName().str()]=std::move(f); }
  J["funcs"]=std::move(fs);
  std::error_code EC; raw_fd_ostream O(out,EC); O<<json::Value(std::move(J)); O<<"\n"; return EC?3:0;
}
