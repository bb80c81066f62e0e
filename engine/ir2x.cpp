// Translates LLVM bitcode into the compact form executed by symx.
#include "xir.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Transforms/Utils/LowerAtomic.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/Error.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstring>
using namespace llvm;
using namespace xir;

static std::vector<Op> ops; static std::vector<Edge> edges; static std::vector<Move> moves;
static std::vector<Case> cases; static std::vector<xir::Const> consts; static std::vector<Func> funcs;
static std::vector<Glob> globs; static std::vector<uint8_t> image; static std::vector<int32_t> args;
static std::vector<char> strs; static std::vector<Cov> covs; static std::vector<Pos> poss;
static std::vector<uint32_t> ctors;
static std::map<std::string,uint32_t> strIds;
static std::map<std::pair<uint64_t,uint32_t>,int> constIds;
static const DataLayout* DL;
static std::map<const Function*,uint32_t> fid;
static std::map<const GlobalVariable*,uint64_t> gaddr;
static std::map<const Value*,int> regOf;
static int nextReg;
static std::string repoPrefix;

static uint32_t str(const std::string& s){
  auto it=strIds.find(s); if(it!=strIds.end()) return it->second;
  uint32_t o=strs.size(); strs.insert(strs.end(),s.begin(),s.end()); strs.push_back(0); strIds[s]=o; return o;
}
static int constId(uint64_t v,uint32_t u=0){
  if(!u){ auto it=constIds.find({v,u}); if(it!=constIds.end()) return it->second; }
  consts.push_back({v,u,0}); int id=~(int)(consts.size()-1); if(!u) constIds[{v,u}]=id; return id;
}
static unsigned bitsOf(Type* t){
  if(t->isIntegerTy()) return t->getIntegerBitWidth();
  if(t->isPointerTy()) return 64;
  if(t->isDoubleTy()) return 64;
  if(t->isFloatTy()) return 32;
  return 0;
}
static bool scalarOk(Type* t){ unsigned b=bitsOf(t); return b>0&&b<=64; }
// flattening
static bool flat(Type* t, std::vector<std::pair<Type*,uint64_t>>& out, uint64_t off){
  if(scalarOk(t)){ out.push_back({t,off}); return true; }
  if(auto* st=dyn_cast<StructType>(t)){
    const StructLayout* sl=DL->getStructLayout(st);
    for(unsigned i=0;i<st->getNumElements();++i) if(!flat(st->getElementType(i),out,off+sl->getElementOffset(i))) return false;
    return true;
  }
  if(auto* at=dyn_cast<ArrayType>(t)){
    uint64_t s=DL->getTypeAllocSize(at->getElementType());
    if(at->getNumElements()>4096) return false;
    for(uint64_t i=0;i<at->getNumElements();++i) if(!flat(at->getElementType(),out,off+i*s)) return false;
    return true;
  }
  if(auto* vt=dyn_cast<FixedVectorType>(t)){
    uint64_t s=DL->getTypeStoreSize(vt->getElementType());
    if(DL->getTypeSizeInBits(vt->getElementType())%8) { // i1 vectors: registers only
      for(unsigned i=0;i<vt->getNumElements();++i) out.push_back({vt->getElementType(),off+i});
      return true;
    }
    for(unsigned i=0;i<vt->getNumElements();++i) if(!flat(vt->getElementType(),out,off+i*s)) return false;
    return true;
  }
  if(t->isVoidTy()||t->isMetadataTy()||t->isLabelTy()||t->isTokenTy()) return true;
  return false;
}
static int flatCount(Type* t){ std::vector<std::pair<Type*,uint64_t>> v; if(!flat(t,v,0)) return -1; return v.size(); }
static int flatIndex(Type* t, ArrayRef<unsigned> idx){
  int n=0;
  for(unsigned i: idx){
    if(auto* st=dyn_cast<StructType>(t)){ for(unsigned k=0;k<i;++k) n+=flatCount(st->getElementType(k)); t=st->getElementType(i); }
    else { auto* at=cast<ArrayType>(t); n+=i*flatCount(at->getElementType()); t=at->getElementType(); }
  }
  return n;
}
static bool evalConst(const Constant* c, uint64_t& v, bool& undef);
static bool evalConst(const Constant* c, uint64_t& v, bool& undef){
  undef=false;
  if(auto* ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()>64) return false; v=ci->getZExtValue(); return true; }
  if(isa<ConstantPointerNull>(c)){ v=0; return true; }
  if(isa<UndefValue>(c)){ v=0; undef=true; return true; }
  if(auto* cf=dyn_cast<ConstantFP>(c)){
    if(c->getType()->isDoubleTy()||c->getType()->isFloatTy()){ v=cf->getValueAPF().bitcastToAPInt().getZExtValue(); return true; }
    return false;
  }
  if(auto* f=dyn_cast<Function>(c)){ v=FUNC_BASE+16ull*fid.at(f); return true; }
  if(auto* g=dyn_cast<GlobalVariable>(c)){ v=gaddr.at(g); return true; }
  if(auto* a=dyn_cast<GlobalAlias>(c)) return evalConst(a->getAliasee(),v,undef);
  if(auto* ce=dyn_cast<ConstantExpr>(c)){
    switch(ce->getOpcode()){
    case Instruction::GetElementPtr:{
      auto* go=cast<GEPOperator>(ce); APInt off(64,0);
      if(!go->accumulateConstantOffset(*DL,off)) return false;
      uint64_t b; bool u; if(!evalConst(cast<Constant>(go->getPointerOperand()),b,u)) return false;
      v=b+off.getSExtValue(); return true; }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
      if(!evalConst(ce->getOperand(0),v,undef)) return false;
      unsigned b=bitsOf(ce->getType()); if(b<64&&b) v&=(1ull<<b)-1; return true; }
    case Instruction::Sub: case Instruction::Add: {
      uint64_t x,y; bool u1,u2; if(!evalConst(ce->getOperand(0),x,u1)||!evalConst(ce->getOperand(1),y,u2)) return false;
      v=ce->getOpcode()==Instruction::Sub?x-y:x+y; unsigned b=bitsOf(ce->getType()); if(b<64&&b) v&=(1ull<<b)-1; return true; }
    case Instruction::Trunc: { if(!evalConst(ce->getOperand(0),v,undef)) return false; unsigned b=bitsOf(ce->getType()); if(b<64) v&=(1ull<<b)-1; return true; }
    }
    return false;
  }
  return false;
}
// flattened constants of possibly aggregate type
static bool constList(const Constant* c, std::vector<int>& out){
  Type* t=c->getType();
  if(scalarOk(t)){
    uint64_t v; bool u; if(!evalConst(c,v,u)) return false;
    out.push_back(u?constId(0,bitsOf(t)):constId(v)); return true;
  }
  int n=flatCount(t); if(n<0) return false;
  if(isa<UndefValue>(c)){ for(int i=0;i<n;++i) out.push_back(constId(0)); return true; }
  if(isa<ConstantAggregateZero>(c)){ for(int i=0;i<n;++i) out.push_back(constId(0)); return true; }
  unsigned m=0;
  if(auto* st=dyn_cast<StructType>(t)) m=st->getNumElements();
  else if(auto* at=dyn_cast<ArrayType>(t)) m=at->getNumElements();
  else if(auto* vt=dyn_cast<FixedVectorType>(t)) m=vt->getNumElements();
  for(unsigned i=0;i<m;++i){ Constant* e=c->getAggregateElement(i); if(!e||!constList(e,out)) return false; }
  return true;
}
static bool operands(const Value* v, std::vector<int>& out){
  if(auto* c=dyn_cast<Constant>(v)) return constList(c,out);
  auto it=regOf.find(v); if(it==regOf.end()) return false;
  int n=flatCount(v->getType()); for(int i=0;i<n;++i) out.push_back(it->second+i);
  return true;
}
struct Unsup { std::string why; };
static int operand(const Value* v){ std::vector<int> o; if(!operands(v,o)||o.size()!=1) throw Unsup{"operand"}; return o[0]; }
static void writeInit(const Constant* c, uint8_t* p){
  Type* t=c->getType();
  if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)) return;
  if(auto* cd=dyn_cast<ConstantDataSequential>(c)){
    uint64_t s=DL->getTypeStoreSize(cd->getElementType());
    for(unsigned i=0;i<cd->getNumElements();++i){
      uint64_t v; if(cd->getElementType()->isIntegerTy()) v=cd->getElementAsInteger(i);
      else v=cd->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue();
      memcpy(p+i*s,&v,s);
    }
    return;
  }
  if(auto* st=dyn_cast<StructType>(t)){
    const StructLayout* sl=DL->getStructLayout(st);
    for(unsigned i=0;i<st->getNumElements();++i) writeInit(c->getAggregateElement(i),p+sl->getElementOffset(i));
    return;
  }
  if(auto* at=dyn_cast<ArrayType>(t)){
    uint64_t s=DL->getTypeAllocSize(at->getElementType());
    for(uint64_t i=0;i<at->getNumElements();++i) writeInit(c->getAggregateElement(i),p+i*s);
    return;
  }
  if(auto* vt=dyn_cast<FixedVectorType>(t)){
    uint64_t s=DL->getTypeStoreSize(vt->getElementType());
    for(uint64_t i=0;i<vt->getNumElements();++i) writeInit(c->getAggregateElement(i),p+i*s);
    return;
  }
  uint64_t v; bool u;
  if(!evalConst(c,v,u)) { fprintf(stderr,"ir2x: unsupported initializer\n"); return; }
  memcpy(p,&v,DL->getTypeStoreSize(t));
}

static std::map<const BasicBlock*,uint32_t> blockPc;
struct Fix { uint32_t edge; const BasicBlock* to; };
static std::vector<Fix> fixes;
static int emit(uint16_t opc,int w=0,int w2=0,int dst=0,int a=0,int b=0,int c=0,int64_t imm=0){
  ops.push_back({opc,(uint8_t)w,(uint8_t)w2,dst,a,b,c,imm}); return ops.size()-1;
}
static uint32_t edge(const BasicBlock* from,const BasicBlock* to){
  Edge e; e.target=0; e.mv=moves.size(); e.nmv=0;
  for(auto& phi: to->phis()){
    std::vector<int> s; const Value* v=phi.getIncomingValueForBlock(from);
    if(!operands(v,s)) throw Unsup{"phi"};
    int d=regOf.at(&phi);
    for(size_t i=0;i<s.size();++i) if(s[i]!=d+(int)i){ moves.push_back({d+(int)i,s[i]}); e.nmv++; }
  }
  edges.push_back(e); fixes.push_back({(uint32_t)edges.size()-1,to}); return edges.size()-1;
}
static void emitCallLike(const CallBase& I);
static void emitIntrinsic(const IntrinsicInst& I){
  int d = I.getType()->isVoidTy()?0:regOf.at(&I);
  auto W=[&](const Value* v){ unsigned b=bitsOf(v->getType()); if(!b||b>64) throw Unsup{"width in "+I.getCalledFunction()->getName().str()}; return b; };
  auto A=[&](unsigned i){ return operand(I.getArgOperand(i)); };
  std::vector<std::pair<uint16_t,Intrinsic::ID>> bins={{O_UMIN,Intrinsic::umin},{O_UMAX,Intrinsic::umax},{O_SMIN,Intrinsic::smin},{O_SMAX,Intrinsic::smax},{O_USUBSAT,Intrinsic::usub_sat},{O_UADDSAT,Intrinsic::uadd_sat},
    {O_UADDO,Intrinsic::uadd_with_overflow},{O_USUBO,Intrinsic::usub_with_overflow},{O_UMULO,Intrinsic::umul_with_overflow},{O_SADDO,Intrinsic::sadd_with_overflow},{O_SSUBO,Intrinsic::ssub_with_overflow},{O_SMULO,Intrinsic::smul_with_overflow}};
  Intrinsic::ID id=I.getIntrinsicID();
  for(auto& b: bins) if(b.second==id){
    if(auto* vt=dyn_cast<FixedVectorType>(I.getArgOperand(0)->getType())){
      std::vector<int> x,y; if(!operands(I.getArgOperand(0),x)||!operands(I.getArgOperand(1),y)) throw Unsup{"vec"};
      if(b.first>=O_UADDO) throw Unsup{"vec overflow"};
      for(size_t i=0;i<x.size();++i) emit(b.first,bitsOf(vt->getElementType()),0,d+i,x[i],y[i]);
      return;
    }
    emit(b.first,W(I.getArgOperand(0)),0,d,A(0),A(1)); return; }
  switch(id){
  case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
  case Intrinsic::assume: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
  case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
  case Intrinsic::prefetch: case Intrinsic::sideeffect: case Intrinsic::var_annotation: case Intrinsic::vastart: case Intrinsic::vaend:
    return;
  case Intrinsic::ctlz: emit(O_CTLZ,W(&I),0,d,A(0)); return;
  case Intrinsic::cttz: emit(O_CTTZ,W(&I),0,d,A(0)); return;
  case Intrinsic::ctpop: emit(O_CTPOP,W(&I),0,d,A(0)); return;
  case Intrinsic::bswap: emit(O_BSWAP,W(&I),0,d,A(0)); return;
  case Intrinsic::bitreverse: emit(O_BITREV,W(&I),0,d,A(0)); return;
  case Intrinsic::abs: emit(O_ABS,W(&I),0,d,A(0)); return;
  case Intrinsic::fshl: emit(O_FSHL,W(&I),0,d,A(0),A(1),A(2)); return;
  case Intrinsic::fshr: emit(O_FSHR,W(&I),0,d,A(0),A(1),A(2)); return;
  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::annotation: case Intrinsic::ssa_copy:
    emit(O_MOV,0,0,d,A(0)); return;
  case Intrinsic::is_constant: emit(O_MOV,0,0,d,constId(0)); return;
  case Intrinsic::objectsize: emit(O_MOV,0,0,d,constId(W(&I)==64?~0ull:0xffffffffu)); return;
  case Intrinsic::memcpy: case Intrinsic::memcpy_inline: emit(O_MEMCPY,0,0,0,A(0),A(1),A(2)); return;
  case Intrinsic::memmove: emit(O_MEMMOVE,0,0,0,A(0),A(1),A(2)); return;
  case Intrinsic::memset: case Intrinsic::memset_inline: emit(O_MEMSET,0,0,0,A(0),A(1),A(2)); return;
  case Intrinsic::stacksave: emit(O_STACKSAVE,0,0,d); return;
  case Intrinsic::stackrestore: emit(O_STACKRESTORE,0,0,0,A(0)); return;
  case Intrinsic::trap: case Intrinsic::ubsantrap: emit(O_UNREACHABLE); return;
  case Intrinsic::fmuladd: case Intrinsic::fma: emit(O_FMULADD,W(&I),0,d,A(0),A(1),A(2)); return;
  case Intrinsic::fabs: emit(O_FUN1,W(&I),0,d,A(0)); return;
  case Intrinsic::floor: emit(O_FUN1,W(&I),1,d,A(0)); return;
  case Intrinsic::ceil: emit(O_FUN1,W(&I),2,d,A(0)); return;
  case Intrinsic::sqrt: emit(O_FUN1,W(&I),3,d,A(0)); return;
  case Intrinsic::log: emit(O_FUN1,W(&I),4,d,A(0)); return;
  case Intrinsic::log2: emit(O_FUN1,W(&I),5,d,A(0)); return;
  case Intrinsic::rint: case Intrinsic::nearbyint: emit(O_FUN1,W(&I),6,d,A(0)); return;
  case Intrinsic::round: emit(O_FUN1,W(&I),7,d,A(0)); return;
  case Intrinsic::trunc: emit(O_FUN1,W(&I),8,d,A(0)); return;
  case Intrinsic::eh_typeid_for: emit(O_MOV,0,0,d,constId(0)); return;
  default: throw Unsup{I.getCalledFunction()->getName().str()};
  }
}
static void emitCallLike(const CallBase& I){
  if(auto* ii=dyn_cast<IntrinsicInst>(&I)){ emitIntrinsic(*ii); return; }
  const Function* f=dyn_cast<Function>(I.getCalledOperand()->stripPointerCasts());
  if(!f) if(auto* ga=dyn_cast<GlobalAlias>(I.getCalledOperand()->stripPointerCasts())) f=dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
  if(isa<InlineAsm>(I.getCalledOperand())){
    auto* ia=cast<InlineAsm>(I.getCalledOperand());
    if(ia->getAsmString().empty()&&I.getType()->isVoidTy()) return;
    throw Unsup{"inline asm"};
  }
  int n=flatCount(I.getType()); if(n<0) throw Unsup{"return type"};
  std::vector<int> al;
  for(unsigned i=0;i<I.arg_size();++i){
    if(I.isByValArgument(i)){
      uint64_t sz=DL->getTypeAllocSize(I.getParamByValType(i)); int r=nextReg++;
      emit(O_BYVAL,4,0,r,operand(I.getArgOperand(i)),0,0,sz); al.push_back(r);
    } else if(!operands(I.getArgOperand(i),al)) throw Unsup{"call arg"};
  }
  int st=args.size(); args.insert(args.end(),al.begin(),al.end());
  int d=n>0?regOf.at(&I):0;
  if(f) emit(O_CALL,0,0,d,fid.at(f),st,al.size(),n);
  else emit(O_CALLI,0,0,d,operand(I.getCalledOperand()),st,al.size(),n);
}
static uint16_t binOpc(unsigned o){
  switch(o){
  case Instruction::Add: return O_ADD; case Instruction::Sub: return O_SUB; case Instruction::Mul: return O_MUL;
  case Instruction::UDiv: return O_UDIV; case Instruction::SDiv: return O_SDIV; case Instruction::URem: return O_UREM; case Instruction::SRem: return O_SREM;
  case Instruction::And: return O_AND; case Instruction::Or: return O_OR; case Instruction::Xor: return O_XOR;
  case Instruction::Shl: return O_SHL; case Instruction::LShr: return O_LSHR; case Instruction::AShr: return O_ASHR;
  case Instruction::FAdd: return O_FADD; case Instruction::FSub: return O_FSUB; case Instruction::FMul: return O_FMUL; case Instruction::FDiv: return O_FDIV; case Instruction::FRem: return O_FREM;
  } return 0;
}
static uint16_t cmpOpc(CmpInst::Predicate p){
  switch(p){
  case CmpInst::ICMP_EQ: return O_EQ; case CmpInst::ICMP_NE: return O_NE; case CmpInst::ICMP_ULT: return O_ULT; case CmpInst::ICMP_ULE: return O_ULE;
  case CmpInst::ICMP_UGT: return O_UGT; case CmpInst::ICMP_UGE: return O_UGE; case CmpInst::ICMP_SLT: return O_SLT; case CmpInst::ICMP_SLE: return O_SLE;
  case CmpInst::ICMP_SGT: return O_SGT; case CmpInst::ICMP_SGE: return O_SGE; default: return 0; }
}
static void emitInst(const Instruction& I){
  int d = -1; { auto it=regOf.find(&I); if(it!=regOf.end()) d=it->second; }
  Type* T=I.getType();
  if(auto* bo=dyn_cast<BinaryOperator>(&I)){
    std::vector<int> a,b; if(!operands(bo->getOperand(0),a)||!operands(bo->getOperand(1),b)) throw Unsup{"binop"};
    unsigned w=bitsOf(T->getScalarType()); if(!w||w>64) throw Unsup{"binop width"};
    for(size_t i=0;i<a.size();++i) emit(binOpc(bo->getOpcode()),w,0,d+i,a[i],b[i]); return; }
  if(auto* ic=dyn_cast<ICmpInst>(&I)){
    std::vector<int> a,b; if(!operands(ic->getOperand(0),a)||!operands(ic->getOperand(1),b)) throw Unsup{"icmp"};
    unsigned w=bitsOf(ic->getOperand(0)->getType()->getScalarType());
    for(size_t i=0;i<a.size();++i) emit(cmpOpc(ic->getPredicate()),w,0,d+i,a[i],b[i]); return; }
  if(auto* fc=dyn_cast<FCmpInst>(&I)){ emit(O_FCMP,bitsOf(fc->getOperand(0)->getType()),fc->getPredicate(),d,operand(fc->getOperand(0)),operand(fc->getOperand(1))); return; }
  if(auto* ci=dyn_cast<CastInst>(&I)){
    std::vector<int> a; if(!operands(ci->getOperand(0),a)) throw Unsup{"cast"};
    unsigned f=bitsOf(ci->getSrcTy()->getScalarType()), t=bitsOf(ci->getDestTy()->getScalarType());
    if(!f||!t||f>64||t>64) throw Unsup{"cast width"};
    uint16_t o=0;
    switch(ci->getOpcode()){
    case Instruction::ZExt: o=O_ZEXT; break; case Instruction::SExt: o=O_SEXT; break; case Instruction::Trunc: o=O_TRUN; break;
    case Instruction::PtrToInt: o=t<64?O_TRUN:O_MOV; break; case Instruction::IntToPtr: o=f<64?O_ZEXT:O_MOV; break;
    case Instruction::BitCast: o=O_MOV; if(ci->getSrcTy()->isVectorTy()!=ci->getDestTy()->isVectorTy()||f!=t) throw Unsup{"vector bitcast"}; break;
    case Instruction::SIToFP: o=O_SITOFP; break; case Instruction::UIToFP: o=O_UITOFP; break;
    case Instruction::FPToSI: o=O_FPTOSI; break; case Instruction::FPToUI: o=O_FPTOUI; break;
    case Instruction::FPExt: o=O_FPEXT; break; case Instruction::FPTrunc: o=O_FPTRUNC; break;
    default: throw Unsup{"cast"}; }
    for(size_t i=0;i<a.size();++i) emit(o,f,t,d+i,a[i]); return; }
  if(auto* si=dyn_cast<SelectInst>(&I)){
    std::vector<int> c,a,b; if(!operands(si->getCondition(),c)||!operands(si->getTrueValue(),a)||!operands(si->getFalseValue(),b)) throw Unsup{"select"};
    std::vector<std::pair<Type*,uint64_t>> tv; flat(T,tv,0);
    for(size_t i=0;i<a.size();++i) emit(O_SELECT,bitsOf(tv[i].first),0,d+i,c.size()>1?c[i]:c[0],a[i],b[i]); return; }
  if(auto* gi=dyn_cast<GetElementPtrInst>(&I)){
    if(T->isVectorTy()) throw Unsup{"vector gep"};
    int cur=operand(gi->getPointerOperand()); int64_t off=0; std::vector<std::pair<const Value*,int64_t>> vs;
    for(auto it=gep_type_begin(gi);it!=gep_type_end(gi);++it){
      const Value* idx=it.getOperand();
      if(StructType* st=it.getStructTypeOrNull()){ off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); }
      else { int64_t sc=DL->getTypeAllocSize(it.getIndexedType());
        if(auto* k=dyn_cast<ConstantInt>(idx)) off+=k->getSExtValue()*sc; else vs.push_back({idx,sc}); }
    }
    for(size_t i=0;i<vs.size();++i){ bool last=i+1==vs.size()&&off==0; int r=last?d:nextReg++;
      emit(O_GEPX,bitsOf(vs[i].first->getType()),0,r,cur,operand(vs[i].first),0,vs[i].second); cur=r; }
    if(off||vs.empty()) emit(O_GEP,64,0,d,cur,0,0,off);
    return; }
  if(auto* li=dyn_cast<LoadInst>(&I)){
    std::vector<std::pair<Type*,uint64_t>> tv; if(!flat(T,tv,0)) throw Unsup{"load type"};
    int p=operand(li->getPointerOperand());
    for(size_t i=0;i<tv.size();++i) emit(O_LOAD,bitsOf(tv[i].first),0,d+i,p,0,0,tv[i].second); return; }
  if(auto* st=dyn_cast<StoreInst>(&I)){
    std::vector<std::pair<Type*,uint64_t>> tv; std::vector<int> v;
    if(!flat(st->getValueOperand()->getType(),tv,0)||!operands(st->getValueOperand(),v)) throw Unsup{"store type"};
    int p=operand(st->getPointerOperand());
    for(size_t i=0;i<tv.size();++i) emit(O_STORE,bitsOf(tv[i].first),0,0,p,v[i],0,tv[i].second); return; }
  if(auto* al=dyn_cast<AllocaInst>(&I)){
    uint64_t sz=DL->getTypeAllocSize(al->getAllocatedType()); int cnt=INT32_MAX;
    if(auto* k=dyn_cast<ConstantInt>(al->getArraySize())) sz*=k->getZExtValue(); else cnt=operand(al->getArraySize());
    emit(O_ALLOCA,Log2(al->getAlign()),0,d,cnt,0,0,sz); return; }
  if(auto* br=dyn_cast<BranchInst>(&I)){
    if(br->isUnconditional()) { emit(O_BR,0,0,0,0,0,edge(br->getParent(),br->getSuccessor(0))); }
    else { int c=operand(br->getCondition()); int e1=edge(br->getParent(),br->getSuccessor(0)), e2=edge(br->getParent(),br->getSuccessor(1)); emit(O_CBR,0,0,0,c,e1,e2); }
    return; }
  if(auto* sw=dyn_cast<SwitchInst>(&I)){
    int c=operand(sw->getCondition()); unsigned w=bitsOf(sw->getCondition()->getType());
    int de=edge(sw->getParent(),sw->getDefaultDest());
    std::vector<Case> cs;
    for(auto& k: sw->cases()){ uint32_t e=edge(sw->getParent(),k.getCaseSuccessor()); cs.push_back({k.getCaseValue()->getZExtValue(),e,0}); }
    int st=cases.size(); cases.insert(cases.end(),cs.begin(),cs.end());
    emit(O_SWITCH,w,0,0,c,de,cs.size(),st); return; }
  if(auto* rt=dyn_cast<ReturnInst>(&I)){
    std::vector<int> v; if(rt->getReturnValue()) if(!operands(rt->getReturnValue(),v)) throw Unsup{"ret"};
    int st=args.size(); args.insert(args.end(),v.begin(),v.end()); emit(O_RET,0,0,0,st,0,v.size()); return; }
  if(isa<UnreachableInst>(&I)){ emit(O_UNREACHABLE); return; }
  if(auto* iv=dyn_cast<InvokeInst>(&I)){ emitCallLike(*iv); emit(O_BR,0,0,0,0,0,edge(iv->getParent(),iv->getNormalDest())); return; }
  if(auto* cb=dyn_cast<CallInst>(&I)){ emitCallLike(*cb); return; }
  if(auto* ev=dyn_cast<ExtractValueInst>(&I)){
    std::vector<int> a; if(!operands(ev->getAggregateOperand(),a)) throw Unsup{"extractvalue"};
    int k=flatIndex(ev->getAggregateOperand()->getType(),ev->getIndices()), n=flatCount(T);
    for(int i=0;i<n;++i) emit(O_MOV,0,0,d+i,a[k+i]); return; }
  if(auto* iv=dyn_cast<InsertValueInst>(&I)){
    std::vector<int> a,b; if(!operands(iv->getAggregateOperand(),a)||!operands(iv->getInsertedValueOperand(),b)) throw Unsup{"insertvalue"};
    int k=flatIndex(T,iv->getIndices());
    for(size_t i=0;i<a.size();++i) emit(O_MOV,0,0,d+i,((int)i>=k&&(int)i<k+(int)b.size())?b[i-k]:a[i]); return; }
  if(auto* ee=dyn_cast<ExtractElementInst>(&I)){
    auto* k=dyn_cast<ConstantInt>(ee->getIndexOperand()); std::vector<int> a;
    if(!k||!operands(ee->getVectorOperand(),a)) throw Unsup{"extractelement"};
    emit(O_MOV,0,0,d,a[k->getZExtValue()]); return; }
  if(auto* ie=dyn_cast<InsertElementInst>(&I)){
    auto* k=dyn_cast<ConstantInt>(ie->getOperand(2)); std::vector<int> a; if(!k||!operands(ie->getOperand(0),a)) throw Unsup{"insertelement"};
    int v=operand(ie->getOperand(1));
    for(size_t i=0;i<a.size();++i) emit(O_MOV,0,0,d+i,i==k->getZExtValue()?v:a[i]); return; }
  if(auto* sv=dyn_cast<ShuffleVectorInst>(&I)){
    std::vector<int> a,b; if(!operands(sv->getOperand(0),a)||!operands(sv->getOperand(1),b)) throw Unsup{"shuffle"};
    a.insert(a.end(),b.begin(),b.end()); auto m=sv->getShuffleMask();
    for(size_t i=0;i<m.size();++i) emit(O_MOV,0,0,d+i,m[i]<0?constId(0):a[m[i]]); return; }
  if(isa<FreezeInst>(&I)){ std::vector<int> a; if(!operands(I.getOperand(0),a)) throw Unsup{"freeze"}; for(size_t i=0;i<a.size();++i) emit(O_MOV,0,0,d+i,a[i]); return; }
  if(I.getOpcode()==Instruction::FNeg){ emit(O_FNEG,bitsOf(T),0,d,operand(I.getOperand(0))); return; }
  if(isa<FenceInst>(&I)) return;
  throw Unsup{std::string(I.getOpcodeName())};
}
static void covFor(const BasicBlock& B){
  std::set<std::tuple<uint32_t,uint32_t,uint32_t>> s;
  for(auto& I: B){
    if(isa<DbgInfoIntrinsic>(&I)) continue;
    const DILocation* dl=I.getDebugLoc().get();
    if(!dl||!dl->getLine()) continue;
    const DISubprogram* sp=dl->getScope()->getSubprogram(); if(!sp) continue;
    std::string f=(dl->getDirectory()+"/"+dl->getFilename()).str(); if(dl->getFilename().starts_with("/")) f=dl->getFilename().str();
    if(f.compare(0,repoPrefix.size(),repoPrefix)) continue;
    std::string nm=sp->getLinkageName().str(); if(nm.empty()) nm=sp->getName().str();
    s.insert({str(nm),str(f.substr(repoPrefix.size())),dl->getLine()});
  }
  if(s.empty()) return;
  Cov c={(uint32_t)poss.size(),(uint32_t)s.size()};
  for(auto& t: s) poss.push_back({std::get<0>(t),std::get<1>(t),std::get<2>(t)});
  covs.push_back(c); emit(O_COV,0,0,0,0,0,0,covs.size()-1);
}
int main(int argc,char** argv){
  if(argc<4){ fprintf(stderr,"usage: ir2x in.bc out.xir repo-prefix\n"); return 2; }
  repoPrefix=argv[3];
  LLVMContext C; auto mb=MemoryBuffer::getFile(argv[1]); if(!mb){ fprintf(stderr,"cannot read\n"); return 2; }
  auto me=parseBitcodeFile(mb.get()->getMemBufferRef(),C); if(!me){ fprintf(stderr,"bad bitcode\n"); return 2; }
  std::unique_ptr<Module> M=std::move(*me); DL=&M->getDataLayout();
  { std::vector<Instruction*> at; for(auto& F: *M) for(auto& B: F) for(auto& I: B) if(isa<AtomicRMWInst>(I)||isa<AtomicCmpXchgInst>(I)) at.push_back(&I); // one thread: plain loads and stores
    for(auto* I: at){ if(auto* R=dyn_cast<AtomicRMWInst>(I)) lowerAtomicRMWInst(R); else lowerAtomicCmpXchgInst(cast<AtomicCmpXchgInst>(I)); } }
  str("");
  for(auto& F: *M){ fid[&F]=funcs.size(); funcs.push_back({str(F.getName().str()),0,0,0,0,0}); }
  uint64_t at=GLOBAL_BASE+4096;
  for(auto& G: M->globals()){
    if(G.getName().starts_with("llvm.")) { gaddr[&G]=0; continue; }
    uint64_t sz = G.hasInitializer()?(uint64_t)DL->getTypeAllocSize(G.getValueType()):4096;
    uint64_t al=std::max<uint64_t>(16,G.getAlign().valueOrOne().value()); at=(at+al-1)/al*al; gaddr[&G]=at; at+=sz+64;
  }
  if(at>GLOBAL_BASE+GLOBAL_SIZE){ fprintf(stderr,"globals too big\n"); return 2; }
  for(auto& G: M->globals()){
    if(G.getName().starts_with("llvm.")) continue;
    Glob g; g.addr=gaddr[&G]; g.name=str(G.getName().str()); g.flags=G.isConstant()?1:0;
    if(G.hasInitializer()){
      g.size=DL->getTypeAllocSize(G.getValueType()); g.img=image.size(); image.resize(image.size()+g.size); writeInit(G.getInitializer(),&image[g.img]);
    } else { g.size=4096; g.img=image.size(); image.resize(image.size()+4096); g.flags|=2; }
    globs.push_back(g);
  }
  if(auto* gc=M->getGlobalVariable("llvm.global_ctors")) if(auto* ca=dyn_cast<ConstantArray>(gc->getInitializer())){
    std::vector<std::pair<uint64_t,uint32_t>> v;
    for(auto& o: ca->operands()){ auto* cs=cast<ConstantStruct>(o); if(auto* f=dyn_cast<Function>(cs->getOperand(1))) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),fid[f]}); }
    std::stable_sort(v.begin(),v.end(),[](auto&a,auto&b){return a.first<b.first;});
    for(auto& x: v) ctors.push_back(x.second);
  }
  for(auto& F: *M){
    Func& fn=funcs[fid[&F]];
    if(F.isDeclaration()) continue;
    regOf.clear(); blockPc.clear(); fixes.clear(); nextReg=0;
    for(auto& A: F.args()){ int n=flatCount(A.getType()); regOf[&A]=nextReg; nextReg+=n<0?1:n; }
    fn.nparams=nextReg; int rc=flatCount(F.getReturnType()); fn.nret=rc<0?0:rc;
    for(auto& B: F) for(auto& I: B){ if(I.getType()->isVoidTy()) continue; int n=flatCount(I.getType()); regOf[&I]=nextReg; nextReg+=n<0?1:n; }
    fn.start=ops.size();
    for(auto& B: F){
      blockPc[&B]=ops.size();
      if(B.isLandingPad()){ emit(O_UNSUPPORTED,0,0,0,0,0,0,str("landing pad reached")); continue; }
      covFor(B);
      for(auto& I: B){
        if(isa<PHINode>(&I)) continue;
        try { emitInst(I); }
        catch(Unsup& u){ std::string s; raw_string_ostream os(s); I.print(os); emit(O_UNSUPPORTED,0,0,0,0,0,0,str(u.why+": "+s+" in "+F.getName().str())); if(I.isTerminator()) break; }
      }
    }
    for(auto& f: fixes) edges[f.edge].target=blockPc[f.to];
    fn.nops=ops.size()-fn.start; fn.nregs=nextReg;
  }
  Header H; memset(&H,0,sizeof H); H.magic=MAGIC; uint64_t off=sizeof H;
  FILE* o=fopen(argv[2],"wb"); if(!o) return 2;
  fseek(o,off,SEEK_SET);
  auto wr=[&](const void* p,size_t es,size_t n,Section& s){ while(off%16){ fputc(0,o); ++off; } s.off=off; s.n=n; fwrite(p,es,n,o); off+=es*n; };
  wr(ops.data(),sizeof(Op),ops.size(),H.ops); wr(edges.data(),sizeof(Edge),edges.size(),H.edges); wr(moves.data(),sizeof(Move),moves.size(),H.moves);
  wr(cases.data(),sizeof(Case),cases.size(),H.cases); wr(consts.data(),sizeof(xir::Const),consts.size(),H.consts); wr(funcs.data(),sizeof(Func),funcs.size(),H.funcs);
  wr(globs.data(),sizeof(Glob),globs.size(),H.globs); wr(image.data(),1,image.size(),H.image); wr(args.data(),4,args.size(),H.args); wr(strs.data(),1,strs.size(),H.strs);
  wr(covs.data(),sizeof(Cov),covs.size(),H.covs); wr(poss.data(),sizeof(Pos),poss.size(),H.poss); wr(ctors.data(),4,ctors.size(),H.ctors);
  fseek(o,0,SEEK_SET); fwrite(&H,sizeof H,1,o); fclose(o);
  return 0;
}
