// Probability models: histories of coded bits are symbolic.
#include "sym.h"
#include "probmodels/ProbabilityModel.hpp"
#include <memory>
using namespace bwtc;
namespace {
ProbabilityModel* make(int i){ switch(i){ case 0: return giveProbabilityModel('B'); case 1: return giveProbabilityModel('b'); case 2: return giveProbabilityModel('u'); case 3: return giveModelForIntegerCodes(); case 4: return giveModelForGaps(); case 5: return giveProbabilityModel('m'); case 6: return giveProbabilityModel('M'); default: return giveProbabilityModel('n'); } }
struct Step { int op; bool bit; };                        // 0 update, 1 updateState, 2 resetModel
void apply(ProbabilityModel* m,const Step& s){ if(s.op==0) m->update(s.bit); else if(s.op==1) m->updateState(s.bit); else m->resetModel(); }
void drive(int kind,const std::vector<Step>& s){
  std::vector<Probability> p(s.size()+1);
  { std::unique_ptr<ProbabilityModel> a(make(kind)); for(size_t i=0;i<=s.size();++i){ p[i]=a->probabilityOfOne(); sym_assert(p[i]<=kProbabilityScale,"estimate is within the legal range"); sym_assert(a->probabilityOfOne()==p[i],"asking twice gives the same estimate"); if(i<s.size()) apply(a.get(),s[i]); } }
  // a second object, living next to a third one with the opposite history
  std::unique_ptr<ProbabilityModel> c(make(kind)),b(make(kind)); bool ok=true;
  for(size_t i=0;i<=s.size();++i){ ok&=b->probabilityOfOne()==p[i]; if(i<s.size()){ Step t=s[i]; apply(b.get(),t); t.bit=!t.bit; if(t.op==2) t.op=0; apply(c.get(),t); c->probabilityOfOne(); } }
  sym_assert(ok,"two models with the same history give the same estimates");
}
}
// every history of k bits
extern "C" void h_model_bits(){
  int kind=(int)sym_param("first",0)+(int)sym_choice("model",sym_param("models",5)); size_t k=sym_param("k",6); std::vector<Step> s;
  for(size_t i=0;i<k;++i){ Step t; t.op=(int)sym_choice("op",i+1==k?1:sym_param("ops",1)); t.bit=sym_u("bit",1); s.push_back(t); }
  drive(kind,s); sym_reach("end");
}
// long runs that drive the estimates to their ends, with symbolic bits before and after
extern "C" void h_model_runs(){
  static const size_t R[]={400,3,40,16,8,1}; int kind=(int)sym_param("first",0)+(int)sym_choice("model",sym_param("models",5)); std::vector<Step> s; Step t;
  for(size_t j=0;j<(size_t)sym_param("parts",2);++j){
    bool b=sym_choice("run",2); size_t r=R[sym_choice("len",sym_param("lens",6))]; int op=(int)sym_choice("op",3); size_t alt=sym_choice("alternating",2);
    for(size_t i=0;i<r;++i){ t.op=0; t.bit=alt?(b^(i&1)):b; s.push_back(t); } if(op){ t.op=op; t.bit=b; s.push_back(t); }
    for(size_t i=0;i<(size_t)sym_param("k",2);++i){ t.op=0; t.bit=sym_u("bit",1); s.push_back(t); }
  }
  drive(kind,s); sym_reach("end");
}
