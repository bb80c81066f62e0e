// Grammar: rounds of rules and alphabet expansions as PairReplacer makes them, written and read back.
#include "sym.h"
#include "preprocessors/Grammar.hpp"
#include "preprocessors/Postprocessor.hpp"
#include <memory>
#include <map>
using namespace bwtc;
namespace {
typedef std::vector<byte> Str;
// what every token (byte, or special pair | 1<<16) of the current text stands for
struct Model { std::map<int,Str> mean; std::vector<byte> specials; std::vector<byte> vars; bool isSpecial[256]; size_t pairs; Model():pairs(0){ for(int i=0;i<256;++i){ mean[i]=Str(1,(byte)i); isSpecial[i]=false; } } };
struct Round { std::vector<byte> freed, free, specials; std::vector<std::pair<byte,byte> > rhs; };
}
namespace {
size_t needed(size_t s,size_t used,size_t nf){ size_t n=0; for(size_t i=0;i<nf;){ if(s*s==used){ ++s; ++n; ++used; } else { ++used; ++i; } } return n; }
void apply(Grammar& g,Model& m,const Round& r){
  g.beginUpdatingRules(); size_t k=0; std::vector<byte> repl(r.freed); repl.insert(repl.end(),r.free.begin(),r.free.end());
  for(size_t i=0;i<repl.size();++i,++k) g.addRule(repl[i],r.rhs[k].first,r.rhs[k].second);
  std::vector<uint16> next; g.expandAlphabet(r.freed,r.specials,next); g.endUpdatingRules(repl);
  sym_assert(next.size()==r.freed.size(),"every freed symbol gets a special pair");
  std::vector<Str> fresh; for(size_t i=0;i<repl.size();++i){ Str s=m.mean[r.rhs[i].first]; const Str& t=m.mean[r.rhs[i].second]; s.insert(s.end(),t.begin(),t.end()); fresh.push_back(s); }
  for(size_t i=0;i<r.specials.size();++i){ byte s=r.specials[i]; m.isSpecial[s]=true; int key=(1<<16)|(s<<8)|s; sym_assert(m.mean.find(key)==m.mean.end(),"special pairs are given once"); m.mean[key]=m.mean[s]; m.mean.erase(s); m.specials.push_back(s); }
  for(size_t i=0;i<r.freed.size();++i){ int key=(1<<16)|next[i]; sym_assert(m.isSpecial[next[i]>>8]&&m.isSpecial[next[i]&255],"special pairs are made of special symbols"); sym_assert(m.mean.find(key)==m.mean.end(),"special pairs are given once"); m.mean[key]=m.mean[r.freed[i]]; }
  for(size_t i=0;i<repl.size();++i){ m.mean[repl[i]]=fresh[i]; m.vars.push_back(repl[i]); }
  m.pairs+=r.specials.size()+r.freed.size();
}
void same(const Grammar& a,const Grammar& b){
  sym_assert(a.numberOfRules()==b.numberOfRules()&&a.numOfRules()==b.numOfRules(),"number of rules"); sym_assert(a.numberOfSpecialSymbols()==b.numberOfSpecialSymbols(),"number of special symbols");
  for(size_t i=0;i<a.numberOfRules();++i){ Grammar::Rule x=a.getRule(i),y=b.getRule(i); sym_assert(x.variable()==y.variable()&&x.isLarge()==y.isLarge(),"left side of the rule"); sym_assert(x.length()==y.length(),"length of the right side"); for(size_t j=0;j<x.length();++j) sym_assert(x.begin()[j]==y.begin()[j],"right side of the rule"); }
  for(int i=0;i<256;++i) sym_assert(a.isSpecial((byte)i)==b.isSpecial((byte)i),"special symbols");
  if(a.numberOfRules()){ std::vector<std::pair<uint16,byte> > f,h; a.freedSymbols(f); b.freedSymbols(h); std::map<uint16,byte> x(f.begin(),f.end()),y(h.begin(),h.end()); sym_assert(f.size()==x.size()&&x==y,"freed symbols"); sym_assert(a.numberOfFreedSymbols()==b.numberOfFreedSymbols(),"number of freed symbols"); }
}
void roundTrip(const Grammar& g,Grammar& h){
  MemOut o; uint32 n=g.writeGrammar(&o); sym_assert(n==o.d.size(),"reported size equals the bytes written"); size_t len=o.d.size(); o.d.push_back(0xEE); o.d.push_back(0x77);
  MemIn in(o.d); h.readGrammar(&in); sym_assert(in.pos==len&&in.bits==0,"reading stops at the end of the grammar"); same(g,h);
}
void expand(const Grammar& g,const Model& m){
  Postprocessor p(false,g);
  for(std::map<int,Str>::const_iterator it=m.mean.begin();it!=m.mean.end();++it){ byte t[3]; size_t n=1; if(it->first>>16){ t[0]=(byte)(it->first>>8); t[1]=(byte)it->first; n=2; } else t[0]=(byte)it->first; t[n]=0;
    MemOut o; size_t r=p.uncompress(t,n,&o); sym_assert(r==o.d.size()&&o.d==it->second,"symbols expand to the replaced strings"); }
}
byte perm(int kind,int i){ return (byte)(kind==0?i:kind==1?255-i:i*7+3); }
}
// every number of freed and free symbols per round, reuse of variables as freed symbols and as specials
extern "C" void h_grammar(){
  Grammar g; Model m; int kind=(int)sym_choice("order",sym_param("orders",3)); size_t rounds=sym_param("rounds",2),F=sym_param("freed",4),E=sym_param("free",3); int low=0,high=0; size_t reuse=0;
  for(size_t r=0;r<rounds;++r){ Round q; size_t nf=sym_choice("freed",F+1),ne=sym_choice("free",E); if(nf+ne==0) continue;
    size_t ns=needed(m.specials.size(),m.pairs,nf); size_t old=r?sym_choice("again",3):0; if(old==0) reuse=m.vars.size(); 
    for(size_t i=0;i<ns;++i){ if(old==2&&reuse<m.vars.size()) q.specials.push_back(m.vars[reuse++]); else q.specials.push_back(perm(kind,low++)); }
    for(size_t i=0;i<nf;++i){ if(old&&reuse<m.vars.size()) q.freed.push_back(m.vars[reuse++]); else q.freed.push_back(perm(kind,low++)); }
    for(size_t i=0;i<ne;++i) q.free.push_back(perm(kind,100+high++));
    // right sides: common symbols, symbols that later rounds free, variables of earlier rounds
    for(size_t i=0;i<nf+ne;++i){ byte c=perm(kind,200+(int)i),d=perm(kind,(i&1)?low+(int)i:220); size_t w=i==0?sym_choice("rhs",3):0; if(w==1&&reuse<m.vars.size()) c=m.vars[reuse]; if(w==2) d=c; if(m.isSpecial[d]) d=c; q.rhs.push_back(std::make_pair(c,d)); }
    apply(g,m,q);
  }
  Grammar h; roundTrip(g,h); if(sym_param("expand",1)){ expand(g,m); expand(h,m); } sym_reach("end");
}
// right sides are arbitrary bytes
extern "C" void h_grammar_rhs(){
  Grammar g; size_t n=sym_choice("rules",sym_param("rules",9)); g.beginUpdatingRules(); std::vector<byte> v; for(size_t i=0;i<n;++i){ byte a=sym_byte("first"),b=sym_byte("second"); g.addRule((byte)(7*i),a,b); v.push_back((byte)(7*i)); } g.endUpdatingRules(v);
  Grammar h; roundTrip(g,h); sym_reach("end");
}
// large grammars: counts around the boundaries of the packed integers and bytes
extern "C" void h_grammar_big(){
  static const int FR[]={0,1,2,6,7,12,100,127,200,230}, FE[]={0,1,3,4,120,127,128,200}; Grammar g; Model m; size_t rounds=1+sym_choice("rounds",sym_param("rounds",2)); int kind=(int)sym_choice("order",sym_param("orders",2)); int low=0,high=0;
  for(size_t r=0;r<rounds;++r){ Round q; int nf=FR[sym_choice("freed",sym_param("nfreed",10))],ne=FE[sym_choice("free",sym_param("nfree",8))]; size_t ns=needed(m.specials.size(),m.pairs,nf); if(low+(int)ns+nf+ne+high>252) sym_assume(false); std::vector<byte> prev(m.vars); size_t u=0;
    for(size_t i=0;i<ns;++i) q.specials.push_back(perm(kind,low++)); for(int i=0;i<nf;++i){ if(r&&u<prev.size()) q.freed.push_back(prev[u++]); else q.freed.push_back(perm(kind,low++)); } for(int i=0;i<ne;++i) q.free.push_back(perm(kind,252-high++));
    for(int i=0;i<nf+ne;++i) q.rhs.push_back(std::make_pair(perm(kind,253+i%3),perm(kind,253+(i/3)%3))); apply(g,m,q); }
  Grammar h; roundTrip(g,h); expand(h,m); sym_reach("end");
}

static byte anySym(const char* n){ int bits=(int)sym_param("bits",8); uint64_t v=sym_u(n,bits); return (byte)(bits==8?v:bits==4?(v<<4)|v:(v<<5)|(v<<2)|(v>>1)); }
// all symbols symbolic: which bytes become specials, freed symbols, variables and right sides is left open
extern "C" void h_grammar_sym(){
  Grammar g; size_t rounds=sym_param("rounds",1),F=sym_param("freed",2),E=sym_param("free",2); std::vector<byte> used,vars,spec; size_t pairs=0;
  for(size_t r=0;r<rounds;++r){ size_t nf=sym_choice("freed",F+1),ne=sym_choice("free",E); if(nf+ne==0) continue; size_t ns=needed(spec.size(),pairs,nf); size_t old=r?sym_choice("again",3):0,u=0; std::vector<byte> sp,fr,re,prev(vars);
    struct Pick { static byte fresh(std::vector<byte>& used){ byte b=anySym("symbol"); for(size_t i=0;i<used.size();++i) sym_assume(b!=used[i]); used.push_back(b); return b; } };
    for(size_t i=0;i<ns;++i) sp.push_back(old==2&&u<prev.size()?prev[u++]:Pick::fresh(used));
    for(size_t i=0;i<nf;++i) fr.push_back(old&&u<prev.size()?prev[u++]:Pick::fresh(used));
    re=fr; for(size_t i=0;i<ne;++i) re.push_back(Pick::fresh(used));
    g.beginUpdatingRules(); for(size_t i=0;i<re.size();++i){ byte a=anySym("first"),b=anySym("second"); for(size_t j=0;j<sp.size();++j) sym_assume(a!=sp[j]&&b!=sp[j]); for(size_t j=0;j<spec.size();++j) sym_assume(a!=spec[j]&&b!=spec[j]); for(size_t j=0;j<re.size();++j) sym_assume(a!=re[j]&&b!=re[j]); g.addRule(re[i],a,b); }
    std::vector<uint16> next; g.expandAlphabet(fr,sp,next); g.endUpdatingRules(re); spec.insert(spec.end(),sp.begin(),sp.end()); pairs+=ns+nf; vars.insert(vars.end(),re.begin(),re.end());
    sym_assert(next.size()==fr.size(),"every freed symbol gets a special pair"); for(size_t i=0;i<next.size();++i){ bool x=false,y=false; for(size_t j=0;j<spec.size();++j){ x|=(next[i]>>8)==spec[j]; y|=(next[i]&255)==spec[j]; } sym_assert(x&&y&&(next[i]>>8)!=(next[i]&255),"special pairs are made of special symbols"); for(size_t j=0;j<i;++j) sym_assert(next[i]!=next[j],"special pairs are given once"); }
  }
  Grammar h; roundTrip(g,h); sym_reach("end");
}
