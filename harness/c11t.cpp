// Replacement tables of PairReplacer applied to arbitrary short texts.
#include "sym.h"
#include "pretexts.h"
#include "preprocessors/PairReplacer.hpp"
#include "preprocessors/Postprocessor.hpp"
#include "preprocessors/Grammar.hpp"
#include <memory>
using namespace bwtc;
// in place and into another array: the same replaced version of every text that does not get longer
extern "C" void h_pre_both(){
  static const int KINDS[]={1,5,4,7}; Str t; training(t,KINDS[sym_choice("text",sym_param("texts",1))]); Grammar g; std::unique_ptr<PairReplacer> pr(new PairReplacer(g,false)); pr->analyseData(&t[0],t.size()); pr->finishAnalysation(); size_t k=pr->decideReplacements(); sym_assert(k>0,"the training text has pairs worth replacing");
  // letters: the two of the last new rule, its variable (if freed), another symbol, a special symbol
  Grammar::Rule q=g.getRule(g.numberOfRules()-1); byte tab0[8]; size_t nl=0; bool seen[256]; for(int i=0;i<256;++i) seen[i]=false; byte cand[4+256]; size_t nc=0; cand[nc++]=q.begin()[0]; cand[nc++]=q.begin()[1]; cand[nc++]=(byte)q.variable(); cand[nc++]='z'; for(int i=0;i<256;++i) if(g.isSpecial((byte)i)) cand[nc++]=(byte)i; cand[nc++]=0; cand[nc++]=255; for(size_t i=0;i<nc&&nl<8;++i) if(!seen[cand[i]]){ seen[cand[i]]=true; tab0[nl++]=cand[i]; }
  volatile byte tab[8]; size_t use=sym_param("k",4); for(size_t i=0;i<8;++i) tab[i]=tab0[i%nl]; int bits=use<=2?1:use<=4?2:3; size_t n=sym_param("lo",2)+sym_choice("n",sym_param("n",6)); Str s; for(size_t i=0;i<n;++i){ uint64_t v=sym_u("letter",bits); if(use&(use-1)) sym_assume(v<use); byte b=tab[v]; s.push_back(b); }
  Str o(2*n+8,0xA5); size_t m=pr->writeReplacedVersion(&s[0],n,&o[0]); if(m>n){ sym_reach("longer"); return; } Str in(s); in.insert(in.end(),4,0x5A); size_t w=pr->writeReplacedVersion(&in[0],n); sym_assert(w==m,"the replaced version has the same length in place"); bool ok=true; for(size_t i=0;i<m;++i) ok&=in[i]==o[i]; sym_assert(ok,"the replaced version is the same in place"); bool pad=true; for(size_t i=n;i<in.size();++i) pad&=in[i]==0x5A; sym_assert(pad,"nothing is written behind the block"); sym_reach("end");
}
// the replacement table made from a training text is applied to an arbitrary short text
extern "C" void h_pre_table(){
  Str t; int kind=(int)(sym_param("first",0)+sym_choice("text",sym_param("texts",8))); training(t,kind); Grammar g; size_t rounds=sym_param("rounds",1);
  for(size_t r=0;;++r){ Grammar old(g); std::unique_ptr<PairReplacer> pr(new PairReplacer(g,false)); pr->analyseData(&t[0],t.size()); pr->finishAnalysation(); size_t k=pr->decideReplacements(); if(k==0){ sym_reach("nothing left to replace"); return; }
    if(r+1<rounds){ Str o(t.size()+8); size_t n=pr->writeReplacedVersion(&t[0],t.size(),&o[0]); o.resize(n); t=o; continue; }
    Postprocessor post(false,g),before(false,old); std::vector<byte> letters; bool can[256]; for(int i=0;i<256;++i) can[i]=false; for(size_t i=0;i<t.size();++i) if(!old.isSpecial(t[i])) can[t[i]]=true;
    // letters: sides of the new rules, special symbols, freed symbols, and a few others
    size_t nr=g.numberOfRules(); struct Add { static void to(std::vector<byte>& l,byte b,const bool* can){ if(!can[b]) return; for(size_t i=0;i<l.size();++i) if(l[i]==b) return; if(l.size()<8) l.push_back(b); } };
    for(size_t i=nr-std::min<size_t>(k,2);i<nr;++i){ Grammar::Rule q=g.getRule(i); for(size_t j=0;j<q.length();++j) if(!g.isSpecial(q.begin()[j])) Add::to(letters,q.begin()[j],can); if(!q.isLarge()) Add::to(letters,(byte)q.variable(),can); }
    for(int i=0;i<256;++i) if(g.isSpecial((byte)i)&&letters.size()<6) Add::to(letters,(byte)i,can); Add::to(letters,0,can); Add::to(letters,255,can); for(int i=0;i<256;++i) Add::to(letters,(byte)i,can);
    size_t n=2+sym_choice("n",sym_param("n",3)); volatile byte tab[8]; for(int i=0;i<8;++i) tab[i]=letters[(size_t)i%letters.size()]; Str s; for(size_t i=0;i<n;++i){ uint64_t v=sym_u("letter",3); byte b=tab[v]; s.push_back(b); }
    Str o(2*n+8,0xA5); size_t m=pr->writeReplacedVersion(&s[0],n,&o[0]); sym_assert(m>0&&m<=2*n,"length of the replaced version"); for(size_t i=m;i<o.size();++i) sym_assert(o[i]==0xA5,"nothing is written behind the replaced version");
    MemOut back,want; size_t w=post.uncompress(&o[0],m,&back); before.uncompress(&s[0],n,&want); sym_assert(w==back.d.size()&&w==want.d.size(),"the replaced version stands for a text of the same length"); bool ok=true; for(size_t i=0;i<w;++i) ok&=back.d[i]==want.d[i]; sym_assert(ok,"the replaced version stands for the same text");
    sym_reach("end"); return; }
}
