// Precompression and postprocessing.
#include "sym.h"
#include "pretexts.h"
#include "PrecompressorBlock.hpp"
#include "preprocessors/Precompressor.hpp"
#include "preprocessors/Postprocessor.hpp"
#include "preprocessors/Grammar.hpp"
#include <memory>
using namespace bwtc;
namespace {
static const char* OPTS[]={"p","pp","ppp","","pppppp"};
void roundTrip(const Str& t,const char* opt,bool header){
  MemIn in(t); Precompressor pre(opt); std::unique_ptr<PrecompressorBlock> b(pre.readBlock(t.size()+5,&in));
  sym_assert(b->originalSize()==t.size(),"original size is kept"); sym_assert(b->size()<=t.size()&&b->size()>0,"precompression never makes the block longer");
  Grammar copy; { MemOut g; b->grammar().writeGrammar(&g); MemIn gi(g.d); copy.readGrammar(&gi); }
  for(int pass=0;pass<(header?3:2);++pass){ MemOut o; o.d.reserve(t.size()+16); size_t n;
    if(pass==2){ MemOut f; size_t w=b->writeBlockHeader(&f,PRECOMP_COMPRESSED_SIZE); sym_assert(w==f.d.size(),"reported size of the header"); f.writeBlock(b->begin(),b->end()); MemIn fi(f.d); std::unique_ptr<PrecompressorBlock> c(PrecompressorBlock::readBlockHeader(&fi,PRECOMP_COMPRESSED_SIZE)); sym_assert(c->size()==b->size(),"stored block size"); sym_assert(fi.pos==f.d.size(),"the whole block is read"); Postprocessor p(false,c->grammar()); n=p.uncompress(c->begin(),c->size(),&o); }
    else { Postprocessor p(false,pass?copy:b->grammar()); n=p.uncompress(b->begin(),b->size(),&o); }
    sym_assert(n==t.size()&&o.d.size()==t.size(),"postprocessing restores the length"); for(size_t i=0;i<t.size();++i) if(o.d[i]!=t[i]) sym_assert(false,"postprocessing restores the block");
  }
}
}
// short blocks, every content over k letters
extern "C" void h_pre_small(){
  size_t n=sym_param("lo",1)+sym_choice("n",sym_param("n",4)); Str t; for(size_t i=0;i<n;++i) t.push_back((byte)sym_concretize(symLetter(sym_param("k",2),sym_choice("alph",1)))); const char* opt=OPTS[sym_choice("options",sym_param("opts",2))]; roundTrip(t,opt,true); sym_reach("end");
}
// training texts, with free bytes at the end (and in front)
extern "C" void h_pre_texts(){
  Str t; int kind=(int)(sym_param("first",0)+sym_choice("text",sym_param("texts",16))); training(t,kind); size_t tail=sym_param("tail",1); static const byte L[]={'a',0,'b',255,7,'x',1,'d'};
  for(size_t i=0;i<tail;++i) t.push_back(L[sym_choice("tail",sym_param("letters",4))]); if(sym_choice("drop",sym_param("drops",1))) t.erase(t.begin());
  const char* opt=OPTS[sym_choice("options",sym_param("opts",3))]; roundTrip(t,opt,true); sym_reach("end");
}
// symbols that get longer stand together where the in-place version's buffer fills up
extern "C" void h_pre_inplace(){
  static const size_t R[]={1600,1300,2600}; size_t rep=R[sym_choice("pairs",sym_param("sizes",1))],len=2*rep+4600; long shift=(long)sym_choice("shift",sym_param("shifts",6)); int where=(int)sym_choice("where",sym_param("wheres",3)); int k=3; Str t; struct F { static void up(Str& t,size_t n,int& k){ while(t.size()<n){ if(k==256) k=3; t.push_back((byte)k++); } } };
  size_t at=(where==0?len/3-40:where==1?len/3-20:2*(len/3)-60)+(size_t)shift; bool early=where==2; if(early) for(size_t i=0;i<rep/2;++i){ t.push_back('a'); t.push_back('b'); } F::up(t,at,k); for(int i=0;i<12;++i){ t.push_back(0); t.push_back(1); t.push_back(2); } F::up(t,len-2*(early?rep-rep/2:rep),k); for(size_t i=0;i<(early?rep-rep/2:rep);++i){ t.push_back('a'); t.push_back('b'); }
  if(sym_param("tail",0)) t.push_back((byte)sym_choice("tail",3)); roundTrip(t,OPTS[sym_choice("options",sym_param("opts",1))],false); sym_reach("end");
}
// long texts like the ones the programs are used for, many rounds
extern "C" void h_pre_large(){
  Str t; int kind=(int)sym_choice("kind",sym_param("kinds",5)); size_t len=sym_param("len",60000); Lcg r(kind+1); std::vector<Str> words(64); for(size_t i=0;i<words.size();++i){ size_t n=1+r()%7; for(size_t j=0;j<n;++j) words[i].push_back(kind==4?(byte)(r()%3==0?0:r()%3==0?255:r()%9):(byte)('a'+r()%(2+r()%24))); }
  if(kind==1||kind==4) all(t,40,1);
  while(t.size()<len){
    if(kind==2){ size_t i=t.size()/8; t.push_back((byte)i); t.push_back((byte)(i>>8)); t.push_back((byte)(i>>16)); t.push_back(0); t.push_back((byte)(r()%3)); t.push_back(0); t.push_back((byte)(r()%200)); t.push_back(255); }
    else if(kind==3) t.push_back("ACGT"[(r()>>7)%4]);
    else { const Str& w=words[(r()%8)*(r()%9)%64]; t.insert(t.end(),w.begin(),w.end()); t.push_back(kind==4?(byte)0:(byte)(r()%12==0?'\n':' ')); if(kind==1&&r()%40==0) t.push_back((byte)r()); }
  }
  static const byte L[]={'a',0,255,' '}; t.push_back(L[sym_choice("tail",sym_param("tails",2))]); size_t rounds=1+sym_choice("rounds",sym_param("rounds",9)); roundTrip(t,std::string(rounds,'p').c_str(),true); sym_reach("end");
}
