// Entropy coders: one or several blocks through one encoder and one decoder object.
#include "sym.h"
#include "BWTBlock.hpp"
#include "HuffmanCoders.hpp"
#include "WaveletCoders.hpp"
#include "EntropyCoders.hpp"
#include "bwtransforms/BWTManager.hpp"
#include "bwtransforms/InverseBWT.hpp"
#include "texts.h"
#include <memory>
using namespace bwtc;
namespace {
static const char CODERS[]={'H','B','b','u','m','M','n'};
struct Blk { std::vector<byte> data; std::vector<uint32> lf; size_t end; };
const size_t PAD=8;
// encode: already transformed data with given starting points, written the way transformAndEncode does
template<class E> void put(E& e,Blk& b,MemOut& o);
bool oneSection=false;
void fill(const Blk& b,std::vector<uint32>& stats){ stats.assign(256,0); if(oneSection){ stats[0]=(uint32)b.data.size(); return; } for(size_t i=0;i<b.data.size();++i) ++stats[b.data[i]]; }
template<> void put(HuffmanEncoder& e,Blk& b,MemOut& o){ std::vector<uint32> s; fill(b,s); BWTBlock k(&b.data[0],(uint32)b.data.size(),true); k.LFpowers()=b.lf; e.writeBlockHeader(k,s,&o); e.encodeData(&b.data[0],s,(uint32)b.data.size(),&o); e.finishBlock(&o); }
template<> void put(WaveletEncoder& e,Blk& b,MemOut& o){ std::vector<uint32> s; fill(b,s); BWTBlock k(&b.data[0],(uint32)b.data.size(),true); k.LFpowers()=b.lf; e.writeBlockHeader(k,s,&o);  e.encodeData(&b.data[0],s,&o); e.finishBlock(&o); }
void attach(HuffmanEncoder&,MemOut&){}
// the wavelet encoder's bit sink is attached by transformAndEncode only: begin with a one-byte block
void attach(WaveletEncoder& e,MemOut& o){ byte one[2]={65,0}; BWTBlock k(one,1,false); BWTManager m; m.initialize('d'); e.transformAndEncode(k,m,&o); }
void checkField(const MemOut& o,size_t at){ uint64 v=0; for(int i=0;i<6;++i) v=(v<<8)|o.d[at+i]; sym_assert(v==o.d.size()-at-6,"stored length equals the bytes that follow"); }
template<class E> void encodeAll(E& e,std::vector<Blk>& b,MemOut& o,size_t& skip){ attach(e,o); skip=o.d.size(); for(size_t i=0;i<b.size();++i){ size_t at=o.d.size(); put(e,b[i],o); b[i].end=o.d.size(); checkField(o,at); } }
void decodeAll(char c,std::vector<Blk>& b,MemOut& o,size_t skip){
  o.d.push_back(0); MemIn in(o.d); std::unique_ptr<EntropyDecoder> d(giveEntropyDecoder(c));
  if(skip){ byte one[2]={0,0}; BWTBlock k; k.setBegin(one); d->decodeBlock(k,&in); sym_assert(k.size()==1&&one[0]==65&&in.pos==skip,"one-byte block"); }
  for(size_t i=0;i<b.size();++i){ size_t n=b[i].data.size(); std::vector<byte> to(n+1+2*PAD,0xA5); BWTBlock k; k.setBegin(&to[PAD]); d->decodeBlock(k,&in);
    sym_assert(k.size()==n,"decoded length"); bool ok=true; for(size_t j=0;j<n;++j) ok&=to[PAD+j]==b[i].data[j]; sym_assert(ok,"decoded bytes equal the block");
    sym_assert(k.LFpowers().size()==b[i].lf.size(),"number of starting points"); bool lf=true; for(size_t j=0;j<b[i].lf.size();++j) lf&=k.LFpowers()[j]==b[i].lf[j]; sym_assert(lf,"starting points");
    bool pad=true; for(size_t j=0;j<PAD;++j) pad&=to[j]==0xA5; for(size_t j=PAD+n;j<to.size();++j) pad&=to[j]==0xA5; sym_assert(pad,"nothing written outside the block");
    sym_assert(in.pos==b[i].end&&in.past==0&&in.bits==0,"decoder stops at the first byte after the block"); }
  o.d.pop_back();
}
void trip(char c,std::vector<Blk>& b){
  MemOut o; size_t skip=0;
  if(c=='H'){ HuffmanEncoder e; encodeAll(e,b,o,skip); } else { WaveletEncoder e(c); encodeAll(e,b,o,skip); }
  decodeAll(c,b,o,skip);
}
char pick(){ int f=(int)sym_param("coder",-1); return CODERS[f>=0?f:(int)(sym_param("first",0)+sym_choice("coder",sym_param("coders",1)))]; }
void oneLf(Blk& b){ b.lf.assign(1,(uint32)sym_u("lf",31)); }
void runs(std::vector<byte>& v,byte c,size_t n){ v.insert(v.end(),n,c); }
}
// every block of n bytes over a small alphabet
extern "C" void h_code_small(){
  char c=pick(); std::vector<Blk> b(1); smallText(b[0].data,1+sym_choice("n",sym_param("n",5)),sym_param("k",2),sym_choice("alphabet",sym_param("alphs",1))); oneLf(b[0]); trip(c,b); sym_reach("end");
}
// runs whose symbols and lengths are chosen from lists with the boundaries of the integer codes
extern "C" void h_code_runs(){
  static const size_t L[]={1,2,3,4,5,7,8,9,16,127,128,129,255,256,257,1000,4096,9999,10000,10001,16383,16384,65535,65536,1048575,1048576,2097152,16777216}; static const byte S[]={97,0,255,98,128,1};
  char c=pick(); std::vector<Blk> b(1); size_t k=sym_param("runs",3); size_t lo=sym_param("lo",0);
  for(size_t i=0;i<k;++i) runs(b[0].data,S[sym_choice("sym",sym_param("syms",2))],L[lo+sym_choice("len",sym_param("lens",5))]);
  oneLf(b[0]); trip(c,b); sym_reach("end");
}
// several blocks in a row, with up to several starting points
extern "C" void h_code_blocks(){
  char c=pick(); size_t n=sym_param("blocks",2); std::vector<Blk> b(n); static const size_t P[]={1,2,3,8,256,255}; size_t first=sym_param("points",2);
  for(size_t i=0;i<n;++i){ smallText(b[i].data,1+sym_choice("n",sym_param("n",3)),sym_param("k",2),0); size_t p=P[i==0?sym_choice("points",first):0]; for(size_t j=0;j<p;++j) b[i].lf.push_back((uint32)sym_u("lf",31)); }
  trip(c,b); sym_reach("end");
}
// distinct symbols 1..256 in given multiplicities: flat, linear or exponential frequencies of runs
extern "C" void h_code_alphabet(){
  char c=pick(); static const size_t K[]={1,2,3,4,5,7,8,9,15,16,17,31,33,64,65,127,128,129,200,255,256}; size_t k=K[sym_choice("symbols",sym_param("sizes",21))]; int shape=(int)sym_choice("shape",sym_param("shapes",4)); size_t off=sym_choice("offset",2)?256-k:0;
  std::vector<Blk> b(1); std::vector<byte>& v=b[0].data; size_t depth=sym_param("depth",10);
  if(shape==0){ for(size_t r=0;r<2;++r) for(size_t i=0;i<k;++i) runs(v,(byte)(off+i),1+(i+r)%3); }
  else if(shape==1){ for(size_t i=0;i<k;++i) for(size_t r=0;r<1+(k-i)/4;++r){ runs(v,(byte)(off+i),1); runs(v,(byte)(off+(i+1+r)%k),1+r%2); } }
  else { // Fibonacci or doubling frequencies: the deepest codes the length allows
    size_t f1=1,f2=1; for(size_t i=0;i<k;++i){ size_t m=i<depth?f1:1; for(size_t r=0;r<m;++r){ runs(v,(byte)(off+k-1-i),1); if(i) runs(v,(byte)(off+k-1-(shape==2?0:i-1)),1); } size_t t=shape==2?f1*2:f1+f2; f1=f2; f2=t; if(shape==2) f1=f2; } }
  if(sym_param("tail",1)) runs(v,(byte)(off+sym_choice("tail",k<3?k:3)),1+sym_choice("taillen",2)); oneLf(b[0]); trip(c,b); sym_reach("end");
}
// blocks that are split into several sections
extern "C" void h_code_sections(){
  char c=pick(); static const size_t N[]={2,3,1,17,256,255}; std::vector<Blk> b(1); std::vector<byte>& v=b[0].data; size_t s=N[sym_choice("sections",sym_param("counts",4))]; static const size_t E[]={0,1,9999,10000}; size_t extra=E[sym_choice("extra",sym_param("extras",3))];
  for(size_t i=0;i<s;++i) runs(v,(byte)(256-s+i),10000); if(extra&&s<256) runs(v,0,extra);
  if(sym_param("mix",1)) for(size_t i=0;i<8;++i) std::swap(v[(i*7919)%v.size()],v[(i*104729+5000)%v.size()]);
  oneLf(b[0]); trip(c,b); sym_reach("end");
}
// long code words with several ones at the end, at every distance from the byte boundaries, and free symbols at the end
extern "C" void h_code_deep(){
  char c=pick(); static const size_t R[]={16,8,32,4}; size_t rare=R[sym_choice("rare",sym_param("rares",1))],levels=sym_param("levels",6),rot=sym_choice("rotation",sym_param("rots",8)); std::vector<byte> order; byte heavy=250; size_t f=rare;
  for(size_t i=0;i+1<levels;++i){ for(size_t r=0;r<f;++r) order.push_back((byte)(200+i)); f*=2; } size_t steps=order.size()/rare+1; std::vector<byte> o2; for(size_t i=0,q=0;i<order.size()||q<rare;++i){ if(i<order.size()) o2.push_back(order[i]); if(q<rare&&(i%steps==rot%steps||i>=order.size())) o2.push_back((byte)(10+3*q++)); }
  std::vector<Blk> b(1); std::vector<byte>& v=b[0].data; for(size_t i=0;i<o2.size();++i){ v.push_back(heavy); if(i%3==rot%3) v.push_back(heavy); v.push_back(o2[i]); }
  static const byte T[]={10,200,250,13}; size_t tail=sym_param("tail",2); for(size_t i=0;i<tail;++i){ byte x=T[sym_choice("tail",sym_param("tails",3))]; if(x==v.back()) x=(byte)(v.back()==201?202:201); v.push_back(x); }
  oneLf(b[0]); trip(c,b); sym_reach("end");
}
// Fibonacci frequencies: the longest code words a block of that length can have, next to the shortest ones
extern "C" void h_code_fib(){
  char c=pick(); static const size_t D[]={14,18,22,25,27}; size_t d=D[sym_choice("depth",sym_param("depths",4))],from=sym_choice("place",sym_param("places",2)); oneSection=sym_choice("sections",2)==0; std::vector<Blk> b(1); std::vector<byte>& v=b[0].data; std::vector<byte> all;
  size_t f1=1,f2=1; for(size_t i=0;i<d;++i){ all.insert(all.end(),f1,(byte)(from==0?40+i:from==1?255-9*i:128+(i&1?i:-i))); size_t t=f1+f2; f1=f2; f2=t; }
  size_t n=all.size(); v.resize(n); for(size_t i=0,q=n;i<n;++i){ size_t at=2*i<n?2*i:2*(i-(n+1)/2)+1; v[at]=all[--q]; } // no two equal neighbours
  size_t tail=sym_choice("tail",sym_param("tails",3)); if(tail) v.push_back(all[tail==1?0:n-1]); oneLf(b[0]); trip(c,b); sym_reach("end");
}
// many different run lengths in different multiplicities
extern "C" void h_code_lengths(){
  char c=pick(); static const size_t L[]={1,2,3,5,16,17,100,1000},M[]={10,100,1,40}; size_t bg=sym_choice("background",sym_param("backs",6)); std::vector<std::pair<size_t,size_t> > g;
  if(bg==1||bg==2||bg==3) for(size_t l=1;l<=(bg==1?8u:40u);++l) g.push_back(std::make_pair(l,bg==3?12:1));
  if(bg==4) for(size_t l=1;l<=250;++l) g.push_back(std::make_pair(l,1));
  if(bg==5) for(size_t l=1;l<=200;++l) g.push_back(std::make_pair(l,256/l));
  size_t groups=sym_param("groups",2); for(size_t i=0;i<groups;++i){ size_t l=L[sym_choice("length",sym_param("lens",8))]; g.push_back(std::make_pair(l,M[sym_choice("times",sym_param("mults",2))])); }
  std::vector<Blk> b(1); std::vector<byte>& v=b[0].data; byte s=0; static const byte S[]={97,0,255}; bool more=true;
  for(size_t r=0;more;++r){ more=false; for(size_t i=0;i<g.size();++i) if(g[i].second>r){ more=true; runs(v,S[s],g[i].first); s=(byte)((s+1+(r&1))%3); } }
  oneLf(b[0]); trip(c,b); sym_reach("end");
}
// sequences of blocks of different kinds through one encoder and one decoder
static void kind(std::vector<byte>& v,size_t k){
  switch(k){
  case 0: for(int r=0;r<2;++r) for(int i=0;i<256;++i) runs(v,(byte)(i*(r?7:1)),1+(i+r)%3); break;
  case 1: runs(v,97,1); break;
  case 2: runs(v,98,70000); break;
  case 3: { size_t f1=1,f2=1; std::vector<byte> all; for(size_t i=0;i<16;++i){ all.insert(all.end(),f1,(byte)(40+i)); size_t t=f1+f2; f1=f2; f2=t; } size_t n=all.size(); v.resize(n); for(size_t i=0,q=n;i<n;++i){ size_t at=2*i<n?2*i:2*(i-(n+1)/2)+1; v[at]=all[--q]; } break; }
  case 4: for(int i=1;i<=200;++i) runs(v,(byte)(i&1?0:255),i); break;
  case 5: for(int i=0;i<20;++i) runs(v,(byte)(97+i%2),1); break;
  case 6: for(int i=0;i<4;++i) runs(v,(byte)(60+i),10000+i); break;
  case 7: for(int i=0;i<300;++i) runs(v,(byte)(i*i%11),1+i%2); break;
  default: runs(v,0,300); runs(v,255,5); }
}
extern "C" void h_code_sequence(){
  char c=pick(); size_t n=sym_param("blocks",2); std::vector<Blk> b(n); for(size_t i=0;i<n;++i){ kind(b[i].data,sym_choice("kind",sym_param("kinds",9))); size_t p=i==0?sym_choice("points",2)*255+1:1; for(size_t j=0;j<p;++j) b[i].lf.push_back((uint32)(j*1234567+i)); } trip(c,b); sym_reach("end");
}
