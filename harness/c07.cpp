// Huffman code lengths and canonical code words.
#include "sym.h"
#include "Utils.hpp"
#include <algorithm>
typedef std::vector<std::pair<uint64,uint32> > CL;
static void profiles(size_t m,std::vector<std::vector<int> >& out){ // lengths of all complete codes with m words, non-increasing
  std::vector<std::vector<int> > cur(1,std::vector<int>(2,1)); if(m==2){ out=cur; return; }
  for(size_t k=2;k<m;++k){ std::vector<std::vector<int> > nx;
    for(size_t i=0;i<cur.size();++i) for(size_t j=0;j<k;++j){ if(j+1<k&&cur[i][j]==cur[i][j+1]) continue; std::vector<int> p(cur[i]); int d=p[j]+1; p[j]=d; p.push_back(d); std::sort(p.rbegin(),p.rend()); bool dup=false; for(size_t q=0;q<nx.size();++q) dup|=nx[q]==p; if(!dup) nx.push_back(p); }
    cur.swap(nx); }
  out=cur;
}
static void checkLengths(const CL& cl,const std::vector<uint64>& f,const std::vector<uint32>& names){
  size_t m=f.size(); sym_assert(cl.size()==m,"every symbol that occurs has a code length");
  std::vector<uint64> len(m,0); for(size_t i=0;i<cl.size();++i){ size_t k=m; for(size_t j=0;j<m;++j) if(names[j]==cl[i].second) k=j; sym_assert(k<m&&len[k]==0,"each symbol appears once"); len[k]=cl[i].first; sym_assert(len[k]>=1&&len[k]<=(m>1?m-1:1),"code length in range"); }
  if(m==1){ sym_assert(len[0]==1,"a lone symbol gets length one"); sym_reach("end"); return; }
  uint64 L=0; for(size_t i=0;i<m;++i) if(len[i]>L) L=len[i]; 
  if(L<60){ uint64 kr=0; for(size_t i=0;i<m;++i) kr+=(uint64)1<<(L-len[i]); sym_assert(kr==((uint64)1<<L),"lengths form a complete prefix code"); }
  bool mono=true; for(size_t i=0;i<m;++i) for(size_t j=0;j<m;++j) if(len[i]>len[j]) mono&=f[i]<=f[j]; sym_assert(mono,"more frequent symbols never get longer codes");
}
// no complete code is cheaper: for each length profile the terms that differ are compared
static void optimal(const CL& cl,const std::vector<uint64>& f,const std::vector<uint32>& names){
  size_t m=f.size(); if(m<2) return; std::vector<uint64> s(f); std::vector<uint64> len(m,0);
  for(size_t i=0;i<cl.size();++i) for(size_t j=0;j<m;++j) if(names[j]==cl[i].second) len[j]=cl[i].first;
  for(size_t i=1;i<m;++i) for(size_t j=i;j>0&&s[j]<s[j-1];--j){ std::swap(s[j],s[j-1]); std::swap(len[j],len[j-1]); }
  std::vector<std::vector<int> > pr; profiles(m,pr);
  for(size_t p=0;p<pr.size();++p){ uint64 more=0,less=0; bool any=false; for(size_t i=0;i<m;++i){ int d=(int)len[i]-pr[p][i]; if(d>0){ more+=(uint64)d*s[i]; any=true; } else if(d<0) less+=(uint64)(-d)*s[i]; } if(any) sym_assert(more<=less,"no complete code has a smaller total length"); }
}
// m symbols with arbitrary nonzero frequencies; optimal against every complete code
extern "C" void h_huff_lengths(){
  size_t m=1+sym_choice("m",sym_param("m",5)); int w=(int)sym_param("w",32); bool over=sym_param("names",0); static const uint32 NM[]={0,255,7,128,200,1,254,64}; std::vector<uint32> names; std::vector<uint64> f; uint64 fr[256]; for(int i=0;i<256;++i) fr[i]=0;
  for(size_t i=0;i<m;++i){ uint64 x=sym_u("freq",w); sym_assume(x>0); f.push_back(x); names.push_back(over?1000+3*(uint32)i:NM[i]); fr[over?i:NM[i]]=x; }
  CL cl; if(over) utils::calculateHuffmanLengths(cl,fr,names); else utils::calculateHuffmanLengths(cl,fr);
  checkLengths(cl,f,names); optimal(cl,f,names);
  sym_reach("end");
}
// the in-place variant on a vector the caller has filled (with and without scratch array)
extern "C" void h_huff_inplace(){
  size_t m=1+sym_choice("m",sym_param("m",4)); std::vector<uint64> f; std::vector<uint32> names; CL cl; bool sorted=sym_choice("sorted",2), scratch=sym_choice("scratch",2); uint64 prev=0;
  for(size_t i=0;i<m;++i){ uint64 x=sym_u("freq",32); sym_assume(x>0); if(sorted) sym_assume(x>=prev); prev=x; f.push_back(x); names.push_back((uint32)(70000+i)); cl.push_back(std::make_pair(x,(uint32)(70000+i))); }
  uint64 tmp[8]; utils::calculateCodeLengths(cl,scratch?tmp:0,sorted); checkLengths(cl,f,names); optimal(cl,f,names);
  sym_reach("end");
}
// large alphabets: concrete scaffolds (equal, ascending, Fibonacci, powers, mixed) with symbolic frequencies among them
extern "C" void h_huff_large(){
  int pat=(int)sym_choice("pattern",5); size_t m=pat==2?sym_param("deep",45):pat==3?40:256; std::vector<uint64> f; uint64 a=1,b=1; for(size_t i=0;i<m;++i){ uint64 x=pat==0?5:pat==1?i+1:pat==2?a:pat==3?((uint64)1<<i):1+(i*i%97)*1000; if(pat==2){ uint64 t=a+b; a=b; b=t; } f.push_back(x); }
  size_t syms=sym_param("syms",2); for(size_t i=0;i<syms;++i){ uint64 x=sym_u("freq",(int)sym_param("w",3)); sym_assume(x>0); f[i*(m-1)/(syms>1?syms-1:1)]=x; }
  std::vector<uint32> names; uint64 fr[256]; for(int i=0;i<256;++i) fr[i]=0; for(size_t i=0;i<m;++i){ names.push_back((uint32)i); fr[i]=f[i]; }
  CL cl; utils::calculateHuffmanLengths(cl,fr); sym_assert(cl.size()==m,"every symbol that occurs has a code length");
  std::vector<uint64> s(f); std::sort(s.begin(),s.end()); std::vector<uint64> q; size_t i=0,j=0; uint64 opt=0; // two-queue reference
  for(size_t k=0;k+1<m;++k){ uint64 t=0; for(int r=0;r<2;++r){ if(i<m&&(j>=q.size()||s[i]<=q[j])) t+=s[i++]; else t+=q[j++]; } q.push_back(t); opt+=t; }
  uint64 c=0; for(size_t k=0;k<m;++k) c+=cl[k].first*f[cl[k].second]; sym_assert(c==opt,"total length is that of the reference Huffman algorithm");
  uint64 L=0; for(size_t k=0;k<m;++k) L=cl[k].first>L?cl[k].first:L; if(L<60){ uint64 kr=0; for(size_t k=0;k<m;++k) kr+=(uint64)1<<(L-cl[k].first); sym_assert(kr==((uint64)1<<L),"lengths form a complete prefix code"); }
  sym_reach("end");
}
static void prefixFree(const uint32* clen,const uint32* code,const std::vector<int>& at){
  bool fit=true,pf=true; for(size_t x=0;x<at.size();++x){ int k=at[x]; if(clen[k]<32) fit&=(code[k]>>clen[k])==0;
    for(size_t y=0;y<at.size();++y){ int p=at[y]; if(x==y||clen[k]>clen[p]) continue; uint32 d=clen[p]-clen[k]; uint32 c=d>=32?0:code[p]>>d; pf&=c!=code[k]; } }
  sym_assert(fit,"code word fits its length"); sym_assert(pf,"code words are prefix-free and distinct");
}
// every complete set of m lengths, the symbols anywhere in the alphabet
extern "C" void h_huff_codes(){
  size_t m=2+sym_choice("m",sym_param("m",5)-1); uint32 clen[256],code[256]; for(int i=0;i<256;++i){ clen[i]=0; code[i]=0xdeadbeef; } static const int AT[]={0,255,1,128,254,77,2,200}; std::vector<int> at; uint32 kraft=0;
  for(size_t i=0;i<m;++i){ uint32 l=(uint32)sym_u("len",3); sym_assume(l>=1&&l<=m-1); kraft+=(uint32)1<<(7-l); clen[AT[i]]=l; at.push_back(AT[i]); }
  sym_assume(kraft==128); utils::computeHuffmanCodes(clen,code); prefixFree(clen,code,at); bool unused=true; for(int i=0;i<256;++i) if(clen[i]==0) unused&=code[i]==0; sym_assert(unused,"absent symbols get no code word"); sym_reach("end");
}
// deep and wide sets: a spine of depth d with a full subtree somewhere
extern "C" void h_huff_codes_deep(){
  size_t d=sym_choice("depth",sym_param("depth",60))+1; size_t rot=sym_choice("rot",3); uint32 clen[256],code[256]; for(int i=0;i<256;++i) clen[i]=0; std::vector<int> at; size_t sub=sym_choice("subtree",7); // replace leaf 1 by 2^sub leaves
  std::vector<uint32> l; for(size_t i=1;i<=d;++i) l.push_back((uint32)i); l.push_back((uint32)d); uint32 base=l[0]; if(l.size()+((size_t)1<<sub)>255) return; l[0]=base+(uint32)sub; for(size_t i=1;i<((size_t)1<<sub);++i) l.push_back(base+(uint32)sub);
  for(size_t i=0;i<l.size();++i){ int p=(int)((i*(rot==0?1:rot==1?255:7))&255); clen[p]=l[i]; at.push_back(p); }
  utils::computeHuffmanCodes(clen,code); prefixFree(clen,code,at); sym_reach("end");
}
