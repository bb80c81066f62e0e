// Run statistics, frequency table, circular buffer.
#include "sym.h"
#include "Utils.hpp"
#include "preprocessors/FrequencyTable.hpp"
#include <map>
using namespace bwtc;
namespace {
void checkRuns(const std::vector<byte>& t,bool probeAll){
  size_t n=t.size(); uint64 f1[256],f2[256],f3[256]; for(int i=0;i<256;++i) f1[i]=f2[i]=f3[i]=0;
  utils::calculateRunFrequencies(f1,&t[0],n); std::map<uint32,uint32> lens; size_t total=utils::calculateRunsAndCharacters(f2,&t[0],n,lens);
  std::vector<byte> seq(n+1,0xEE); std::vector<uint32> len(n+1,77); uint64 cnt=utils::calculateRunFrequenciesAndStoreRuns(f3,&seq[0],&len[0],&t[0],n);
  sym_assert(total==cnt&&cnt>=1&&cnt<=n,"number of runs"); size_t at=0; bool ok=true,maximal=true; std::map<uint32,uint32> want;
  for(size_t i=0;i<cnt;++i){ sym_assert(len[i]>=1&&at+len[i]<=n,"run lengths add up"); for(size_t j=0;j<len[i];++j) ok&=t[at+j]==seq[i]; if(i) maximal&=seq[i]!=seq[i-1]; at+=len[i]; ++want[len[i]]; }
  sym_assert(at==n&&ok,"stored runs expand to the sequence"); sym_assert(maximal,"runs are maximal"); sym_assert(seq[cnt]==0xEE&&len[cnt]==77,"nothing stored behind the last run");
  sym_assert(want.size()==lens.size()&&std::equal(want.begin(),want.end(),lens.begin()),"run length statistics");
  if(probeAll){ uint64 w[256]; for(int i=0;i<256;++i) w[i]=0; for(size_t i=0;i<cnt;++i) ++w[seq[i]]; bool a=true; for(int i=0;i<256;++i) a&=f1[i]==w[i]&&f2[i]==w[i]&&f3[i]==w[i]; sym_assert(a,"runs per symbol"); }
  else { byte c=sym_byte("probe"); uint64 w=0; for(size_t i=0;i<cnt;++i) w+=seq[i]==c; sym_assert(f1[c]==w&&f2[c]==w&&f3[c]==w,"runs per symbol"); }
}
}
// every sequence of up to n arbitrary bytes
extern "C" void h_runs(){ size_t n=1+sym_choice("n",sym_param("n",4)); std::vector<byte> t; for(size_t i=0;i<n;++i) t.push_back(sym_byte("t")); checkRuns(t,false); sym_reach("end"); }
// every sequence over the two bytes 0 and 255
extern "C" void h_runs2(){ size_t n=1+sym_choice("n",sym_param("n",9)); std::vector<byte> t; for(size_t i=0;i<n;++i) t.push_back(sym_choice("t",2)?255:0); checkRuns(t,true); sym_reach("end"); }
// long runs with lengths around powers of two and of two bytes
extern "C" void h_runs_long(){
  static const size_t L[]={1,2,127,128,255,256,257,1000,65535,65536,70000}; std::vector<byte> t; byte c=sym_byte("c"),d=sym_byte("d"); size_t k=sym_param("parts",2);
  for(size_t i=0;i<k;++i){ size_t l=L[sym_choice("len",sym_param("lens",11))]; t.insert(t.end(),l,i&1?d:c); } checkRuns(t,false); sym_reach("end");
}
extern "C" void h_freqtable(){
  static const byte K[]={0,1,254,255,97}; size_t keys=sym_param("keys",3),ops=sym_param("ops",2); int w=(int)sym_param("w",4); uint64 base[]={0,3,4294967294ull,1000000}; uint64 b=base[sym_choice("base",sym_param("bases",2))];
  size_t f[256]; for(int i=0;i<256;++i) f[i]=b+(sym_param("vary",0)?i%5:0); for(size_t i=0;i<keys;++i) f[K[i]]=sym_u("f",w);
  size_t orig[256]; for(int i=0;i<256;++i) orig[i]=f[i]; FrequencyTable t(f); bool gone[256]; for(int i=0;i<256;++i) gone[i]=false; size_t size=256;
  if(sym_choice("init",2)){ size_t g[256]; for(int i=0;i<256;++i) g[i]=255-i; FrequencyTable u(g); u.initialize(f); t=u; }
  for(size_t o=0;o<ops;++o){ byte k=K[sym_choice("key",keys)]; int op=(int)sym_choice("op",sym_param("removes",1)?3:2); if(gone[k]) continue;
    if(op==0){ uint64 v=sym_u("up",w); t.increase(k,v); orig[k]+=v; } else if(op==1){ uint64 v=sym_u("down",w); sym_assume(v<=orig[k]); bool r=t.decrease(k,v); orig[k]-=v; sym_assert(r,"decrease succeeds"); } else { t.remove(k); gone[k]=true; --size; } }
  sym_assert(t.size()==size,"number of symbols"); FrequencyTable copy(t); bool seen[256]; for(int i=0;i<256;++i) seen[i]=false; bool ord=true,exact=true,once=true,cp=true;
  for(size_t i=0;i<size;++i){ byte k=t.getKey((int)i); once&=!seen[k]&&!gone[k]; seen[k]=true; exact&=t.getFrequency((int)i)==orig[k]; if(i) ord&=t.getFrequency((int)i-1)<=t.getFrequency((int)i); cp&=copy.getKey((int)i)==k&&copy.getFrequency((int)i)==t.getFrequency((int)i); }
  for(int i=0;i<256;++i) if(!gone[i]) exact&=t.getFrequencyWithKey((byte)i)==orig[i];
  sym_assert(once,"every symbol is listed once"); sym_assert(ord,"symbols are ordered by frequency"); sym_assert(exact,"frequencies are exact"); sym_assert(cp&&copy.size()==size,"copies are equal"); sym_reach("end");
}
extern "C" void h_circular(){
  size_t len=1+sym_choice("len",sym_param("len",4)); utils::CircularBuffer<uint32> b(len); std::vector<uint32> q; size_t head=0; size_t ops=sym_param("ops",5);
  for(size_t o=0;o<ops;++o){ size_t in=q.size()-head; sym_assert(b.full()==(in>=len),"full is reported exactly");
    if(sym_choice("op",2)){ size_t k=len-in; size_t m=k?1+sym_choice("push",k):0; for(size_t i=0;i<m;++i){ uint32 v=(uint32)sym_u("v",32); b.push(v); q.push_back(v); } }
    else { size_t m=sym_choice("want",len+2); std::vector<uint32> to(m+2,5); size_t got=b.consume(&to[1],m); sym_assert(got==(m<in?m:in),"consumes what is asked for or all there is"); bool ok=to[0]==5&&to[m+1]==5; for(size_t i=0;i<got;++i) ok&=to[1+i]==q[head+i]; for(size_t i=got;i<m;++i) ok&=to[1+i]==5; sym_assert(ok,"elements leave in the order they came"); head+=got; } }
  sym_reach("end");
}
extern "C" void h_isprefix(){
  size_t n=sym_choice("n",4),m=sym_choice("m",4); std::string a,b; for(size_t i=0;i<n;++i) a.push_back((char)sym_byte("a")); for(size_t i=0;i<m;++i) b.push_back((char)sym_byte("b"));
  bool w=n<=m; for(size_t i=0;i<n&&i<m;++i) w&=a[i]==b[i]; sym_assert(utils::isPrefix(a,b)==w,"isPrefix"); sym_reach("end");
}
// all 256 symbols: long operation sequences, ended by chosen operations
extern "C" void h_freqtable_long(){
  static const byte K[]={0,255,97,128,1,200}; static const uint64 V[]={0,1,2,1000,70000,5000000000ull}; int shape=(int)sym_choice("shape",sym_param("shapes",5)); size_t f[256],orig[256]; bool gone[256]; size_t size=256;
  for(int i=0;i<256;++i){ f[i]=shape==0?0:shape==1?i:shape==2?1000-i:shape==3?i%7:(size_t)(i*i)%1000*10000000ull; orig[i]=f[i]; gone[i]=false; } FrequencyTable t(f); size_t pre=sym_choice("before",2)*sym_param("pre",60),ops=sym_param("ops",2); uint32 r=7;
  for(size_t o=0;o<pre+ops;++o){ byte k; uint64 v; int op; if(o<pre){ r=r*1664525u+1013904223u; k=(byte)(r>>24); v=(r>>8)%1500; op=(r>>4)%3==2?((r>>20)%3?0:2):(int)((r>>4)%3); } else { k=K[sym_choice("key",sym_param("keys",6))]; op=(int)sym_choice("op",3); v=op==2?0:V[sym_choice("amount",sym_param("amounts",6))]; }
    if(gone[k]) continue; if(op==0){ t.increase(k,v); orig[k]+=v; } else if(op==1){ if(v>orig[k]) v=orig[k]; bool ok=t.decrease(k,v); orig[k]-=v; sym_assert(ok,"decrease succeeds"); } else { t.remove(k); gone[k]=true; --size; } }
  sym_assert(t.size()==size,"number of symbols"); bool seen[256]; for(int i=0;i<256;++i) seen[i]=false; bool ord=true,exact=true,once=true; for(size_t i=0;i<size;++i){ byte k=t.getKey((int)i); once&=!seen[k]&&!gone[k]; seen[k]=true; exact&=t.getFrequency((int)i)==orig[k]; if(i) ord&=t.getFrequency((int)i-1)<=t.getFrequency((int)i); }
  for(int i=0;i<256;++i) if(!gone[i]) exact&=t.getFrequencyWithKey((byte)i)==orig[i]; sym_assert(once,"every symbol is listed once"); sym_assert(ord,"symbols are ordered by frequency"); sym_assert(exact,"frequencies are exact"); sym_reach("end");
}
