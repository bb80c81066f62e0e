// Binary arithmetic coder through its public interface: bits and probabilities are symbolic.
#include "sym.h"
#include "BitCoders.hpp"
using namespace bwtc; using dcsbwt::BitEncoder; using dcsbwt::BitDecoder;
namespace {
// a probability chosen from the legal range: any value, an end of the range, or next to it
Probability prob(int mode){
  switch(mode){ case 0: { uint32 p=(uint32)sym_u("p",13); sym_assume(p<=kProbabilityScale); return (Probability)p; }
    case 1: return 0; case 2: return kProbabilityScale; case 3: return 1; case 4: return kProbabilityScale-1; case 5: return kHalfProbability; default: return 1365; }
}
struct Sec { std::vector<bool> b; std::vector<Probability> p; size_t bytes; };
void encodeSec(BitEncoder& e,Sec& s,MemOut& o){ size_t at=o.d.size(); e.resetCounter(); sym_assert(e.counter()==0,"counter starts at zero"); for(size_t i=0;i<s.b.size();++i) e.encode(s.b[i],s.p[i]); e.finish(); s.bytes=o.d.size()-at; sym_assert(e.counter()==s.bytes,"counter equals the bytes written"); }
void decodeSec(BitDecoder& d,Sec& s,MemIn& in,size_t end){ d.start(); bool ok=true; for(size_t i=0;i<s.b.size();++i) ok&=d.decode(s.p[i])==s.b[i]; sym_assert(ok,"decoded bits equal the coded bits"); sym_assert(in.pos==end&&in.past==0,"decoder has read exactly the bytes of the code"); }
}
// k symbolic bits with symbolic probabilities
extern "C" void h_coder_free(){
  size_t k=sym_param("k",2); MemOut o; BitEncoder e; e.connect(&o); Sec s; for(size_t i=0;i<k;++i){ s.b.push_back(sym_u("b",1)); s.p.push_back(prob(0)); }
  encodeSec(e,s,o); MemIn in(o.d); BitDecoder d; d.connect(&in); decodeSec(d,s,in,o.d.size()); sym_reach("end");
}
// k symbolic bits, probabilities from the interesting set
extern "C" void h_coder_edges(){
  size_t k=sym_param("k",5); MemOut o; BitEncoder e; e.connect(&o); Sec s; for(size_t i=0;i<k;++i){ s.b.push_back(sym_u("b",1)); s.p.push_back(prob(1+(int)sym_choice("mode",sym_param("modes",4)))); }
  encodeSec(e,s,o); MemIn in(o.d); BitDecoder d; d.connect(&in); decodeSec(d,s,in,o.d.size()); sym_reach("end");
}
// long stretches of probable or improbable bits around symbolic ones: carries and many renormalisations
extern "C" void h_coder_long(){
  MemOut o; BitEncoder e; e.connect(&o); Sec s; size_t rep=sym_param("rep",300); size_t parts=sym_param("parts",3);
  for(size_t j=0;j<parts;++j){
    int m=1+(int)sym_choice("mode",6); Probability p=prob(m); int pattern=(int)sym_choice("pattern",sym_param("patterns",4));
    for(size_t i=0;i<rep;++i){ s.b.push_back(pattern==0?false:pattern==1?true:pattern==2?i&1:(i*i/7)%3==0); s.p.push_back(p); }
    for(size_t i=0;i<(size_t)sym_param("k",2);++i){ s.b.push_back(sym_u("b",1)); s.p.push_back(prob(1+(int)((i+j)%6))); }
  }
  encodeSec(e,s,o); MemIn in(o.d); BitDecoder d; d.connect(&in); decodeSec(d,s,in,o.d.size()); sym_reach("end");
}
// several sequences one after the other with the same encoder and decoder objects, some of them empty
extern "C" void h_coder_seqs(){
  size_t n=sym_param("seqs",3); MemOut o; BitEncoder e; e.connect(&o); std::vector<Sec> s(n); std::vector<size_t> end(n);
  for(size_t j=0;j<n;++j){ size_t k=sym_choice("len",sym_param("k",3)); for(size_t i=0;i<k;++i){ s[j].b.push_back(sym_u("b",1)); s[j].p.push_back(prob(1+(int)sym_choice("mode",5))); } encodeSec(e,s[j],o); end[j]=o.d.size(); }
  MemIn in(o.d); BitDecoder d; d.connect(&in); for(size_t j=0;j<n;++j) decodeSec(d,s[j],in,end[j]); sym_reach("end");
}
