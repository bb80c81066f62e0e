// Binary arithmetic coder, one inductive step from an arbitrary interval: with the base case and the
// last step below this covers bit sequences of any length.
#include <string>
#include <vector>
#include <cassert>
#include <iostream>
#include "sym.h"
#define private public
#include "BitCoders.hpp"
#undef private
using namespace bwtc; using dcsbwt::BitEncoder; using dcsbwt::BitDecoder;
// any interval [low,high] the coder can be in between two bits: first bytes differ, low below high
extern "C" void h_coder_step(){
  uint32 low,high; int w=(int)sym_param("w",32);
  if(w>=32){ low=(uint32)sym_u("low",32); high=(uint32)sym_u("high",32); }
  else { // intervals of typical and extreme shapes, w further free bits in the upper end
    static const uint32 L[]={0x7fffffff,0,0x12345678,0x00ffffff,0x7ffffffe,0x7f000000,1,0xfe000001,0xfeffffff,0x00fffffe};
    static const uint32 W[]={1,0xffffffff,0x01000000,2,0x1001,0x02345679,0x7fffffff,0x00ffffff,3,0x1000,0xfff,0x01000001,0x80000000,0xfffffffe};
    low=L[sym_choice("low",sym_param("lows",10))]; uint32 d=W[sym_choice("width",sym_param("widths",14))]; if(w) d^=(uint32)sym_u("dw",w); sym_assume(d>=1&&d<=0xFFFFFFFFu-low); high=low+d; }
  sym_assume(low<high&&((low^high)>>24)!=0);
  Probability p; if(sym_param("fixedp",-1)>=0) p=(Probability)sym_param("fixedp",0); else { uint32 q=(uint32)sym_u("p",13); sym_assume(q<=kProbabilityScale); p=(Probability)q; } bool bit=sym_choice("bit",2);
  MemOut o; BitEncoder e; e.connect(&o); e.m_low=low; e.m_high=high; e.encode(bit,p);
  sym_assert(e.m_low<e.m_high&&((e.m_low^e.m_high)>>24)!=0,"interval stays non-empty with different first bytes");
  sym_assert(o.d.size()<=4,"at most four bytes per bit");
  // rest: the first four bytes of what the encoder writes later, by induction any value in the new interval
  uint32 rest=(uint32)sym_u("rest",32); sym_assume(rest>=e.m_low&&rest<=e.m_high);
  std::vector<byte> st(o.d); for(int i=3;i>=0;--i) st.push_back((byte)(rest>>(8*i)));
  uint32 next=0; for(int i=0;i<4;++i) next=(next<<8)|st[i];
  sym_assert(next>=low&&next<=high,"code value lies in the interval before the bit");
  std::vector<byte> more(st.begin()+4,st.end()); MemIn in(more); BitDecoder d; d.connect(&in); d.m_low=low; d.m_high=high; d.m_next=next;
  bool got=d.decode(p); sym_assert(got==bit,"decoder returns the coded bit");
  sym_assert(d.m_low==e.m_low&&d.m_high==e.m_high,"decoder's interval follows the encoder's"); sym_assert(d.m_next==rest&&in.pos==more.size()&&in.past==0,"decoder consumed the bytes written for the bit");
  sym_reach("end");
}
extern "C" void h_coder_ends(){
  MemOut o; BitEncoder e; e.connect(&o); BitDecoder d0;
  sym_assert(e.m_low==0&&e.m_high==0xFFFFFFFFu,"encoder starts with the full interval");
  uint32 low=(uint32)sym_u("low",32),high=(uint32)sym_u("high",32); sym_assume(low<high&&((low^high)>>24)!=0); e.m_low=low; e.m_high=high; e.m_counter=7; e.finish();
  sym_assert(o.d.size()==4&&e.m_counter==11,"four closing bytes"); MemIn in(o.d); BitDecoder d; d.connect(&in); d.m_low=5; d.m_high=9; d.start();
  sym_assert(d.m_low==0&&d.m_high==0xFFFFFFFFu&&d.m_next>=low&&d.m_next<=high,"closing value lies in the interval"); sym_assert(in.pos==4,"start reads four bytes");
  sym_assert(e.m_low==0&&e.m_high==0xFFFFFFFFu,"encoder is ready for the next sequence"); sym_reach("end");
}
