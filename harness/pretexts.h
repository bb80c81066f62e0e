// Texts for precompression.
#pragma once
#include "texts.h"
namespace {
typedef std::vector<byte> Str;
void rep(Str& t,const char* s,size_t n){ for(size_t i=0;i<n;++i) for(const char* p=s;*p;++p) t.push_back((byte)*p); }
void all(Str& t,size_t n,int step){ for(size_t k=0;k<n;++k) for(int i=0;i<256;++i) t.push_back((byte)(i*step+7*k)); }
// training texts: every way replacements are made (free symbols, special symbols, freed variables, several rounds, runs, zero bytes, thresholds)
void training(Str& t,int kind){
  t.clear();
  switch(kind){
  case 0: rep(t,"ab",1300); rep(t,"cd",1200); rep(t,"ac",50); break;                       // free symbols
  case 1: all(t,1,1); rep(t,"ab",1300); break;                                               // two special symbols, one freed symbol
  case 2: all(t,2,5); rep(t,"abcd",1300); rep(t,"ef",1250); rep(t,"ghg",1200); rep(t,"xy",1190); break; // several special symbols
  case 3: rep(t,"a",5000); rep(t,"b",4001); all(t,1,3); break;                               // runs
  case 4: all(t,1,1); rep(t,"baaa",1400); rep(t,"cddd",1300); break;                          // runs of three
  case 5: for(int i=0;i<1300;++i){ t.push_back(0); t.push_back(1); } for(int i=0;i<1250;++i){ t.push_back(255); t.push_back(0); } all(t,1,1); break; // zero bytes
  case 6: { all(t,1,1); for(int r=0;r<1100;++r){ rep(t,"abcdefghijklmnop",1); } break; }      // repeated word: rounds build on each other
  case 7: { for(int i=0;i<250;++i) t.push_back((byte)i); for(int r=0;r<1100;++r) rep(t,"abcdefgh",1); for(int r=0;r<1050;++r) rep(t,"qrst",1); break; } // few free symbols, then special symbols
  case 8: { all(t,336,1); t.push_back(0); rep(t,"baaa",1006); break; }                        // pair counted in runs, expensive symbols
  case 9: { all(t,336,1); rep(t,"baaa",1006); break; }
  case 10: rep(t,"ab",1004); t.push_back('z'); break;                                        // threshold
  case 11: rep(t,"ab",1003); t.push_back('z'); break;
  case 12: all(t,1,1); t.push_back(7); rep(t,"ab",1005); break;
  case 14: case 15: { all(t,1,1); byte f=kind==14?255:0; for(int i=0;i<3600;++i){ t.push_back(f); t.push_back((byte)(1+(i*89)%253)); if(i%4==0) t.push_back((byte)(2+(i/4*37)%251)); } break; } // a frequent symbol, no frequent pair, no free symbol
  default: { Lcg r(kind); for(int i=0;i<9000;++i) t.push_back((byte)('a'+r()%3)); break; }    // random text over three letters
  }
}
}
