// Input texts: fully symbolic small texts and longer concrete scaffolds with symbolic bytes.
#pragma once
#include "sym.h"
#include "globaldefs.hpp"
using bwtc::byte; using bwtc::uint32; using bwtc::uint64;
// letters; index 0..k-1 selected by a symbolic variable
static const volatile byte ALPH[3][8]={{'a','b','c','d','e','f','g','h'},{0,255,1,254,128,127,2,3},{255,254,253,252,251,250,249,248}};
static inline byte symLetter(size_t k,size_t alph){
  if(k>=256) return (byte)sym_u("byte",8);
  if(k==1) return ALPH[alph][0];
  int bits=k<=2?1:k<=4?2:3; uint64_t s=sym_u("letter",bits); if((k&(k-1))!=0) sym_assume(s<k);
  return ALPH[alph][s];
}
static inline void smallText(std::vector<byte>& t,size_t n,size_t k,size_t alph){ for(size_t i=0;i<n;++i) t.push_back(symLetter(k,alph)); }
struct Lcg { uint64_t s; Lcg(uint64_t x):s(x*2654435761u+12345){} uint32 operator()(){ s=s*6364136223846793005ull+1442695040888963407ull; return (uint32)(s>>33); } };
static inline void scaffoldBase(std::vector<byte>& t,int pat,size_t n){
  Lcg r(pat+1); t.clear();
  switch(pat){
  case 0: t.assign(n,'a'); break;                                           // one symbol
  case 1: for(size_t i=0;i<n;++i) t.push_back(i&1?'b':'a'); break;          // period 2
  case 2: { std::vector<byte> a(1,'a'),b(1,'b'); while(b.size()<n){ std::vector<byte> c(b); c.insert(c.end(),a.begin(),a.end()); a=b; b=c; } t.assign(b.begin(),b.begin()+n); break; } // Fibonacci
  case 3: for(size_t i=0;i<n;++i) t.push_back((byte)(r()&255)); break;      // random bytes
  case 4: for(size_t i=0;i<n;++i) t.push_back('a'+(byte)(r()%2)); break;    // random binary
  case 5: for(size_t i=0;i<n;++i) t.push_back((byte)(i*7)); break;          // all 256 symbols
  case 6: for(size_t l=1;t.size()<n;++l) for(size_t j=0;j<l&&t.size()<n;++j) t.push_back(l&1?0:255); break; // growing runs of extremes
  case 7: { std::vector<byte> u; for(int i=0;i<37;++i) u.push_back('a'+(byte)(r()%3)); while(t.size()<n) t.push_back(u[t.size()%37]); break; } // tandem repeat of a random word
  case 8: for(size_t i=0;i<n;++i) t.push_back((byte)(255-i*255/(n?n:1))); break; // descending
  case 10: for(size_t i=0;i<n;++i) t.push_back(i&1?(byte)('x'+r()%2):(byte)('a'+r()%2)); break; // every second position starts a B* suffix
  case 11: for(size_t i=0;i<n;++i) t.push_back(i&1?(byte)(200+r()%50):(byte)'a'); break;
  case 12: for(size_t i=0;i<n;++i) t.push_back(i&1?'b':(i/2)%97==96?(byte)'c':(byte)'a'); break; // long equal stretches with few breaks
  case 13: { size_t per=1+n/6; for(size_t i=0;i<n;++i) t.push_back((byte)(i<per?((i&1)?'x'+r()%2:'a'+r()%2):t[i-per])); break; } // repeated block full of B* suffixes
  case 14: for(size_t i=0;i<n;++i){ size_t h=n/4; size_t v=(i/2)<h?(i/2):2*h-(i/2); t.push_back(i&1?(byte)255:(byte)(v*250/(h+1))); } break; // organ pipe
  case 15: case 16: { size_t h=n/2,every=pat==15?11:6,k=pat==15?8:10; while(t.size()<h){ t.push_back((byte)('a'+r()%k)); t.push_back((byte)('p'+r()%k)); if(t.size()/2%every==0) t.push_back('o'); } t.resize(h); while(t.size()<n) t.push_back(t[t.size()-h]); break; } // hundreds of kinds of short LMS substrings, all of them repeated
  default: for(size_t i=0;i<n;++i){ size_t x=0,y=i; while(y){ x^=y&1; y>>=1; } t.push_back(x?255:0); } break; // Thue-Morse over 0/255
  }
}
// scaffold with `syms` symbolic bytes spread over the text (first, last and between)
static inline void scaffold(std::vector<byte>& t,int pat,size_t n,size_t syms,size_t k){
  scaffoldBase(t,pat,n); size_t alph=pat>=5?1:0;
  for(size_t i=0;i<syms&&i<n;++i){ size_t pos=syms==1?n/2:i*(n-1)/(syms-1); t[pos]=symLetter(k,alph); }
}

// texts that drive the suffix sorters into their rarely taken branches; each has a length of its own
static inline void sturmian(std::vector<byte>& t,const char* c,size_t n){ std::vector<byte> a(1,'a'),b(1,'b'); for(;b.size()<n&&*c;++c){ std::vector<byte> x; for(int i=0;i<*c-'0';++i) x.insert(x.end(),b.begin(),b.end()); x.insert(x.end(),a.begin(),a.end()); a=b; b=x; } t.assign(b.begin(),b.begin()+(b.size()<n?b.size():n)); }
static inline void morphic(std::vector<byte>& t,const char* const* m,size_t n){ t.assign(1,'a'); while(t.size()<n){ std::vector<byte> y; for(size_t i=0;i<t.size()&&y.size()<=n;++i) for(const char* p=m[t[i]-'a'];*p;++p) y.push_back((byte)('a'+*p-'0')); t=y; } t.resize(n); }
static inline void dictionary(std::vector<byte>& t,uint64_t seed,size_t n){ // words made of one long ascending or descending stretch, some of them much more frequent
  Lcg r(seed); size_t W=2+r()%400,longest=2+r()%30,al=2+r()%6; std::vector<std::vector<byte> > w(W);
  for(size_t i=0;i<W;++i){ size_t l=1+r()%longest; size_t up[8]={0},dn[8]={0}; for(size_t j=0;j<l;++j){ bool u=r()%2; size_t c=r()%al; ++(u?up:dn)[c]; } w[i].push_back('a'); w[i].push_back('b'); if(r()%2) for(size_t c=0;c<al;++c) w[i].insert(w[i].end(),up[c],(byte)('c'+c)); for(size_t c=al;c-->0;) w[i].insert(w[i].end(),dn[c],(byte)('c'+c)); if(r()%2) w[i].push_back('a'); }
  size_t zip=1+r()%4; t.clear(); while(t.size()<n){ size_t i=W; for(size_t z=0;z<zip;++z){ size_t x=r()%W; if(x<i) i=x; } t.insert(t.end(),w[i].begin(),w[i].end()); } t.resize(n);
}
static inline void pairsDoubled(std::vector<byte>& t,int k,int every,bool swing,size_t n){ Lcg r(k*100+every); int c=0; while(t.size()<n/2){ if(swing) c^=1; t.push_back((byte)('a'+r()%k+40*c)); t.push_back((byte)(180+r()%k)); if(every&&t.size()/2%every==0) t.push_back(175); } t.resize(n/2); while(t.size()<n) t.push_back(t[t.size()-n/2]); }
enum { SPECIALS=20 };
static inline void special(std::vector<byte>& t,int kind){
  static const char* const A[]={"01","0010"}; static const char* const B[]={"113","0","0300","10"};
  switch(kind){
  case 0: morphic(t,A,4223); break;              // runs out of trsort's budget at several depths: partial copies
  case 1: sturmian(t,"111223231211",4084); break;
  case 2: sturmian(t,"1332131232",4041); break;
  case 3: pairsDoubled(t,12,0,false,3000); break; // sais: more kinds of substrings than room, second recursion
  case 4: pairsDoubled(t,10,2,true,3000); break;  // sais: room for one bucket array, second recursion
  case 5: dictionary(t,3304,6000); break;         // sssort: unbalanced partition of unsorted tails
  case 6: morphic(t,B,4031); break;
  case 7: sturmian(t,"133323311",4247); break;
  case 8: case 9: case 10: case 11: case 12: case 13: { static const int N[]={3720,3818,4058,4080,4291,4342}; morphic(t,A,N[kind-8]); break; } // nested partial copies
  case 14: case 15: { static const int N[]={3712,4017}; sturmian(t,"111223231211",N[kind-14]); break; }
  default: { static const int N[]={3802,3901,4144,4545}; sturmian(t,"133323311",N[(kind-16)&3]); } }
}
