// Interface between harnesses and the symbolic executor.  The same harness is
// compiled natively with native.cpp, which takes the values from a replay file.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include "Streams.hpp"
extern "C" {
uint64_t sym_u(const char* name,int bits);
uint64_t sym_choice(const char* name,uint64_t k);      // forks: concrete value in [0,k)
void sym_assume(bool c);
void sym_assert(bool c,const char* msg);
void sym_reach(const char* name);
uint64_t sym_concretize(uint64_t v);
int64_t sym_param(const char* name,int64_t dflt);
void sym_defined(const void* p,size_t n,const char* msg);
void sym_print(const char* msg,uint64_t v);
void sym_budget(uint64_t n);
void sym_dump(const void* p,size_t n);
uint64_t sym_live(int bytes);                           // live heap objects, or their bytes
void rt_put_file(const char* n,const unsigned char* p,uint64_t len);
uint64_t rt_file_size(const char* n);
void rt_get_file(const char* n,unsigned char* to,uint64_t off,uint64_t len);
}
using bwtc::byte; using bwtc::uint32; using bwtc::uint64;
static inline byte sym_byte(const char* n){ return (byte)sym_u(n,8); }

// In-memory streams implementing the abstract stream interfaces.  MemOut keeps
// everything that was written; MemIn reads it back, bit and byte accurate.
class MemOut : public bwtc::OutStream {
 public:
  std::vector<byte> d; size_t patches;
  MemOut():patches(0){ d.reserve(4096); }
  void writeByte(byte b){ d.push_back(b); }
  void writeBlock(const byte* b,const byte* e){ for(;b!=e;++b) d.push_back(*b); }
  long getPos(){ return (long)d.size(); }
  void write48bits(uint64 v,long pos){ ++patches; sym_assert(pos>=0&&(size_t)pos+6<=d.size(),"48-bit field lies inside the written data"); for(int i=0;i<6;++i) d[pos+i]=(byte)(v>>(8*(5-i))); }
  void flush(){}
};
class MemIn : public bwtc::InStream {
 public:
  const std::vector<byte>& d; size_t pos; int bits; uint16_t buf; size_t past;
  MemIn(const std::vector<byte>& v):d(v),pos(0),bits(0),buf(0),past(0){}
  byte next(){ if(pos<d.size()) return d[pos++]; ++past; return 0xff; }
  size_t readBlock(byte* to,size_t n){ sym_assert(bits==0,"block reads start at a byte boundary"); size_t i=0; for(;i<n&&pos<d.size();++i) to[i]=d[pos++]; return i; }
  bool readBit(){ if(bits==0){ buf=next(); bits=8; } return (buf>>--bits)&1; }
  byte readByte(){ byte n=next(); buf=(uint16_t)((buf<<8)|n); return (byte)((buf>>bits)&0xff); }
  void flushBuffer(){ bits=0; }
  uint64 read48bits(){ uint64 r=0; for(int i=0;i<6;++i) r=(r<<8)|next(); return r; }
  bool compressedDataEnding(){ return pos>=d.size(); }
  bool clean(){ return past==0; }
};
