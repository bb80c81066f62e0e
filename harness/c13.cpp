// Slicing and headers.
#include "sym.h"
#include "PrecompressorBlock.hpp"
#include "BWTBlock.hpp"
#include <memory>
using namespace bwtc;
namespace {
void sliceCheck(PrecompressorBlock& pb,size_t n,size_t limit){
  pb.sliceIntoBlocks(limit); byte* at=pb.begin(); size_t sum=0; sym_assert((pb.slices()==0)==(n==0),"a non-empty block has slices");
  for(size_t i=0;i<pb.slices();++i){ BWTBlock& b=pb.getSlice((int)i); sym_assert(b.size()>0&&b.size()<=limit,"slices are non-empty and within the limit"); sym_assert(b.begin()==at,"slices are contiguous and in order"); sym_assert(!b.isTransformed(),"slices are not transformed yet"); at+=b.size(); sum+=b.size(); }
  sym_assert(sum==n&&at==pb.end(),"slices cover the block exactly");
}
}
extern "C" void h_slices(){
  size_t n=sym_choice("n",sym_param("n",12)+1); std::vector<byte> t; for(size_t i=0;i<n;++i) t.push_back(sym_byte("t")); MemIn in(t); size_t max=n+sym_choice("room",3); std::unique_ptr<PrecompressorBlock> pb(new PrecompressorBlock(max,&in));
  sym_assert(pb->size()==n&&pb->originalSize()==n,"block has the bytes that were there"); bool ok=true; for(size_t i=0;i<n;++i) ok&=pb->begin()[i]==t[i]; sym_assert(ok,"block content");
  size_t limit=1+sym_u("limit",(int)sym_param("w",5)); sliceCheck(*pb,n,limit); size_t again=1+sym_choice("again",3); sliceCheck(*pb,n,again); sym_reach("end");
}
// reading a block takes at most the limit and leaves the rest for the next one
extern "C" void h_read_blocks(){
  size_t n=sym_choice("n",sym_param("n",9)+1),lim=1+sym_choice("limit",sym_param("n",9)+1); std::vector<byte> t; for(size_t i=0;i<n;++i) t.push_back(sym_byte("t")); MemIn in(t); size_t at=0;
  for(;;){ PrecompressorBlock pb(lim,&in); sym_assert(pb.size()==std::min(lim,n-at)&&pb.originalSize()==pb.size(),"blocks are full up to the last one"); bool ok=true; for(size_t i=0;i<pb.size();++i) ok&=pb.begin()[i]==t[at+i]; sym_assert(ok,"blocks continue where the last one ended"); if(pb.size()==0) break; pb.begin()[pb.size()]=0; at+=pb.size(); }
  sym_assert(at==n,"all bytes are read"); sym_reach("end");
}
// block headers with sizes at the boundaries of the packed integers
extern "C" void h_block_header(){
  static const size_t N[]={1,127,128,129,255,256,16383,16384,16385,40000,2097151,2097152}; size_t n=N[sym_choice("size",sym_param("sizes",10))]; static const size_t L[]={0,1,128,127,129,1000,255,256,100000}; size_t d=L[sym_choice("limit",sym_param("limits",8))]; size_t limit=d?d:n; if(n/limit>70000) limit=n/300+1;
  std::vector<byte> t(n,'x'); MemIn src(t); PrecompressorBlock pb(n,&src); pb.sliceIntoBlocks(limit); MemOut o; size_t w=pb.writeBlockHeader(&o); sym_assert(w==o.d.size(),"header size is reported exactly"); size_t end=o.d.size(); byte tail=sym_byte("tail"); o.d.push_back(tail); size_t e=PrecompressorBlock::writeEmptyHeader(&o); sym_assert(e==o.d.size()-end-1,"size of the end marker is reported exactly");
  MemIn in(o.d); std::unique_ptr<PrecompressorBlock> r(PrecompressorBlock::readBlockHeader(&in)); in.flushBuffer(); sym_assert(in.pos==end&&in.past==0,"header reader consumes exactly the header"); sym_assert(r->originalSize()==n,"original size is read back"); sym_assert(r->slices()==pb.slices(),"slice count is read back"); sym_assert(r->size()==0,"decoded block starts empty"); sym_assert(r->grammar().numberOfRules()==0,"empty grammar");
  r->begin()[n]=1; sym_assert(in.readByte()==tail,"byte after the header is next"); std::unique_ptr<PrecompressorBlock> z(PrecompressorBlock::readBlockHeader(&in)); sym_assert(z->originalSize()==0&&in.pos==o.d.size(),"end marker is recognised"); sym_reach("end");
}
// the other kind of header: compressed size followed by the data
extern "C" void h_block_header2(){
  static const size_t N[]={1,2,127,128,300,16384}; size_t n=N[sym_choice("size",6)]; std::vector<byte> t(n,'y'); t[0]=sym_byte("a"); t[n-1]=sym_byte("z"); MemIn src(t); PrecompressorBlock pb(n+sym_choice("room",2),&src); size_t used=n>2?n-sym_choice("shrink",2):n; if(used!=n) pb.setSize(used); sym_assert(pb.size()==used&&pb.originalSize()==n,"sizes after shrinking");
  MemOut o; size_t w=pb.writeBlockHeader(&o,PRECOMP_COMPRESSED_SIZE); sym_assert(w==o.d.size(),"header size is reported exactly"); o.writeBlock(pb.begin(),pb.end()); size_t end=o.d.size(); PrecompressorBlock::writeEmptyHeader(&o);
  MemIn in(o.d); std::unique_ptr<PrecompressorBlock> r(PrecompressorBlock::readBlockHeader(&in,PRECOMP_COMPRESSED_SIZE)); sym_assert(in.pos==end,"reader consumes header and data"); sym_assert(r->size()==used,"size is read back"); bool ok=true; for(size_t i=0;i<used;++i) ok&=r->begin()[i]==t[i]; sym_assert(ok,"data is read back");
  std::unique_ptr<PrecompressorBlock> z(PrecompressorBlock::readBlockHeader(&in,PRECOMP_COMPRESSED_SIZE)); sym_assert(z->originalSize()==0,"end marker is recognised"); sym_reach("end");
}
// starting points of a transformed slice
extern "C" void h_points(){
  static const size_t C[]={1,2,3,4,7,8,9,16,31,32,33,64,100,127,128,129,200,254,255,256}; size_t c=sym_param("all",0)?1+sym_choice("count",256):C[sym_choice("count",20)]; byte x[4]; BWTBlock b(x,4,true); for(size_t i=0;i<c;++i) b.LFpowers().push_back((uint32)sym_u("lf",31));
  MemOut o; o.d.push_back(7); size_t w=b.writeHeader(&o); sym_assert(w==o.d.size()-1,"header size is reported exactly"); size_t end=o.d.size(); byte tail=sym_byte("tail"); o.d.push_back(tail); MemIn in(o.d); in.pos=1; BWTBlock r; r.LFpowers().assign(sym_choice("stale",2)*300,9); r.readHeader(&in); sym_assert(in.pos==end&&in.bits==0,"header reader consumes exactly the header");
  sym_assert(r.LFpowers().size()==c,"number of starting points"); bool ok=true; for(size_t i=0;i<c;++i) ok&=r.LFpowers()[i]==b.LFpowers()[i]; sym_assert(ok,"starting points are read back"); sym_assert(in.readByte()==tail,"byte after the header is next"); sym_reach("end");
}
extern "C" void h_prepare(){
  uint32 len=(uint32)sym_u("len",31),sp=(uint32)sym_u("sp",sym_param("w",10)); sym_assume(len>0); byte x[1]; BWTBlock b(x,len,false); b.prepareLFpowers(sp); size_t n=b.LFpowers().size(); sym_assert(n>=1&&n<=256,"1 to 256 starting points"); sym_assert(n<=len||n==1,"no more starting points than bytes"); sym_reach("end");
}
