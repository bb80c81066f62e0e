// The four programs, from their command lines to their output files (boost::program_options is modelled).
#pragma clang diagnostic ignored "-Wreserved-user-defined-literal"
#include "sym.h"
#include "texts.h"
#include <cassert>
#include <cstdlib>
#include <cstdio>
#include <ctime>
#include <exception>
#include <iostream>
#include <iterator>
#include <algorithm>
#include <numeric>
#include <sstream>
#include <map>
#include <string>
#include <vector>
#include <boost/program_options.hpp>
#include "globaldefs.hpp"
#include "Profiling.hpp"
#include "Utils.hpp"
#include "Streams.hpp"
#include "EntropyCoders.hpp"
#include "Compressor.hpp"
#include "Decompressor.hpp"
#include "PrecompressorBlock.hpp"
#include "preprocessors/Precompressor.hpp"
#include "preprocessors/Postprocessor.hpp"
#include "bwtransforms/InverseBWT.hpp"
#include "bwtransforms/BWTManager.hpp"
extern "C" { void rt_stdin(const char* name); void rt_stdout(const char* name); void rt_stdout_pipe(const char* name); void rt_stdout_end(); }
namespace cli_compress {
#define main prog
#include "compress.cpp"
#undef main
}
namespace cli_uncompress {
#define main prog
#include "uncompress.cpp"
#undef main
}
namespace cli_preprocess {
#define main prog
#include "preprocess.cpp"
#undef main
}
namespace cli_postprocess {
#define main prog
#include "postprocess.cpp"
#undef main
}
namespace {
typedef std::vector<byte> Str;
struct Args { std::vector<std::string> s; std::vector<char*> v; Args& operator<<(const std::string& x){ s.push_back(x); return *this; } int c(){ return (int)s.size(); } char** a(){ v.clear(); for(size_t i=0;i<s.size();++i) v.push_back(&s[i][0]); v.push_back(0); return &v[0]; } };
// where the data comes from and goes to: files named on the command line, or standard input and output
void io(Args& a,const char* from,const char* to,int how){
  switch(how){ case 0: a<<from<<to; break; case 1: a<<std::string("--input-file=")+from<<"--output-file"<<to; break; case 2: rt_stdin(from); a<<"-i"<<"--output-file"<<to; break; case 3: rt_stdout(to); a<<from<<"-c"; break;
  case 4: rt_stdin(from); rt_stdout(to); a<<"--stdin"<<"--stdout"; break; default: rt_stdin(from); rt_stdout(to); break; }
}
void verb(Args& a){ static const char* V[]={"","-v1","--verb=2","--verb=3"}; int v=(int)sym_choice("verbosity",sym_param("verbs",1)); if(v) a<<V[v]; }
void same(const Str& t,const char* name){ sym_assert(rt_file_size(name)==t.size(),"the output file has the length of the input file"); Str b(t.size()+1); if(t.size()) rt_get_file(name,&b[0],0,t.size()); bool ok=true; for(size_t i=0;i<t.size();++i) ok&=b[i]==t[i]; sym_assert(ok,"the output file equals the input file"); }
void text(Str& t){ size_t len=sym_param("len",0); if(len){ scaffold(t,(int)sym_choice("pattern",sym_param("pats",2)),len,sym_param("syms",1),sym_param("k",2)); for(size_t i=0;i<t.size();++i) t[i]=(byte)sym_concretize(t[i]); if(sym_param("pairs",0)) for(size_t i=0;i<1300;++i){ t.push_back('q'); t.push_back('r'); } } else smallText(t,sym_choice("n",sym_param("n",3)+1),sym_param("k",2),0); byte none=0; rt_put_file("in",t.empty()?&none:&t[0],t.size()); }
}
// compress and uncompress
extern "C" void h_cli(){
  static const char* E[]={"","-eH","--enc=B","-e","--enc=m","--enc=M","--enc=u"}; static const char* B[]={"","--bwt=d","--bwt=s","--bwt=a"}; static const char* S[]={"","-s1","--starts=256","-s2"}; static const char* P[]={"","--prepr=p","--prepr=pp"}; static const char* M[]={"","-m1","--mem=0","--mem=5","--mem=5000"};
  Str t; text(t); Args c,d; c<<"compress"; int e=(int)sym_choice("encoding",sym_param("encs",7)); if(e) c<<E[e]; if(e==3) c<<"b"; int b=(int)sym_choice("bwt",sym_param("bwts",4)); if(b) c<<B[b]; int s=(int)sym_choice("starts",sym_param("starts",2)); if(s) c<<S[s]; int p=(int)sym_choice("prepr",sym_param("preprs",1)); if(p) c<<P[p]; int m=(int)sym_choice("mem",sym_param("mems",2)); if(m) c<<M[m];
  io(c,"in","z",(int)sym_choice("compress io",sym_param("ios",1))); verb(c); int rc=cli_compress::prog(c.c(),c.a()); sym_assert(rc==0,"compress accepts the options"); { static const char N[]="BHBbmMu"; byte first[1]={0}; if(rt_file_size("z")>0&&rt_file_size("z")!=~0ull) rt_get_file("z",first,0,1); sym_assert(first[0]==(byte)N[e],"the chosen encoding is used and named in the first byte"); }
  d<<"uncompress"; verb(d); io(d,"z","out",(int)sym_choice("uncompress io",sym_param("ios",1))); rc=cli_uncompress::prog(d.c(),d.a()); sym_assert(rc==0,"uncompress succeeds"); same(t,"out"); sym_reach("end");
}
// standard output may be a pipe
extern "C" void h_cli_pipe(){
  Str t; text(t); bool pre=sym_choice("program",sym_param("programs",2))!=0; for(int pass=0;pass<2;++pass){ Args c; c<<"program"; const char* z=pass?"piped":"z"; if(pass) rt_stdout_pipe(z); else rt_stdout(z); c<<"in"<<"-c"; int rc=pre?cli_preprocess::prog(c.c(),c.a()):cli_compress::prog(c.c(),c.a()); sym_assert(rc==0,"the program accepts the options"); rt_stdout_end(); }
  size_t n=rt_file_size("z"); Str z(n+1); rt_get_file("z",&z[0],0,n); z.resize(n); bool ok=rt_file_size("piped")==n; if(ok){ Str y(n+1); rt_get_file("piped",&y[0],0,n); for(size_t i=0;i<n;++i) ok&=y[i]==z[i]; } sym_assert(ok,pre?"preprocess writes the same bytes to a pipe as to a file":"compress writes the same bytes to a pipe as to a file"); sym_reach("end");
}
// preprocess and postprocess
extern "C" void h_cli_pre(){
  static const char* P[]={"--prepr=p","","--prepr=pp"}; static const char* B[]={"-b1","","--block=3","--block=4194304"};
  Str t; text(t); Args c,d; c<<"preprocess"; int p=(int)sym_choice("prepr",sym_param("preprs",3)); if(*P[p]) c<<P[p]; int b=(int)sym_choice("block",sym_param("blocks",3)); if(*B[b]) c<<B[b];
  io(c,"in","z",(int)sym_choice("preprocess io",sym_param("ios",1))); verb(c); int rc=cli_preprocess::prog(c.c(),c.a()); sym_assert(rc==0,"preprocess accepts the options");
  d<<"postprocess"; verb(d); io(d,"z","out",(int)sym_choice("postprocess io",sym_param("ios",1))); rc=cli_postprocess::prog(d.c(),d.a()); sym_assert(rc==0,"postprocess succeeds"); same(t,"out"); sym_reach("end");
}
// running the programs again keeps no memory
extern "C" void h_live_cli(){
  int pre=(int)sym_choice("program",2),v=(int)sym_choice("variant",sym_param("variants",3)); Str t; for(int i=0;i<1300;++i){ t.push_back('a'); t.push_back('b'); } t.push_back((byte)sym_concretize(symLetter(4,0))); if(v==2) t.resize(3);
  rt_put_file("in",&t[0],t.size()); rt_put_file("z",&t[0],t.size()); rt_put_file("out",&t[0],t.size()); uint64 live=0,bytes=0;
  for(int i=0;i<3;++i){
    { Args c,d; int rc; if(pre){ c<<"preprocess"<<"-b1"; if(v) c<<"--prepr=pp"; c<<"in"<<"z"; rc=cli_preprocess::prog(c.c(),c.a()); } else { c<<"compress"<<"-m1"<<(v==1?"--enc=H":"--enc=m"); if(v) c<<"--prepr=pp"; c<<"in"<<"z"; rc=cli_compress::prog(c.c(),c.a()); } sym_assert(rc==0,"the program accepts the options");
      if(pre){ d<<"postprocess"<<"z"<<"out"; rc=cli_postprocess::prog(d.c(),d.a()); } else { d<<"uncompress"<<"z"<<"out"; rc=cli_uncompress::prog(d.c(),d.a()); } sym_assert(rc==0,"the program succeeds"); }
    if(i==0){ live=sym_live(0); bytes=sym_live(1); } else { sym_assert(sym_live(0)<=live,"no object stays allocated after the work is done"); sym_assert(sym_live(1)<=bytes,"no memory stays allocated after the work is done"); } }
  same(t,"out"); sym_reach("end");
}
