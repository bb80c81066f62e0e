// Model of the part of boost::program_options that bwtc's programs use: long options "--name value" and
// "--name=value", short options "-n value" and "-nvalue", switches, positional arguments, defaults and notifiers.
// Malformed command lines are not modelled.
#pragma once
#include <string>
#include <vector>
#include <iostream>
#include <stdlib.h>
namespace boost { namespace program_options {
namespace model {
inline void parse(const std::string& s,std::string& v){ v=s; }
inline void parse(const std::string& s,char& v){ v=s.empty()?0:s[0]; }
inline void parse(const std::string& s,bool& v){ v=s=="1"||s=="true"||s=="yes"||s=="on"; }
template<class T> void parse(const std::string& s,T& v){ T r=0; size_t i=0; bool neg=i<s.size()&&s[i]=='-'; if(neg) ++i; for(;i<s.size();++i) r=r*10+(T)(s[i]-'0'); v=neg?(T)(0-r):r; }
struct Call { virtual ~Call(){} virtual void run(const void*)=0; };
template<class T,class F> struct CallF : Call { F f; CallF(F g):f(g){} void run(const void* p){ f(*(const T*)p); } };
}
struct value_semantic { bool given; value_semantic():given(false){} virtual ~value_semantic(){} virtual void take(const std::string& s)=0; virtual bool present() const=0; virtual void finish()=0; };
template<class T> struct typed_value : value_semantic {
  T* to; T val,dflt; bool has; model::Call* call; explicit typed_value(T* p):to(p),val(),dflt(),has(false),call(0){} ~typed_value(){ delete call; }
  typed_value* default_value(const T& v){ dflt=v; has=true; return this; }
  typed_value* default_value(const T& v,const std::string&){ return default_value(v); }
  template<class F> typed_value* notifier(F f){ call=new model::CallF<T,F>(f); return this; }
  typed_value* required(){ return this; } typed_value* value_name(const std::string&){ return this; }
  void take(const std::string& s){ model::parse(s,val); given=true; } bool present() const { return given||has; }
  void finish(){ if(!present()) return; const T& v=given?val:dflt; if(to) *to=v; if(call) call->run(&v); }
};
template<class T> typed_value<T>* value(T* p){ return new typed_value<T>(p); }
template<class T> typed_value<T>* value(){ return new typed_value<T>(0); }
struct option_description { std::string name; char brief; value_semantic* v; int count; };
class options_description {
  options_description(const options_description&); void operator=(const options_description&);
 public: std::vector<option_description> all;
  explicit options_description(const std::string&){} options_description(){}
  ~options_description(){ for(size_t i=0;i<all.size();++i) delete all[i].v; }
  struct easy_init { options_description* d; easy_init& operator()(const char* n,value_semantic* v,const char*){ option_description o; std::string s(n); size_t c=s.find(','); o.name=s.substr(0,c); o.brief=c==std::string::npos?0:s[c+1]; o.v=v; o.count=0; d->all.push_back(o); return *this; } easy_init& operator()(const char* n,const char* t){ return (*this)(n,(value_semantic*)0,t); } };
  easy_init add_options(){ easy_init e; e.d=this; return e; }
};
inline std::ostream& operator<<(std::ostream& o,const options_description&){ return o; }
struct positional_options_description { std::vector<std::string> names; positional_options_description& add(const char* n,int k){ for(int i=0;i<k;++i) names.push_back(n); return *this; } };
struct parsed_options { options_description* d; };
class command_line_parser {
  std::vector<std::string> a; options_description* d; const positional_options_description* p;
  void put(const std::string& n,const std::string& s){ for(size_t i=0;i<d->all.size();++i) if(d->all[i].name==n){ ++d->all[i].count; if(d->all[i].v) d->all[i].v->take(s); } }
 public: command_line_parser(int c,const char* const* v):d(0),p(0){ for(int i=1;i<c;++i) a.push_back(v[i]); }
  command_line_parser& options(options_description& x){ d=&x; return *this; }
  command_line_parser& positional(const positional_options_description& x){ p=&x; return *this; }
  parsed_options run(){ size_t at=0; for(size_t i=0;i<a.size();++i){ const std::string& s=a[i];
      if(s.size()>2&&s[0]=='-'&&s[1]=='-'){ size_t e=s.find('='); std::string n=s.substr(2,e==std::string::npos?e:e-2); bool val=false; for(size_t j=0;j<d->all.size();++j) if(d->all[j].name==n) val=d->all[j].v!=0; if(!val) put(n,""); else if(e!=std::string::npos) put(n,s.substr(e+1)); else if(++i<a.size()) put(n,a[i]); }
      else if(s.size()>1&&s[0]=='-'){ std::string n; bool val=false; for(size_t j=0;j<d->all.size();++j) if(d->all[j].brief==s[1]){ n=d->all[j].name; val=d->all[j].v!=0; } if(!val) put(n,""); else if(s.size()>2) put(n,s.substr(2)); else if(++i<a.size()) put(n,a[i]); }
      else if(p&&at<p->names.size()) put(p->names[at++],s); }
    parsed_options r; r.d=d; return r; }
};
class variables_map { public: options_description* d; variables_map():d(0){} size_t count(const std::string& n) const { for(size_t i=0;d&&i<d->all.size();++i) if(d->all[i].name==n) return d->all[i].v?(d->all[i].v->present()?1:0):(d->all[i].count?1:0); return 0; } };
inline void store(const parsed_options& o,variables_map& m){ m.d=o.d; }
inline void notify(variables_map& m){ for(size_t i=0;m.d&&i<m.d->all.size();++i) if(m.d->all[i].v) m.d->all[i].v->finish(); }
} }
