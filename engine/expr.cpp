#include "expr.h"
std::vector<Var> g_vars; u32 g_modelEpoch=1,g_substEpoch=1; u64 g_fixedSupp=0,g_exprCount=0;
static std::vector<Expr*> tab(1<<16,(Expr*)0); static size_t ntab=0;
static char* arena=0; static size_t arenaLeft=0;
static Expr* allocE(){
  if(arenaLeft<sizeof(Expr)){ arenaLeft=1<<20; arena=(char*)malloc(arenaLeft); }
  Expr* e=(Expr*)arena; arena+=sizeof(Expr); arenaLeft-=sizeof(Expr); memset(e,0,sizeof *e); return e;
}
static u32 hsh(Kind k,int w,int lo,Expr*a,Expr*b,Expr*c,u64 v){
  u64 h=k*1000003ull+w*131+lo*7; h^=(u64)(a?a->id:0)*0x9E3779B97F4A7C15ull; h=(h<<13)|(h>>51); h^=(u64)(b?b->id:0)*0xC2B2AE3D27D4EB4Full;
  h=(h<<17)|(h>>47); h^=(u64)(c?c->id:0)*0x165667B19E3779F9ull; h^=v*0xD6E8FEB86659FD93ull; h^=h>>32; h*=0x9E3779B97F4A7C15ull; return (u32)(h>>32);
}
u64 foldBin(Kind k,u64 x,u64 y,int w){
  u64 m=msk(w);
  switch(k){
  case K_ADD: return (x+y)&m; case K_SUB: return (x-y)&m; case K_MUL: return (x*y)&m;
  case K_UDIV: return y?x/y:m; case K_UREM: return y?x%y:x;
  case K_SDIV: { i64 a=sx(x,w),b=sx(y,w); if(!b) return a<0?1:m; if(b==-1) return (0-x)&m; return (u64)(a/b)&m; }
  case K_SREM: { i64 a=sx(x,w),b=sx(y,w); if(!b) return x; if(b==-1) return 0; return (u64)(a%b)&m; }
  case K_AND: return x&y; case K_OR: return x|y; case K_XOR: return x^y;
  case K_SHL: return y>=(u64)w?0:(x<<y)&m; case K_LSHR: return y>=(u64)w?0:x>>y;
  case K_ASHR: { i64 a=sx(x,w); return (u64)(y>=(u64)w?(a<0?-1:0):(a>>y))&m; }
  case K_EQ: return x==y; case K_ULT: return x<y; case K_ULE: return x<=y;
  case K_SLT: return sx(x,w)<sx(y,w); case K_SLE: return sx(x,w)<=sx(y,w);
  default: abort();
  }
}
static inline bool isCmp(Kind k){ return k>=K_EQ&&k<=K_SLE; }
static void ranges(Expr* e){
  u64 m=msk(e->w); e->zeros=~m; e->umin=0; e->umax=m;
  Expr *a=e->a,*b=e->b,*c=e->c;
  switch(e->k){
  case K_CONST: e->zeros=~e->v; e->umin=e->umax=e->v; return;
  case K_VAR: return;
  case K_ADD: if(a->umax<=m-b->umax){ e->umin=a->umin+b->umin; e->umax=a->umax+b->umax; } break;
  case K_SUB: if(a->umin>=b->umax){ e->umin=a->umin-b->umax; e->umax=a->umax-b->umin; } break;
  case K_MUL: { unsigned __int128 p=(unsigned __int128)a->umax*b->umax; if(p<=m){ e->umax=(u64)p; e->umin=a->umin*b->umin; } 
    int tz=0; u64 za=a->zeros,zb=b->zeros; int ta=za==~0ull?64:__builtin_ctzll(~za), tb=zb==~0ull?64:__builtin_ctzll(~zb); tz=std::min(63,ta+tb); e->zeros|=(1ull<<tz)-1; break; }
  case K_UDIV: if(b->umin){ e->umax=a->umax/b->umin; e->umin=a->umin/b->umax; } break;
  case K_UREM: if(b->umin){ e->umax=std::min(a->umax,b->umax-1); } break;
  case K_AND: e->zeros|=a->zeros|b->zeros; e->umax=std::min(a->umax,b->umax); break;
  case K_OR: e->zeros|=a->zeros&b->zeros; e->umin=std::max(a->umin,b->umin); break;
  case K_XOR: e->zeros|=a->zeros&b->zeros; break;
  case K_SHL: if(b->k==K_CONST&&b->v<64){ e->zeros|=(a->zeros<<b->v)|((1ull<<b->v)-1); if(a->umax<=(m>>b->v)){ e->umin=a->umin<<b->v; e->umax=a->umax<<b->v; } } break;
  case K_LSHR: if(b->k==K_CONST&&b->v<(u64)e->w){ e->zeros|=((a->zeros|~m)>>b->v)|~(m>>b->v); e->umin=a->umin>>b->v; e->umax=a->umax>>b->v; } else e->umax=a->umax; break;
  case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: break;
  case K_ITE: e->zeros|=b->zeros&c->zeros; e->umin=std::min(b->umin,c->umin); e->umax=std::max(b->umax,c->umax); break;
  case K_ZEXT: e->zeros|=a->zeros; e->umin=a->umin; e->umax=a->umax; break;
  case K_SEXT: if(a->umax<(1ull<<(a->w-1))){ e->zeros|=a->zeros; e->umin=a->umin; e->umax=a->umax; } break;
  case K_EXTRACT: e->zeros|=(a->zeros>>e->lo)|~m; if(e->lo==0&&a->umax<=m){ e->umin=a->umin; e->umax=a->umax; } break;
  case K_CONCAT: e->zeros=(~m)|((a->zeros<<b->w)&m&~msk(b->w))|(b->zeros&msk(b->w)); e->umin=(a->umin<<b->w)+b->umin; e->umax=(a->umax<<b->w)+b->umax; break;
  default: break;
  }
  u64 zm=~e->zeros; if(zm<e->umax) e->umax=zm;
  if(e->umax<m){ int lz=e->umax?64-__builtin_clzll(e->umax):0; e->zeros|=~msk(lz); }
  if(e->umin>e->umax) e->umin=0;
}
static Expr* intern(Kind k,int w,int lo,Expr*a,Expr*b,Expr*c,u64 v){
  u32 h=hsh(k,w,lo,a,b,c,v);
  for(Expr* e=tab[h&(tab.size()-1)];e;e=e->next)
    if(e->hash==h&&e->k==k&&e->w==w&&e->lo==lo&&e->a==a&&e->b==b&&e->c==c&&e->v==v) return e;
  if(ntab>tab.size()){
    std::vector<Expr*> nt(tab.size()*2,(Expr*)0);
    for(Expr* l: tab) while(l){ Expr* n=l->next; Expr*& s=nt[l->hash&(nt.size()-1)]; l->next=s; s=l; l=n; }
    tab.swap(nt);
  }
  Expr* e=allocE(); e->k=k; e->w=w; e->lo=lo; e->a=a; e->b=b; e->c=c; e->v=v; e->hash=h; e->id=(u32)++g_exprCount;
  e->onevar=-2;
  Expr* ch[3]={a,b,c};
  for(Expr* x: ch) if(x){ e->supp|=x->supp; e->undef|=x->undef; if(x->onevar!=-2){ if(e->onevar==-2) e->onevar=x->onevar; else if(e->onevar!=x->onevar) e->onevar=-1; } }
  if(k==K_CONST) e->ctree=1;
  if(k==K_ITE&&b->ctree&&c->ctree&&b->ctree+c->ctree<=24) e->ctree=b->ctree+c->ctree;
  ranges(e);
  Expr*& s=tab[h&(tab.size()-1)]; e->next=s; s=e; ++ntab;
  return e;
}
Expr* mkConst(u64 v,int w){ return intern(K_CONST,w,0,0,0,0,v&msk(w)); }
Expr* mkVar(const std::string& name,int w,bool undef,bool input){
  Var V; V.name=name; V.w=w; V.undef=undef; V.input=input; V.fixed=false; V.fval=0; V.multi=false; V.model=0;
  for(int i=0;i<4;++i) V.dom[i]=0;
  if(w<=8) for(int i=0;i<(1<<w);++i) V.dom[i>>6]|=1ull<<(i&63);
  int idx=g_vars.size(); Expr* e=intern(K_VAR,w,0,0,0,0,idx);
  e->supp=1ull<<(idx&63); e->onevar=idx; e->undef=undef; V.e=e; g_vars.push_back(V); return e;
}
static bool isNot(Expr* a,Expr** x){ if(a->w==1&&a->k==K_XOR&&a->b->k==K_CONST){ *x=a->a; return true; } return false; }
static bool complementary(Expr* a,Expr* b){
  Expr* x; if(isNot(a,&x)&&x==b) return true; if(isNot(b,&x)&&x==a) return true;
  if(a->k==K_ULT&&b->k==K_ULE&&a->a==b->b&&a->b==b->a) return true;
  if(a->k==K_ULE&&b->k==K_ULT&&a->a==b->b&&a->b==b->a) return true;
  if(a->k==K_SLT&&b->k==K_SLE&&a->a==b->b&&a->b==b->a) return true;
  if(a->k==K_SLE&&b->k==K_SLT&&a->a==b->b&&a->b==b->a) return true;
  return false;
}
static Expr* liftBin(Kind k,Expr* t,Expr* kst,bool treeLeft){
  if(t->k==K_CONST) return treeLeft?mkBin(k,t,kst):mkBin(k,kst,t);
  return mkIte(t->a,liftBin(k,t->b,kst,treeLeft),liftBin(k,t->c,kst,treeLeft));
}
Expr* mkBin(Kind k,Expr* a,Expr* b){
  int w=a->w;
  if(a->k==K_CONST&&b->k==K_CONST) return mkConst(foldBin(k,a->v,b->v,w),isCmp(k)?1:w);
  u64 m=msk(w);
  if(w==1&&isCmp(k)){ // boolean comparisons
    switch(k){
    case K_EQ: return mkNot(mkBin(K_XOR,a,b));
    case K_ULT: case K_SLE: if(k==K_SLE) break; return mkBin(K_AND,mkNot(a),b);
    case K_ULE: return mkBin(K_OR,mkNot(a),b);
    default: break; }
  }
  // canonical: constant on the right for commutative operators
  if(k==K_ADD||k==K_MUL||k==K_AND||k==K_OR||k==K_XOR||k==K_EQ){
    if(a->k==K_CONST||(b->k!=K_CONST&&a->id>b->id)) std::swap(a,b);
  }
  if(w==1){
    if(a->dec&&a->k!=K_CONST&&(k==K_AND||k==K_OR||k==K_XOR)) return mkBin(k,mkConst(a->dec==1,1),b);
    if(b->dec&&b->k!=K_CONST&&(k==K_AND||k==K_OR||k==K_XOR)) return mkBin(k,a,mkConst(b->dec==1,1));
  }
  bool cb=b->k==K_CONST, ca=a->k==K_CONST; u64 v=cb?b->v:0;
  switch(k){
  case K_ADD:
    if(cb&&v==0) return a;
    if(cb&&a->k==K_ADD&&a->b->k==K_CONST) return mkBin(K_ADD,a->a,mkConst(a->b->v+v,w));
    if(cb&&a->k==K_SUB&&a->a->k==K_CONST) return mkBin(K_SUB,mkConst(a->a->v+v,w),a->b);
    if(!cb&&a->k==K_ADD&&a->b->k==K_CONST) return mkBin(K_ADD,mkBin(K_ADD,a->a,b),a->b);
    if(!cb&&b->k==K_ADD&&b->b->k==K_CONST) return mkBin(K_ADD,mkBin(K_ADD,a,b->a),b->b);
    if(a->k==K_SUB&&a->b==b) return a->a;
    if(b->k==K_SUB&&b->b==a) return b->a;
    if((a->zeros|b->zeros)==~0ull&&!cb) return mkBin(K_OR,a,b);
    break;
  case K_SUB:
    if(cb) return mkBin(K_ADD,a,mkConst(0-v,w));
    if(a==b) return mkConst(0,w);
    if(a->k==K_ADD&&a->a==b) return a->b; if(a->k==K_ADD&&a->b==b) return a->a;
    if(a->k==K_ADD&&a->b->k==K_CONST&&b->k==K_ADD&&b->b->k==K_CONST) return mkBin(K_ADD,mkBin(K_SUB,a->a,b->a),mkConst(a->b->v-b->b->v,w));
    if(a->k==K_ADD&&a->b->k==K_CONST) return mkBin(K_ADD,mkBin(K_SUB,a->a,b),a->b);
    if(b->k==K_ADD&&b->b->k==K_CONST) return mkBin(K_ADD,mkBin(K_SUB,a,b->a),mkConst(0-b->b->v,w));
    break;
  case K_MUL:
    if(cb&&v==0) return b; if(cb&&v==1) return a;
    if(cb&&(v&(v-1))==0) return mkBin(K_SHL,a,mkConst(__builtin_ctzll(v),w));
    if(w==1) return mkBin(K_AND,a,b);
    break;
  case K_UDIV: if(cb&&v==1) return a; if(cb&&v&&(v&(v-1))==0) return mkBin(K_LSHR,a,mkConst(__builtin_ctzll(v),w)); if(b->umin&&a->umax<b->umin) return mkConst(0,w); break;
  case K_UREM: if(cb&&v&&(v&(v-1))==0) return mkBin(K_AND,a,mkConst(v-1,w)); if(b->umin&&a->umax<b->umin) return a; break;
  case K_SDIV: if(cb&&v==1) return a; if(a->umax<=m/2&&b->umax<=m/2) return mkBin(K_UDIV,a,b); break;
  case K_SREM: if(a->umax<=m/2&&b->umax<=m/2) return mkBin(K_UREM,a,b); break;
  case K_AND:
    if(cb&&v==0) return b; if(cb&&v==m) return a; if(a==b) return a;
    if(cb&&((~v)&~a->zeros&m)==0) return a;
    if((a->zeros|b->zeros)==~0ull) return mkConst(0,w);
    if(w==1){ if(complementary(a,b)) return mkConst(0,1);
      if(a->k==K_AND&&(a->a==b||a->b==b)) return a; if(b->k==K_AND&&(b->a==a||b->b==a)) return b;
      if(a->k==K_OR&&(a->a==b||a->b==b)) return b; if(b->k==K_OR&&(b->a==a||b->b==a)) return a; }
    if(cb&&a->k==K_AND&&a->b->k==K_CONST) return mkBin(K_AND,a->a,mkConst(a->b->v&v,w));
    if(cb&&w>1&&(v&(v+1))==0){ int n=64-__builtin_clzll(v); return mkZext(mkExtract(a,0,n),w); }
    if(cb&&a->k==K_CONCAT){ int lw=a->b->w; return mkConcat(mkBin(K_AND,a->a,mkConst(v>>lw,a->a->w)),mkBin(K_AND,a->b,mkConst(v,lw))); }
    if(cb&&a->k==K_ZEXT) return mkZext(mkBin(K_AND,a->a,mkConst(v,a->a->w)),w);
    if(cb&&w>1&&!(a->k==K_ITE&&a->ctree)){ // constant mask with few contiguous segments: pieces and zeros
      int segs=0; u64 t=v; int pos=0,st[4],ln[4];
      while(pos<w&&segs<=3){ u64 r=v>>pos; if(!r) break; pos+=__builtin_ctzll(r); r=v>>pos; int l=(~r)?__builtin_ctzll(~r):64; if(l>w-pos) l=w-pos; if(segs<3){ st[segs]=pos; ln[segs]=l; } ++segs; pos+=l; }
      if(segs<=3){ Expr* r=0; int at=0; for(int i=0;i<segs;++i){ if(st[i]>at){ Expr* z=mkConst(0,st[i]-at); r=r?mkConcat(z,r):z; } Expr* p=mkExtract(a,st[i],ln[i]); r=r?mkConcat(p,r):p; at=st[i]+ln[i]; }
        return mkZext(r,w); } }
    break;
  case K_OR:
    if(cb&&v==0) return a; if(cb&&v==m) return b; if(a==b) return a;
    if(w==1){ if(complementary(a,b)) return mkConst(1,1);
      if(a->k==K_OR&&(a->a==b||a->b==b)) return a; if(b->k==K_OR&&(b->a==a||b->b==a)) return b;
      if(a->k==K_AND&&(a->a==b||a->b==b)) return b; if(b->k==K_AND&&(b->a==a||b->b==a)) return a; }
    if(cb&&a->k==K_OR&&a->b->k==K_CONST) return mkBin(K_OR,a->a,mkConst(a->b->v|v,w));
    if(w>1){ // disjoint pieces -> concat
      for(int s=0;s<2;++s){ Expr*x=s?b:a,*y=s?a:b;
        // x occupies low n bits only, y has zero low n bits
        u64 xz=~x->zeros&m; int n=xz?64-__builtin_clzll(xz):0;
        if(n>0&&n<w&&(~y->zeros&msk(n))==0) return mkConcat(mkExtract(y,n,w-n),mkExtract(x,0,n)); }
      for(int s=0;s<2;++s){ Expr*x=s?b:a,*y=s?a:b; u64 xz=~x->zeros&m; if(!xz||x->k==K_CONST) continue; int lo=__builtin_ctzll(xz),hi=64-__builtin_clzll(xz);
        u64 hole=(msk(hi)&~(lo?msk(lo):0)); if((~y->zeros&hole)==0&&(lo>0||hi<w)){ Expr* r=mkExtract(x,lo,hi-lo); if(lo) r=mkConcat(r,mkExtract(y,0,lo)); if(hi<w) r=mkConcat(mkExtract(y,hi,w-hi),r); return r; } } }
    if(a->k==K_CONCAT&&b->k==K_CONCAT&&a->b->w==b->b->w) return mkConcat(mkBin(K_OR,a->a,b->a),mkBin(K_OR,a->b,b->b));
    if(cb&&a->k==K_CONCAT){ int lw=a->b->w; return mkConcat(mkBin(K_OR,a->a,mkConst(v>>lw,a->a->w)),mkBin(K_OR,a->b,mkConst(v,lw))); }
    break;
  case K_XOR:
    if(cb&&v==0) return a; if(a==b) return mkConst(0,w);
    if(cb&&a->k==K_XOR&&a->b->k==K_CONST) return mkBin(K_XOR,a->a,mkConst(a->b->v^v,w));
    if(w==1){
      if(complementary(a,b)) return mkConst(1,1);
      if(cb){ switch(a->k){ case K_ULT: return mkBin(K_ULE,a->b,a->a); case K_ULE: return mkBin(K_ULT,a->b,a->a);
        case K_SLT: return mkBin(K_SLE,a->b,a->a); case K_SLE: return mkBin(K_SLT,a->b,a->a);
        case K_ITE: return mkIte(a->a,mkNot(a->b),mkNot(a->c)); default: break; } }
      Expr* x; if(!cb&&isNot(a,&x)) return mkNot(mkBin(K_XOR,x,b)); if(!cb&&isNot(b,&x)) return mkNot(mkBin(K_XOR,a,x));
    } else if(cb&&a->k==K_CONCAT){ int lw=a->b->w; return mkConcat(mkBin(K_XOR,a->a,mkConst(v>>lw,a->a->w)),mkBin(K_XOR,a->b,mkConst(v,lw))); }
    break;
  case K_SHL:
    if(cb&&v==0) return a; if(cb&&v>=(u64)w) return mkConst(0,w);
    if(ca&&a->v==0) return a;
    if(cb) return mkConcat(mkExtract(a,0,w-v),mkConst(0,v));
    break;
  case K_LSHR:
    if(cb&&v==0) return a; if(cb&&v>=(u64)w) return mkConst(0,w); if(ca&&a->v==0) return a;
    if(cb) return mkZext(mkExtract(a,v,w-v),w);
    break;
  case K_ASHR:
    if(cb&&v==0) return a; if(ca&&a->v==0) return a;
    if(a->umax<=m/2) return mkBin(K_LSHR,a,b);
    if(cb){ if(v>=(u64)w) v=w-1; return mkSext(mkExtract(a,v,w-v),w); }
    break;
  case K_EQ:
    if(a==b) return mkConst(1,1);
    if(a->umax<b->umin||b->umax<a->umin) return mkConst(0,1);
    if(cb){
      if(v&a->zeros) return mkConst(0,1);
      if(a->k==K_ADD&&a->b->k==K_CONST) return mkBin(K_EQ,a->a,mkConst(v-a->b->v,w));
      if(a->k==K_SUB&&a->a->k==K_CONST) return mkBin(K_EQ,a->b,mkConst(a->a->v-v,w));
      if(a->k==K_SUB&&v==0) return mkBin(K_EQ,a->a,a->b);
      if(a->k==K_XOR&&a->b->k==K_CONST) return mkBin(K_EQ,a->a,mkConst(v^a->b->v,w));
      if(a->k==K_XOR&&v==0) return mkBin(K_EQ,a->a,a->b);
      if(a->k==K_ZEXT) return (v>>a->a->w)?mkConst(0,1):mkBin(K_EQ,a->a,mkConst(v,a->a->w));
      if(a->k==K_SEXT){ u64 t=v&msk(a->a->w); return ((u64)sx(t,a->a->w)&m)==v?mkBin(K_EQ,a->a,mkConst(t,a->a->w)):mkConst(0,1); }
      if(a->k==K_CONCAT) return mkBin(K_AND,mkBin(K_EQ,a->a,mkConst(v>>a->b->w,a->a->w)),mkBin(K_EQ,a->b,mkConst(v,a->b->w)));
      if(a->k==K_MUL&&a->b->k==K_CONST&&(a->b->v&1)){ u64 inv=1,x=a->b->v; for(int i=0;i<6;++i) inv*=2-x*inv; return mkBin(K_EQ,a->a,mkConst(v*inv,w)); }
      if(a->k==K_ITE&&(a->b->k==K_CONST||a->c->k==K_CONST)) return mkIte(a->a,mkBin(K_EQ,a->b,b),mkBin(K_EQ,a->c,b));
    } else {
      if(a->k==K_ZEXT&&b->k==K_ZEXT&&a->a->w==b->a->w) return mkBin(K_EQ,a->a,b->a);
      if(a->k==K_ADD&&b->k==K_ADD&&a->b==b->b) return mkBin(K_EQ,a->a,b->a);
      if(a->k==K_CONCAT&&b->k==K_CONCAT&&a->b->w==b->b->w) return mkBin(K_AND,mkBin(K_EQ,a->a,b->a),mkBin(K_EQ,a->b,b->b));
      if(a->k==K_ITE&&b->k==K_ITE&&a->a==b->a) return mkIte(a->a,mkBin(K_EQ,a->b,b->b),mkBin(K_EQ,a->c,b->c));
    }
    break;
  case K_ULT:
    if(a==b) return mkConst(0,1);
    if(a->umax<b->umin) return mkConst(1,1); if(a->umin>=b->umax) return mkConst(0,1);
    if(cb&&v==1) return mkBin(K_EQ,a,mkConst(0,w));
    if(a->k==K_ZEXT&&b->k==K_ZEXT&&a->a->w==b->a->w) return mkBin(k,a->a,b->a);
    if(cb&&a->k==K_ZEXT) return mkBin(k,a->a,mkConst(v,a->a->w));   // v<=umax handled by range above
    if(ca&&b->k==K_ZEXT) return mkBin(k,mkConst(a->v,b->a->w),b->a);
    break;
  case K_ULE:
    if(a==b) return mkConst(1,1);
    if(a->umax<=b->umin) return mkConst(1,1); if(a->umin>b->umax) return mkConst(0,1);
    if(cb&&v==0) return mkBin(K_EQ,a,b);
    if(a->k==K_ZEXT&&b->k==K_ZEXT&&a->a->w==b->a->w) return mkBin(k,a->a,b->a);
    if(cb&&a->k==K_ZEXT) return mkBin(k,a->a,mkConst(v,a->a->w));
    if(ca&&b->k==K_ZEXT) return mkBin(k,mkConst(a->v,b->a->w),b->a);
    break;
  case K_SLT: if(a==b) return mkConst(0,1); if(a->umax<=m/2&&b->umax<=m/2) return mkBin(K_ULT,a,b);
    if(cb&&v==0&&w>1) return mkExtract(a,w-1,1);
    if(ca&&a->v==m&&w>1) return mkNot(mkExtract(b,w-1,1));
    if(a->k==K_SEXT&&b->k==K_SEXT&&a->a->w==b->a->w) return mkBin(K_SLT,a->a,b->a);
    break;
  case K_SLE: if(a==b) return mkConst(1,1); if(a->umax<=m/2&&b->umax<=m/2) return mkBin(K_ULE,a,b);
    if(ca&&a->v==0&&w>1) return mkNot(mkExtract(b,w-1,1));
    if(cb&&v==m&&w>1) return mkExtract(a,w-1,1);
    break;
  default: break;
  }
  // lift constants into small constant ite trees
  if(w>1||isCmp(k)){
    if(cb&&a->k==K_ITE&&a->ctree) return liftBin(k,a,b,true);
    if(ca&&b->k==K_ITE&&b->ctree) return liftBin(k,b,a,false);
  }
  return intern(k,isCmp(k)?1:w,0,a,b,0,0);
}
Expr* mkIte(Expr* c,Expr* a,Expr* b){
  if(c->k==K_CONST) return c->v?a:b;
  if(a==b) return a;
  if(c->dec) return c->dec==1?a:b;
  Expr* x; if(isNot(c,&x)) return mkIte(x,b,a);
  int w=a->w;
  if(a->k==K_ITE&&a->a==c) return mkIte(c,a->b,b);
  if(b->k==K_ITE&&b->a==c) return mkIte(c,a,b->c);
  if(w==1){
    if(a->k==K_CONST&&b->k==K_CONST) return a->v?c:mkNot(c);
    if(a->k==K_CONST) return a->v?mkBin(K_OR,c,b):mkBin(K_AND,mkNot(c),b);
    if(b->k==K_CONST) return b->v?mkBin(K_OR,mkNot(c),a):mkBin(K_AND,c,a);
    if(a==c) return mkBin(K_OR,c,b); if(b==c) return mkBin(K_AND,c,a);
  } else {
    if(a->k==K_ITE&&a->c==b) return mkIte(mkBin(K_AND,c,a->a),a->b,b);
    if(a->k==K_ITE&&a->b==b) return mkIte(mkBin(K_AND,c,mkNot(a->a)),a->c,b);
    if(b->k==K_ITE&&b->b==a) return mkIte(mkBin(K_OR,c,b->a),a,b->c);
    if(b->k==K_ITE&&b->c==a) return mkIte(mkBin(K_OR,c,mkNot(b->a)),a,b->b);
    if(a->k==K_ZEXT&&b->k==K_ZEXT&&a->a->w==b->a->w) return mkZext(mkIte(c,a->a,b->a),w);
    if(a->k==K_ZEXT&&b->k==K_CONST&&a->a->w>1&&(b->v>>a->a->w)==0) return mkZext(mkIte(c,a->a,mkConst(b->v,a->a->w)),w);
    if(b->k==K_ZEXT&&a->k==K_CONST&&b->a->w>1&&(a->v>>b->a->w)==0) return mkZext(mkIte(c,mkConst(a->v,b->a->w),b->a),w);
  }
  return intern(K_ITE,w,0,c,a,b,0);
}
static Expr* liftExt(Expr* t,int w,bool s){ if(t->k==K_CONST) return mkConst(s?(u64)sx(t->v,t->w):t->v,w); return mkIte(t->a,liftExt(t->b,w,s),liftExt(t->c,w,s)); }
Expr* mkZext(Expr* a,int w){
  if(a->w==w) return a;
  if(a->k==K_CONST) return mkConst(a->v,w);
  if(a->k==K_ZEXT) return mkZext(a->a,w);
  if(a->k==K_ITE&&a->ctree) return liftExt(a,w,false);
  return intern(K_ZEXT,w,0,a,0,0,0);
}
Expr* mkSext(Expr* a,int w){
  if(a->w==w) return a;
  if(a->k==K_CONST) return mkConst((u64)sx(a->v,a->w),w);
  if(a->w>1&&a->umax<(1ull<<(a->w-1))) return mkZext(a,w);
  if(a->k==K_SEXT) return mkSext(a->a,w);
  if(a->k==K_ITE&&a->ctree) return liftExt(a,w,true);
  if(a->w==1) return mkIte(a,mkConst(~0ull,w),mkConst(0,w));
  return intern(K_SEXT,w,0,a,0,0,0);
}
static Expr* liftExtract(Expr* t,int lo,int w){ if(t->k==K_CONST) return mkConst(t->v>>lo,w); return mkIte(t->a,liftExtract(t->b,lo,w),liftExtract(t->c,lo,w)); }
Expr* mkExtract(Expr* a,int lo,int w){
  if(lo==0&&w==a->w) return a;
  if(a->k==K_CONST) return mkConst(a->v>>lo,w);
  if(((~a->zeros>>lo)&msk(w))==0) return mkConst(0,w);
  switch(a->k){
  case K_EXTRACT: return mkExtract(a->a,a->lo+lo,w);
  case K_ZEXT: if(lo>=a->a->w) return mkConst(0,w); if(lo+w<=a->a->w) return mkExtract(a->a,lo,w); return mkZext(mkExtract(a->a,lo,a->a->w-lo),w);
  case K_SEXT: if(lo+w<=a->a->w) return mkExtract(a->a,lo,w); if(lo<a->a->w) return mkSext(mkExtract(a->a,lo,a->a->w-lo),w); break;
  case K_CONCAT: { int lw=a->b->w; if(lo+w<=lw) return mkExtract(a->b,lo,w); if(lo>=lw) return mkExtract(a->a,lo-lw,w);
    return mkConcat(mkExtract(a->a,0,w-(lw-lo)),mkExtract(a->b,lo,lw-lo)); }
  case K_ITE: if(a->ctree) return liftExtract(a,lo,w);
    if(a->b->k==K_CONST||a->c->k==K_CONST||(a->b->k==K_CONCAT&&a->c->k==K_CONCAT)) return mkIte(a->a,mkExtract(a->b,lo,w),mkExtract(a->c,lo,w));
    break;
  case K_AND: case K_OR: case K_XOR: if(a->b->k==K_CONST||lo>0||w==1) return mkBin(a->k,mkExtract(a->a,lo,w),mkExtract(a->b,lo,w)); break;
  case K_ADD: case K_SUB: case K_MUL: if(lo==0&&w>1) return mkBin(a->k,mkExtract(a->a,0,w),mkExtract(a->b,0,w)); 
    if(lo==0&&w==1&&a->k!=K_MUL) return mkBin(K_XOR,mkExtract(a->a,0,1),mkExtract(a->b,0,1)); break;
  default: break;
  }
  return intern(K_EXTRACT,w,lo,a,0,0,0);
}
Expr* mkConcat(Expr* h,Expr* l){
  if(h->w==0) return l; 
  int w=h->w+l->w;
  if(h->k==K_CONST&&l->k==K_CONST) return mkConst((h->v<<l->w)|l->v,w);
  if(h->k==K_CONST&&h->v==0) return mkZext(l,w);
  if(h->k==K_ZEXT) return mkZext(mkConcat(h->a,l),w);
  if(l->k==K_CONCAT){ // right-nested to left-nested: (h . (x . y)) -> ((h . x) . y) when h.x merges
    Expr* t=mkConcat(h,l->a); if(t->k!=K_CONCAT||t->a!=h) return mkConcat(t,l->b); }
  Expr* hl=h->k==K_CONCAT?h->b:h;
  if(hl->k==K_EXTRACT&&l->k==K_EXTRACT&&hl->a==l->a&&hl->lo==l->lo+l->w){
    Expr* m=mkExtract(l->a,l->lo,hl->w+l->w); return h->k==K_CONCAT?mkConcat(h->a,m):m; }
  if(hl->k==K_EXTRACT&&hl->a==l&&hl->lo==l->w) { Expr* m=mkExtract(l,0,hl->w+l->w); return h->k==K_CONCAT?mkConcat(h->a,m):m; }
  if(h->k==K_ITE&&l->k==K_ITE&&h->a==l->a) return mkIte(h->a,mkConcat(h->b,l->b),mkConcat(h->c,l->c));
  if(h->k==K_ITE&&h->ctree&&l->k==K_CONST) return mkIte(h->a,mkConcat(h->b,l),mkConcat(h->c,l));
  if(l->k==K_ITE&&l->ctree&&h->k==K_CONST) return mkIte(l->a,mkConcat(h,l->b),mkConcat(h,l->c));
  return intern(K_CONCAT,w,0,h,l,0,0);
}
u64 evalExpr(Expr* e){
  if(e->k==K_CONST) return e->v;
  if(e->k==K_VAR) return g_vars[e->v].model;
  if(e->mepoch==g_modelEpoch) return e->mval;
  u64 r;
  switch(e->k){
  case K_ITE: r=evalExpr(e->a)?evalExpr(e->b):evalExpr(e->c); break;
  case K_ZEXT: r=evalExpr(e->a); break;
  case K_SEXT: r=(u64)sx(evalExpr(e->a),e->a->w)&msk(e->w); break;
  case K_EXTRACT: r=(evalExpr(e->a)>>e->lo)&msk(e->w); break;
  case K_CONCAT: { u64 h=evalExpr(e->a); r=(h<<e->b->w)|evalExpr(e->b); break; }
  default: { u64 x=evalExpr(e->a),y=evalExpr(e->b); r=foldBin(e->k,x,y,e->a->w); }
  }
  e->mval=r; e->mepoch=g_modelEpoch; return r;
}
Expr* substFixed(Expr* e){
  if(!(e->supp&g_fixedSupp)) return e;
  if(e->k==K_VAR) return g_vars[e->v].fixed?mkConst(g_vars[e->v].fval,e->w):e;
  if(e->sepoch==g_substEpoch) return e->sub;
  Expr* r;
  switch(e->k){
  case K_CONST: r=e; break;
  case K_ITE: { Expr* c=substFixed(e->a); if(c->k==K_CONST) r=substFixed(c->v?e->b:e->c); else { Expr*x=substFixed(e->b),*y=substFixed(e->c); r=(c==e->a&&x==e->b&&y==e->c&&!c->dec)?e:mkIte(c,x,y); } break; }
  case K_ZEXT: { Expr* x=substFixed(e->a); r=x==e->a?e:mkZext(x,e->w); break; }
  case K_SEXT: { Expr* x=substFixed(e->a); r=x==e->a?e:mkSext(x,e->w); break; }
  case K_EXTRACT: { Expr* x=substFixed(e->a); r=x==e->a?e:mkExtract(x,e->lo,e->w); break; }
  case K_CONCAT: { Expr*x=substFixed(e->a),*y=substFixed(e->b); r=(x==e->a&&y==e->b)?e:mkConcat(x,y); break; }
  default: { Expr*x=substFixed(e->a),*y=substFixed(e->b); r=(x==e->a&&y==e->b)?e:mkBin(e->k,x,y); }
  }
  e->sub=r; e->sepoch=g_substEpoch; return r;
}
std::string exprStr(Expr* e,int d){
  static const char* nm[]={"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","zext","sext","extract","concat"};
  char b[64];
  if(e->k==K_CONST){ snprintf(b,64,"%llu:%d",(unsigned long long)e->v,e->w); return b; }
  if(e->k==K_VAR) return g_vars[e->v].name;
  if(d==0) return "..";
  std::string s="("; s+=nm[e->k]; if(e->k==K_EXTRACT){ snprintf(b,64,"[%d+%d]",e->lo,e->w); s+=b; }
  for(Expr* x: {e->a,e->b,e->c}) if(x) s+=" "+exprStr(x,d-1);
  return s+")";
}
