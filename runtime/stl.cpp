// The out-of-line parts of libstdc++ that bwtc's containers need, executed
// symbolically with the program.  The search tree is kept unbalanced: its
// observable behaviour (ordered iteration, lookup) is that of std::map/set.
#include <map>
#include <list>
#include <string>
#include <unordered_map>
namespace std {
typedef _Rb_tree_node_base N;
static N* inc(N* x){
  if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; return x; }
  N* y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; }
  if(x->_M_right!=y) x=y; return x;
}
static N* dec(N* x){
  if(x->_M_color==_S_red&&x->_M_parent->_M_parent==x) return x->_M_right;
  if(x->_M_left){ N* y=x->_M_left; while(y->_M_right) y=y->_M_right; return y; }
  N* y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } return y;
}
N* _Rb_tree_increment(N* x) throw(){ return inc(x); }
const N* _Rb_tree_increment(const N* x) throw(){ return inc(const_cast<N*>(x)); }
N* _Rb_tree_decrement(N* x) throw(){ return dec(x); }
const N* _Rb_tree_decrement(const N* x) throw(){ return dec(const_cast<N*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left,N* x,N* p,N& h) throw(){
  x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_black;
  if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; }
  else { p->_M_right=x; if(p==h._M_right) h._M_right=x; }
}
N* _Rb_tree_rebalance_for_erase(N* const z,N& h) throw(){
  N* root=h._M_parent; N* repl;
  if(!z->_M_left) repl=z->_M_right; else if(!z->_M_right) repl=z->_M_left;
  else {
    N* y=z->_M_right; while(y->_M_left) y=y->_M_left;
    if(y->_M_parent!=z){ y->_M_parent->_M_left=y->_M_right; if(y->_M_right) y->_M_right->_M_parent=y->_M_parent; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; }
    y->_M_left=z->_M_left; z->_M_left->_M_parent=y; repl=y;
  }
  if(repl) repl->_M_parent=z->_M_parent;
  if(z==root) h._M_parent=repl; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=repl; else z->_M_parent->_M_right=repl;
  if(h._M_parent==0){ h._M_left=&h; h._M_right=&h; }
  else { N* l=h._M_parent; while(l->_M_left) l=l->_M_left; h._M_left=l; N* r=h._M_parent; while(r->_M_right) r=r->_M_right; h._M_right=r; }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { this->_M_next=p; this->_M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n=this->_M_next; _List_node_base* p=this->_M_prev; p->_M_next=n; n->_M_prev=p; }
void _List_node_base::_M_transfer(_List_node_base* f,_List_node_base* l) noexcept {
  if(this!=l){ l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f;
    _List_node_base* t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t=this; do { _List_node_base* n=t->_M_next; t->_M_next=t->_M_prev; t->_M_prev=n; t=t->_M_prev; } while(t!=this); }
void _List_node_base::swap(_List_node_base& x,_List_node_base& y) noexcept {
  if(x._M_next!=&x){ if(y._M_next!=&y){ std::swap(x._M_next,y._M_next); std::swap(x._M_prev,y._M_prev); x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next->_M_prev=y._M_prev->_M_next=&y; }
    else { y._M_next=x._M_next; y._M_prev=x._M_prev; y._M_next->_M_prev=y._M_prev->_M_next=&y; x._M_next=x._M_prev=&x; } }
  else if(y._M_next!=&y){ x._M_next=y._M_next; x._M_prev=y._M_prev; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next=y._M_prev=&y; } }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t p=13; while(p<n) p=p*2+1; const_cast<_Prime_rehash_policy*>(this)->_M_next_resize=p; return p; }
std::pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t b,size_t e,size_t i) const { if(e+i>_M_next_resize||b<=1){ size_t w=e+i>b?e+i:b+1; return {true,_M_next_bkt(w*2)}; } return {false,0}; }
}
}
template class std::__cxx11::basic_string<char>;
#include <exception>
namespace std { exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; } }
