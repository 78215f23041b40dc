// Model of the few non-template libstdc++ entry points the instantiated templates call (red-black tree and hash policy).
// Trusted: stands in for the libstdc++ shared object; compiled to IR and linked with every harness.
#include <map>
#include <list>
#include <unordered_map>
#include <cstddef>
#include <thread>
#include <string>
namespace std {
template class __cxx11::basic_string<char>; // members the extern template declarations leave to the shared object
static inline _Rb_tree_node_base* inc(_Rb_tree_node_base* x){ if(x->_M_right){ x=x->_M_right; while(x->_M_left)x=x->_M_left; } else { _Rb_tree_node_base*y=x->_M_parent; while(x==y->_M_right){x=y;y=y->_M_parent;} if(x->_M_right!=y)x=y; } return x; }
static inline _Rb_tree_node_base* dec(_Rb_tree_node_base* x){ if(x->_M_color==_S_red&&x->_M_parent->_M_parent==x) x=x->_M_right; else if(x->_M_left){ _Rb_tree_node_base*y=x->_M_left; while(y->_M_right)y=y->_M_right; x=y; } else { _Rb_tree_node_base*y=x->_M_parent; while(x==y->_M_left){x=y;y=y->_M_parent;} x=y; } return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {return inc(x);}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() {return inc(const_cast<_Rb_tree_node_base*>(x));}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {return dec(x);}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() {return dec(const_cast<_Rb_tree_node_base*>(x));}
static void rotl(_Rb_tree_node_base*x,_Rb_tree_node_base*&root){ auto*y=x->_M_right; x->_M_right=y->_M_left; if(y->_M_left)y->_M_left->_M_parent=x; y->_M_parent=x->_M_parent; if(x==root)root=y; else if(x==x->_M_parent->_M_left)x->_M_parent->_M_left=y; else x->_M_parent->_M_right=y; y->_M_left=x; x->_M_parent=y; }
static void rotr(_Rb_tree_node_base*x,_Rb_tree_node_base*&root){ auto*y=x->_M_left; x->_M_left=y->_M_right; if(y->_M_right)y->_M_right->_M_parent=x; y->_M_parent=x->_M_parent; if(x==root)root=y; else if(x==x->_M_parent->_M_right)x->_M_parent->_M_right=y; else x->_M_parent->_M_left=y; y->_M_right=x; x->_M_parent=y; }
void _Rb_tree_insert_and_rebalance(const bool left,_Rb_tree_node_base*x,_Rb_tree_node_base*p,_Rb_tree_node_base&h) throw() {
  _Rb_tree_node_base*&root=h._M_parent; x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_red;
  if(left){ p->_M_left=x; if(p==&h){h._M_parent=x;h._M_right=x;} else if(p==h._M_left)h._M_left=x; } else { p->_M_right=x; if(p==h._M_right)h._M_right=x; }
  while(x!=root&&x->_M_parent->_M_color==_S_red){ auto*xpp=x->_M_parent->_M_parent;
    if(x->_M_parent==xpp->_M_left){ auto*y=xpp->_M_right; if(y&&y->_M_color==_S_red){ x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; xpp->_M_color=_S_red; x=xpp; } else { if(x==x->_M_parent->_M_right){ x=x->_M_parent; rotl(x,root);} x->_M_parent->_M_color=_S_black; xpp->_M_color=_S_red; rotr(xpp,root);} }
    else { auto*y=xpp->_M_left; if(y&&y->_M_color==_S_red){ x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; xpp->_M_color=_S_red; x=xpp; } else { if(x==x->_M_parent->_M_left){ x=x->_M_parent; rotr(x,root);} x->_M_parent->_M_color=_S_black; xpp->_M_color=_S_red; rotl(xpp,root);} } }
  root->_M_color=_S_black; }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base*const z,_Rb_tree_node_base&h) throw() {
  _Rb_tree_node_base*&root=h._M_parent,*&lm=h._M_left,*&rm=h._M_right; _Rb_tree_node_base*y=z,*x=0,*xp=0;
  if(!y->_M_left) x=y->_M_right; else if(!y->_M_right) x=y->_M_left; else { y=y->_M_right; while(y->_M_left)y=y->_M_left; x=y->_M_right; }
  if(y!=z){ z->_M_left->_M_parent=y; y->_M_left=z->_M_left; if(y!=z->_M_right){ xp=y->_M_parent; if(x)x->_M_parent=y->_M_parent; y->_M_parent->_M_left=x; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; } else xp=y;
    if(root==z)root=y; else if(z->_M_parent->_M_left==z)z->_M_parent->_M_left=y; else z->_M_parent->_M_right=y; y->_M_parent=z->_M_parent; auto c=y->_M_color; y->_M_color=z->_M_color; z->_M_color=c; y=z; }
  else { xp=y->_M_parent; if(x)x->_M_parent=y->_M_parent; if(root==z)root=x; else if(z->_M_parent->_M_left==z)z->_M_parent->_M_left=x; else z->_M_parent->_M_right=x;
    if(lm==z){ if(!z->_M_right)lm=z->_M_parent; else { auto*m=x; while(m->_M_left)m=m->_M_left; lm=m; } } if(rm==z){ if(!z->_M_left)rm=z->_M_parent; else { auto*m=x; while(m->_M_right)m=m->_M_right; rm=m; } } }
  if(y->_M_color!=_S_red){ while(x!=root&&(!x||x->_M_color==_S_black))
    if(x==xp->_M_left){ auto*w=xp->_M_right; if(w->_M_color==_S_red){ w->_M_color=_S_black; xp->_M_color=_S_red; rotl(xp,root); w=xp->_M_right; }
      if((!w->_M_left||w->_M_left->_M_color==_S_black)&&(!w->_M_right||w->_M_right->_M_color==_S_black)){ w->_M_color=_S_red; x=xp; xp=xp->_M_parent; }
      else { if(!w->_M_right||w->_M_right->_M_color==_S_black){ w->_M_left->_M_color=_S_black; w->_M_color=_S_red; rotr(w,root); w=xp->_M_right; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if(w->_M_right)w->_M_right->_M_color=_S_black; rotl(xp,root); break; } }
    else { auto*w=xp->_M_left; if(w->_M_color==_S_red){ w->_M_color=_S_black; xp->_M_color=_S_red; rotr(xp,root); w=xp->_M_left; }
      if((!w->_M_right||w->_M_right->_M_color==_S_black)&&(!w->_M_left||w->_M_left->_M_color==_S_black)){ w->_M_color=_S_red; x=xp; xp=xp->_M_parent; }
      else { if(!w->_M_left||w->_M_left->_M_color==_S_black){ w->_M_right->_M_color=_S_black; w->_M_color=_S_red; rotl(w,root); w=xp->_M_left; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if(w->_M_left)w->_M_left->_M_color=_S_black; rotr(xp,root); break; } }
    if(x)x->_M_color=_S_black; }
  return y; }
namespace __detail {
static size_t pr(size_t n){ static const size_t t[]={2,5,11,23,47,97,199,409,823,1741,3469,6949,14033,28411,57557,116731,236897,480881,976369,1982627,4026031}; for(size_t x:t) if(x>=n) return x; return n|1; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t p=pr(n); _M_next_resize=(size_t)(p*1); return p; }
std::pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb,size_t ne,size_t ni) const { if(ne+ni>_M_next_resize){ size_t mn=ne+ni; if(mn>=nb){ size_t g=nb*2>mn+1?nb*2:mn+1; return {true,_M_next_bkt(g)}; } _M_next_resize=nb; return {false,0}; } return {false,0}; }
}
namespace __detail { void _List_node_base::_M_hook(_List_node_base*p) noexcept { _M_next=p;_M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; } void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev=_M_prev; _M_prev->_M_next=_M_next; }
 void _List_node_base::_M_transfer(_List_node_base*f,_List_node_base*l) noexcept { if(this!=l){ l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f; auto*t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } } }
size_t _Hash_bytes(const void*p,size_t n,size_t seed){ const unsigned char*c=(const unsigned char*)p; size_t h=seed; for(size_t i=0;i<n;i++) h=h*31+c[i]; return h; }
}

// threads: a worker runs to completion when it is created (one schedule; contracts over threads say so)
namespace std { void thread::_M_start_thread(_State_ptr s,void(*)()){ s->_M_run(); *(unsigned long*)&_M_id=1; }
void thread::join(){ *(unsigned long*)&_M_id=0; } void thread::detach(){ *(unsigned long*)&_M_id=0; } thread::_State::~_State(){} }
// mutexes: sequential semantics; locking a held mutex or releasing a free one is a violation
#include <pthread.h>
extern "C" void __v_assert(bool,const char*);
extern "C" int pthread_mutex_lock(pthread_mutex_t*m){ int*s=(int*)m; __v_assert(*s==0,"mutex-discipline"); *s=1; return 0; }
extern "C" int pthread_mutex_unlock(pthread_mutex_t*m){ int*s=(int*)m; __v_assert(*s==1,"mutex-discipline"); *s=0; return 0; }
