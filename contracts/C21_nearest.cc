// Property C21: nearest-neighbour queries on point sets return a true nearest point.
#include "std_all.h"
#define private public
#define protected public
#include <ftk/config.hh>
#include <ftk/ndarray.hh>
#include <ftk/basic/kd.hh>
#include "vals.h"
using namespace ftk;
// @time 300
template<class M> static void* addr(M m){ union{ M m; void*p[2]; } u; u.p[0]=u.p[1]=nullptr; u.m=m; return u.p[0]; }
template<size_t n> static double d2(const std::array<double,n>&x,const std::array<double,n>&y){ double s=0; for(size_t k=0;k<n;k++) s+=(x[k]-y[k])*(x[k]-y[k]); return s; }
// ---- one step of the search, recursive calls by contract: the sub-tree search returns a point at least as close as any point of that sub-tree
template<size_t n> struct G { typedef kd_t<double,n> T; typedef std::shared_ptr<kd_node_t<double,n>> N; static N left,right,rl,rr; static const T*self; static std::array<double,n> x; static size_t depth; static int where; static int calls; static size_t q; };
template<size_t n> typename G<n>::N G<n>::left; template<size_t n> typename G<n>::N G<n>::right; template<size_t n> typename G<n>::N G<n>::rl; template<size_t n> typename G<n>::N G<n>::rr; template<size_t n> const typename G<n>::T* G<n>::self; template<size_t n> std::array<double,n> G<n>::x; template<size_t n> size_t G<n>::depth; template<size_t n> int G<n>::where; template<size_t n> int G<n>::calls; template<size_t n> size_t G<n>::q;
template<size_t n> __attribute__((noinline)) typename G<n>::N sub(const kd_t<double,n>*self,typename G<n>::N node,const std::array<double,n>&x,size_t depth){ typedef G<n> g; g::calls++; ENSURES(self==g::self,"same tree"); ENSURES(depth==g::depth+1,"recursion is one level deeper"); for(size_t k=0;k<n;k++) ENSURES(x[k]==g::x[k],"same query point"); if(!node) return nullptr; ENSURES(node==g::left||node==g::right,"recursion goes to a child"); bool L=node==g::left; auto r=L?g::rl:g::rr; if(g::where==(L?1:2)) REQUIRES(d2<n>(x,self->pts[r->id])<=d2<n>(x,self->pts[g::q])); return r; }
template<size_t n> static void step(){ typedef G<n> g; kd_t<double,n> t; t.pts.resize(4); auto mk=[](size_t id){ auto p=std::make_shared<kd_node_t<double,n>>(); p->id=id; return p; };
  if(!__v_symbolic()) return; // natively covered by the whole-tree contracts
  for(int i=0;i<4;i++) for(size_t k=0;k<n;k++) t.pts[i][k]=__v_real("pt"); for(size_t k=0;k<n;k++) g::x[k]=__v_real("x"); g::self=&t; g::depth=__v_split(__v_int("depth",0,2*n-1)); size_t ax=g::depth%n; g::calls=0; auto node=mk(0); g::rl=mk(1); g::rr=mk(2); g::q=3; g::left=g::right=nullptr; if(__v_split(__v_int("hasleft",0,1))) g::left=node->left=mk(1); if(__v_split(__v_int("hasright",0,1))) g::right=node->right=mk(2);
  // the witness: an arbitrary point of the sub-tree (at the node, in the left or in the right child), subject to the ordering of the tree
  g::where=(int)__v_split(__v_int("witness",0,2)); if(g::where==0) REQUIRES(d2<n>(g::x,t.pts[3])==d2<n>(g::x,t.pts[0])); if(g::where==1) REQUIRES(g::left&&t.pts[3][ax]<=t.pts[0][ax]); if(g::where==2) REQUIRES(g::right&&t.pts[3][ax]>=t.pts[0][ax]);
  __v_replace_rec(addr(&kd_t<double,n>::find_nearest_recursive),(void*)&sub<n>); auto r=t.find_nearest_recursive(node,g::x,g::depth); ENSURES(r!=nullptr,"a node is returned"); ENSURES(r==node||r==g::rl||r==g::rr,"the node belongs to the sub-tree"); ENSURES(d2<n>(g::x,t.pts[r->id])<=d2<n>(g::x,t.pts[3]),"no point of the sub-tree is closer"); g::left=g::right=g::rl=g::rr=nullptr; }
CONTRACT(step2, "kd_t::find_nearest_recursive closest dist2 (2D)", "if sub-tree searches return a nearest point of the sub-tree so does the search at the parent (any depth, any number of points)") { step<2>(); }
CONTRACT(step3, "kd_t::find_nearest_recursive closest dist2 (3D)", "if sub-tree searches return a nearest point of the sub-tree so does the search at the parent (any depth, any number of points)") { step<3>(); }
CONTRACT(metric, "kd_t::dist2", "squared Euclidean distance") { std::array<double,2> a{__v_real("a"),__v_real("a")},b{__v_real("b"),__v_real("b")}; ENSURES_EQ((kd_t<double,2>::dist2(a,b)),d2<2>(a,b),"2D"); std::array<double,3> c{__v_real("a"),__v_real("a"),__v_real("a")},d{__v_real("b"),__v_real("b"),__v_real("b")}; ENSURES_EQ((kd_t<double,3>::dist2(c,d)),d2<3>(c,d),"3D"); }
// ---- the tree: the ordering the step relies on
template<size_t n> static void wf(const kd_t<double,n>&t,const std::shared_ptr<kd_node_t<double,n>>&v,size_t depth,size_t off,size_t sz){ ENSURES(v!=nullptr&&v->offset==off&&v->size==sz,"extent of the node"); size_t i=sz/2,ax=depth%n; bool in=false; for(size_t k=0;k<sz;k++) in=in||t.ids[off+k]==v->id; ENSURES(in,"median is a point of the node"); if(sz<=1){ ENSURES(v->is_leaf(),"single points are leaves"); return; } for(size_t k=0;k<sz;k++){ double c=t.pts[t.ids[off+k]][ax],m=t.pts[v->id][ax]; if(k<i) ENSURES(c<=m,"left points are not above the median"); else ENSURES(c>=m,"right points are not below the median"); } wf<n>(t,v->left,depth+1,off,i); wf<n>(t,v->right,depth+1,off+i,sz-i); }
template<size_t n> static void build(int N){ kd_t<double,n> t; double p[8*n]; for(size_t i=0;i<N*n;i++) p[i]=__v_real("p"); t.set_inputs((size_t)N,p); for(int i=0;i<N;i++) for(size_t k=0;k<n;k++) ENSURES_EQ(t.pts[i][k],p[i*n+k],"inputs"); t.build(); bool seen[8]={false}; ENSURES((int)t.ids.size()==N,"all points"); for(int i=0;i<N;i++){ ENSURES((int)t.ids[i]<N&&!seen[t.ids[i]],"ids are a permutation"); seen[t.ids[i]]=true; } wf<n>(t,t.root,0,0,N); }
BOUNDED(build2, "kd_t::build build_recursive set_inputs (2D)", "every point is in exactly one leaf and every node separates its children along its axis", "1..4 points, arbitrary coordinates") { build<2>((int)__v_split(__v_int("N",1,4))); }
BOUNDED(build3, "kd_t::build build_recursive set_inputs (3D)", "every point is in exactly one leaf and every node separates its children along its axis", "1..4 points, arbitrary coordinates") { build<3>((int)__v_split(__v_int("N",1,4))); }
template<size_t n> static void nearest(int N){ kd_t<double,n> t; double p[8*n],x[n]; for(size_t i=0;i<N*n;i++) p[i]=__v_real("p"); for(size_t i=0;i<n;i++) x[i]=__v_real("x"); t.set_inputs((size_t)N,p); t.build(); size_t r=t.find_nearest(x); ENSURES((int)r<N,"a point"); std::array<double,n> X; for(size_t i=0;i<n;i++) X[i]=x[i]; double dr=d2<n>(X,t.pts[r]); for(int i=0;i<N;i++) ENSURES(dr<=d2<n>(X,t.pts[i]),"no point is closer"); }
BOUNDED(nearest2, "kd_t::find_nearest build (2D)", "the returned point is a nearest one", "1..2 points, arbitrary coordinates and query") { nearest<2>((int)__v_split(__v_int("N",1,2))); }
BOUNDED_T(nearest2_3, "kd_t::find_nearest build (2D)", "the returned point is a nearest one", "3 points, arbitrary coordinates and query") { nearest<2>(3); }
BOUNDED(nearest3, "kd_t::find_nearest build (3D)", "the returned point is a nearest one", "1..2 points, arbitrary coordinates and query") { nearest<3>((int)__v_split(__v_int("N",1,2))); }
BOUNDED(naive, "kd_t::find_nearest_naive", "the returned point is a nearest one", "1..4 points") { int N=(int)__v_split(__v_int("N",1,4)); kd_t<double,2> t; double p[8]; for(int i=0;i<2*N;i++){ p[i]=__v_real("p"); REQUIRES(p[i]>-1e6&&p[i]<1e6); } std::array<double,2> x{__v_real("x"),__v_real("x")}; REQUIRES(x[0]>-1e6&&x[0]<1e6&&x[1]>-1e6&&x[1]<1e6); t.set_inputs((size_t)N,p); size_t r=t.find_nearest_naive(x); for(int i=0;i<N;i++) ENSURES(d2<2>(x,t.pts[r])<=d2<2>(x,t.pts[i]),"no point is closer"); }
CONTRACT(inputs, "kd_t::set_inputs (ndarray, strided)", "point i takes column i; strides are honoured") { long N=3; ndarray<double> a; a.reshape(2,N); for(int i=0;i<2*N;i++) a[i]=__v_real("v"); kd_t<double,2> t; t.set_inputs(a); ENSURES((long)t.pts.size()==N,"count"); for(int i=0;i<N;i++) for(int k=0;k<2;k++) ENSURES_EQ(t.pts[i][k],a(k,i),"coordinate"); double p[9]; for(auto&e:p) e=__v_real("p"); t.set_inputs(3,p,3); for(int i=0;i<3;i++) for(int k=0;k<2;k++) ENSURES_EQ(t.pts[i][k],p[3*i+k],"strided"); }
