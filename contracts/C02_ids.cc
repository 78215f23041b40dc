// Property C02: elements of a regular simplicial mesh and integer ids are in bijection.
// @setup H_setup
#include "std_all.h"
#define private public
#define protected public
#include <ftk/config.hh>
#include <ftk/mesh/simplicial_regular_mesh.hh>
#undef private
#undef protected
#include "vals.h"
using namespace ftk; typedef simplicial_regular_mesh M; typedef simplicial_regular_mesh_element E; typedef std::vector<int> VI; typedef std::vector<size_t> VS;
static M*mesh[5];
extern "C" void H_setup(){ mesh[1]=new M(1); mesh[2]=new M(2); mesh[3]=new M(3); mesh[4]=new M(4); }
static const long LB=1l<<20;
static long ext(int nd){ return nd==1?(1l<<30):nd==2?(1l<<28):nd==3?(1l<<18):(1l<<14); } // n(d) stays below 2^63
static M& arb(int nd,VI&lb,VI&sz){ M&m=*mesh[nd]; lb.resize(nd); sz.resize(nd); VI ub(nd); for(int i=0;i<nd;i++){ lb[i]=__v_int("lb",-LB,LB); sz[i]=__v_int("size",1,ext(nd)); ub[i]=lb[i]+sz[i]-1; } m.set_lb_ub(lb,ub); return m; }
template<int nd> static void toint(){ __v_check_overflow(1); VI lb,sz; M&m=arb(nd,lb,sz); int d=__v_split(__v_int("dim",0,nd)); long nt=m.ntypes(d); long t=__v_int("type",0,nt-1); VI c(nd); for(int i=0;i<nd;i++){ long o=__v_int("offset",0,ext(nd)); REQUIRES(o<sz[i]); c[i]=lb[i]+o; }
  E e(c,d,t); uint64_t k=e.to_integer<uint64_t>(m); long n=1,acc=0; for(int i=0;i<nd;i++){ long q=n*(long)sz[i]; ENSURES(n>=1,"lemma: partial product positive"); acc+=((long)c[i]-lb[i])*n; ENSURES(acc<=q-1,"lemma: partial index below partial product"); n=q; }
  ENSURES((long)m.n(d)==n*nt,"n(d) = number of types times number of grid points"); ENSURES(acc*nt+t<=(n-1)*nt+nt-1,"lemma"); ENSURES((long)k>=0&&(long)k<n*nt,"id in [0,n(d))");
  E g(m,d,k); ENSURES(g.dim==d&&g.type==t,"from_integer(to_integer(e)) has the type of e"); for(int i=0;i<nd;i++) ENSURES(g.corner[i]==c[i],"from_integer(to_integer(e)) has the corner of e"); ENSURES(g==e,"equal elements"); }
template<int nd> static void fromint(){ __v_check_overflow(1); VI lb,sz; M&m=arb(nd,lb,sz); int d=__v_split(__v_int("dim",0,nd)); long nt=m.ntypes(d); long k=__v_int("k",0,1l<<62); long n=1; for(int i=0;i<nd;i++) n*=(long)sz[i]; REQUIRES(k<n*nt);
  E e(m,d,(uint64_t)k); ENSURES(e.dim==d&&e.type>=0&&e.type<nt,"type exists"); ENSURES(k/nt<n,"lemma: corner index below the number of grid points"); for(int i=0;i<nd;i++) ENSURES(e.corner[i]>=lb[i]&&e.corner[i]<lb[i]+sz[i],"corner inside the mesh"); ENSURES((long)e.to_integer<uint64_t>(m)==k,"to_integer(from_integer(k)) = k"); }
#define IDF "simplicial_regular_mesh::set_lb_ub n ntypes simplicial_regular_mesh_element::to_integer from_integer operator== constructors"
CONTRACT(toint1, IDF " (1D)", "element -> id -> element is the identity; ids lie in [0,n(d))") { toint<1>(); }
CONTRACT(toint2, IDF " (2D)", "element -> id -> element is the identity; ids lie in [0,n(d))") { toint<2>(); }
CONTRACT(toint3, IDF " (3D)", "element -> id -> element is the identity; ids lie in [0,n(d))") { toint<3>(); }
CONTRACT(toint4, IDF " (4D)", "element -> id -> element is the identity; ids lie in [0,n(d))") { toint<4>(); }
CONTRACT(fromint1, IDF " (1D)", "id -> element -> id is the identity; the element exists") { fromint<1>(); }
CONTRACT(fromint2, IDF " (2D)", "id -> element -> id is the identity; the element exists") { fromint<2>(); }
CONTRACT(fromint3, IDF " (3D)", "id -> element -> id is the identity; the element exists") { fromint<3>(); }
CONTRACT(fromint4, IDF " (4D)", "id -> element -> id is the identity; the element exists") { fromint<4>(); }
// work indices: position j of an iteration over lattice l and scope -> element; every (corner in l, type of the scope) is reached by exactly one j
static bool in_scope(const M&m,int d,int t,int scope){ bool allzero=true; auto s=m.unit_simplex(d,t); for(auto&v:s) if(v[m.nd()-1]) allzero=false; return scope==ELEMENT_SCOPE_ALL||(scope==ELEMENT_SCOPE_ORDINAL?allzero:!allzero); }
// the lattice part (point <-> integer) is used through its contract, discharged under C04 (rt*, ri*)
static uint64_t li_arg; static const lattice*li_l; static int li_calls; static VI stub_fi(const lattice*l,uint64_t i){ li_arg=i; li_l=l; li_calls++; VI r(l->nd()); for(size_t k=0;k<r.size();k++) r[k]=1000+k; return r; }
union PMI { VI(lattice::*m)(uint64_t) const; void*p; };
template<int nd> static void work(){ VS st(nd,3),sz(nd,7); lattice l(st,sz); M&m=*mesh[nd]; int d=__v_split(__v_int("dim",0,nd)),scope=__v_split(__v_int("scope",0,2)); long nt=m.ntypes(d,scope); int rank[64],cnt=0,sc[64]; for(int t=0;t<m.ntypes(d);t++){ rank[t]=cnt; sc[t]=in_scope(m,d,t,scope); cnt+=sc[t]; }
  ENSURES(nt==cnt,"number of types of the scope = types whose vertices all have (ordinal) / not all have (interval) zero time"); if(nt==0) return; long q=__v_int("point",0,1l<<56); int pos=__v_split(__v_int("pos",0,nt-1)); PMI u; u.m=&lattice::from_integer<uint64_t>; __v_replace(u.p,(void*)&stub_fi); li_calls=0;
  E e(m,d,(size_t)(q*nt+pos),l,scope); ENSURES(e.dim==d&&e.type>=0&&e.type<m.ntypes(d)&&sc[e.type],"type belongs to the scope"); ENSURES(rank[e.type]==pos,"types of the scope are enumerated in order, each once"); ENSURES(e.is_ordinal(m)==in_scope(m,d,e.type,ELEMENT_SCOPE_ORDINAL),"is_ordinal"); ENSURES(li_calls==1&&li_l==&l&&li_arg==(uint64_t)q,"the corner is lattice point number q"); for(int i=0;i<nd;i++) ENSURES(e.corner[i]==1000+i,"the decoded corner is used"); }
CONTRACT(work1, "simplicial_regular_mesh_element::from_work_index simplicial_regular_mesh::ntypes is_ordinal (1D)", "work index -> (lattice point, type of scope) is a bijection") { work<1>(); }
CONTRACT(work2, "simplicial_regular_mesh_element::from_work_index simplicial_regular_mesh::ntypes is_ordinal (2D)", "work index -> (lattice point, type of scope) is a bijection") { work<2>(); }
CONTRACT(work3, "simplicial_regular_mesh_element::from_work_index simplicial_regular_mesh::ntypes is_ordinal (3D)", "work index -> (lattice point, type of scope) is a bijection") { work<3>(); }
CONTRACT(work4, "simplicial_regular_mesh_element::from_work_index simplicial_regular_mesh::ntypes is_ordinal (4D)", "work index -> (lattice point, type of scope) is a bijection") { work<4>(); }
// element_for: parallel_for is used through its contract (f called exactly once for each j in [0,ntasks)), discharged separately below
static long g_n; static std::function<void(size_t)> g_f; static int g_calls;
static void stub_pf(size_t n,std::function<void(size_t)> f,int,int,bool){ g_n=n; g_f=f; g_calls++; }
// from_work_index is used through its contract (work1..work4)
static const M*w_m; static size_t w_i; static lattice w_l; static int w_scope,w_calls; static void stub_fwi(E*e,const M&m,size_t i,const lattice&l,int scope){ w_m=&m; w_i=i; w_l=l; w_scope=scope; w_calls++; e->type=12345; for(size_t k=0;k<e->corner.size();k++) e->corner[k]=100+k; }
union PMF { void(E::*m)(const M&,size_t,const lattice&,int); void*p; };
static void use_stub(){ __v_replace((void*)(void(*)(size_t,std::function<void(size_t)>,int,int,bool))&object::parallel_for,(void*)&stub_pf); g_calls=0; PMF u; u.m=&E::from_work_index; __v_replace(u.p,(void*)&stub_fwi); w_calls=0; }
static E g_e; static int g_cnt; static void cb(E e){ g_e=e; g_cnt++; }
template<int nd> static void efor(int which){ use_stub(); VI lb,sz; M&m=arb(nd,lb,sz); for(int i=0;i<nd;i++) REQUIRES(lb[i]>=0); int d=__v_split(__v_int("dim",0,nd)); int scope=ELEMENT_SCOPE_ALL; VS st(nd),ls(nd); for(int i=0;i<nd;i++){ st[i]=lb[i]; ls[i]=sz[i]; }
  if(which==0) m.element_for(d,cb,FTK_XL_NONE,1,false);
  if(which==1){ long t=__v_int("t",0,LB); scope=ELEMENT_SCOPE_ORDINAL; st[nd-1]=t; ls[nd-1]=1; m.element_for_ordinal(d,t,cb,FTK_XL_NONE,1,false); }
  if(which==2){ long t=__v_int("t",0,LB); scope=ELEMENT_SCOPE_INTERVAL; st[nd-1]=t; ls[nd-1]=1; m.element_for_interval(d,t,t+1,cb,FTK_XL_NONE,1,false); }
  if(which==3){ for(int i=0;i<nd;i++){ st[i]=__v_int("sst",0,LB); ls[i]=__v_int("ssz",1,ext(nd)); } scope=__v_split(__v_int("scope",0,2)); m.element_for(d,lattice(st,ls),scope,cb,FTK_XL_NONE,1,false); }
  lattice l(st,ls); long nt=m.ntypes(d,scope); ENSURES(g_calls==1,"one parallel iteration"); long np=1; for(int i=0;i<nd;i++) np*=(long)ls[i]; ENSURES(g_n==np*nt,"number of tasks = lattice points times types of the scope"); if(nt==0) return;
  long j=__v_int("j",0,1l<<60); REQUIRES(j<np*nt); g_cnt=0; g_f(j); ENSURES(g_cnt==1&&w_calls==1,"the callback runs exactly once per task"); ENSURES(w_m==&m&&w_i==(size_t)j&&w_scope==scope,"on the element of work index j of that scope"); bool same=w_l.nd()==nd; for(int i=0;i<nd;i++) same=same&&w_l.start(i)==st[i]&&w_l.size(i)==ls[i]; ENSURES(same,"over that lattice"); ENSURES(g_e.dim==d&&g_e.type==12345&&(int)g_e.corner.size()==nd,"the decoded element is passed on"); for(int i=0;i<nd;i++) ENSURES(g_e.corner[i]==100+i,"the decoded corner is passed on"); }
CONTRACT(efor0_2, "simplicial_regular_mesh::element_for (2D)", "every element of the scope is visited exactly once (parallel_for through its contract)") { efor<2>(0); }
CONTRACT(efor0_3, "simplicial_regular_mesh::element_for (3D)", "every element of the scope is visited exactly once (parallel_for through its contract)") { efor<3>(0); }
CONTRACT(efor0_4, "simplicial_regular_mesh::element_for (4D)", "every element of the scope is visited exactly once (parallel_for through its contract)") { efor<4>(0); }
CONTRACT(efor1_3, "simplicial_regular_mesh::element_for_ordinal (3D)", "every element of the scope is visited exactly once (parallel_for through its contract)") { efor<3>(1); }
CONTRACT(efor1_4, "simplicial_regular_mesh::element_for_ordinal (4D)", "every element of the scope is visited exactly once (parallel_for through its contract)") { efor<4>(1); }
CONTRACT(efor2_3, "simplicial_regular_mesh::element_for_interval (3D)", "every element of the scope is visited exactly once (parallel_for through its contract)") { efor<3>(2); }
CONTRACT(efor2_4, "simplicial_regular_mesh::element_for_interval (4D)", "every element of the scope is visited exactly once (parallel_for through its contract)") { efor<4>(2); }
CONTRACT(efor3_3, "simplicial_regular_mesh::element_for(lattice, scope) (3D)", "every element of the scope is visited exactly once (parallel_for through its contract)") { efor<3>(3); }
CONTRACT(efor3_4, "simplicial_regular_mesh::element_for(lattice, scope) (4D)", "every element of the scope is visited exactly once (parallel_for through its contract)") { efor<4>(3); }
// total order on elements (used as map/set keys)
static E arbE(int nd){ VI c(nd); for(int i=0;i<nd;i++) c[i]=__v_int("c",-1000000,1000000); return E(c,nd-1,__v_int("t",0,100)); }
CONTRACT(order, "simplicial_regular_mesh_element::operator< > == !=", "strict total order on elements of one dimension, consistent with equality") { int nd=3; E a=arbE(nd),b=arbE(nd),c=arbE(nd); bool ab=a<b,ba=b<a,bc=b<c,ac=a<c; ENSURES(!(ab&&ba),"asymmetric"); ENSURES((ab||ba)==!(a==b),"total: exactly one of <, >, =="); ENSURES((a>b)==ba,"> is the converse of <"); ENSURES((a!=b)==!(a==b),"!= negates =="); ENSURES(!(ab&&bc)||ac,"transitive"); bool same=a.type==b.type; for(int i=0;i<nd;i++) same=same&&a.corner[i]==b.corner[i]; ENSURES((a==b)==same,"equal iff same corner and type"); }
// parallel_for itself: worker threads are modelled by running each worker to completion when it is created
static unsigned char g_hits[64]; static long g_bad;
static void hit(size_t j){ if(j<64) g_hits[j]++; else g_bad++; }
BOUNDED(pfor, "object::parallel_for(ntasks, f, pthread backend, nthreads)", "f is called exactly once for every task 0..ntasks-1 and for no other", "ntasks 0..9, nthreads 0..5 (0: unknown); threads run to completion at creation (the task split does not depend on the schedule)") { int n=__v_split(__v_int("ntasks",0,9)),t=__v_split(__v_int("nthreads",0,5)); for(int i=0;i<64;i++) g_hits[i]=0; g_bad=0; object::parallel_for(n,hit,FTK_THREAD_PTHREAD,t,false); ENSURES(g_bad==0,"no task outside the range"); for(int i=0;i<64;i++) ENSURES(g_hits[i]==(i<n?1:0),"each task exactly once"); }
