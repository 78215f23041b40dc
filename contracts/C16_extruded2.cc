// Property C16: space-time extrusion of a triangular mesh.  The base mesh is seen only through its contract (proved for
// the real class in C17): sorted vertex triples/pairs by id, lookup of simplices by vertices, triangles around an edge.
#include <ftk/config.hh>
#include <ftk/mesh/simplicial_unstructured_2d_mesh.hh>
#include "vals.h"
namespace ftk {
// contract of the base mesh, for an arbitrary part of an arbitrary mesh: up to 2 triangles sharing an edge and all their edges
template<> struct simplicial_unstructured_2d_mesh<int,float> : public object {
  long N[3],P[3]; bool part_=false; int nt=0,ne=0; int tid[2],tv[2][3],eid[5],ev[5][2],lt[2],le[5]; int vg=-1,vl=-1; mutable int bad=0;
  size_t n(int d,bool part=false) const { return d<0||d>2?0:part?P[d]:N[d]; }
  int get_triangle(int i,int v[],bool part=false) const { for(int k=0;k<nt;k++) if((part?lt[k]:tid[k])==i){ for(int j=0;j<3;j++) v[j]=tv[k][j]; return tid[k]; } bad++; ENSURES(false,"precondition: triangle id known"); return -1; }
  int get_edge(int i,int v[],bool part=false) const { for(int k=0;k<ne;k++) if((part?le[k]:eid[k])==i){ for(int j=0;j<2;j++) v[j]=ev[k][j]; return eid[k]; } bad++; ENSURES(false,"precondition: edge id known"); return -1; }
  int get_simplex(int d,int i,int v[],bool part=false) const { ENSURES(d==1||d==2,"precondition: dimension 1 or 2"); return d==1?get_edge(i,v,part):get_triangle(i,v,part); }
  bool find_triangle(const int v[],int&i) const { for(int k=0;k<nt;k++) if(v[0]==tv[k][0]&&v[1]==tv[k][1]&&v[2]==tv[k][2]){ i=tid[k]; return true; } return false; }
  bool find_edge(const int v_[],int&i) const { int a=v_[0]<v_[1]?v_[0]:v_[1],b=v_[0]<v_[1]?v_[1]:v_[0]; for(int k=0;k<ne;k++) if(a==ev[k][0]&&b==ev[k][1]){ i=eid[k]; return true; } return false; }
  std::set<int> side_of(int d,int i) const { ENSURES(d==1,"precondition: dimension 1"); std::set<int> r; for(int k=0;k<nt;k++) for(int e=0;e<ne;e++) if(eid[e]==i){ int c=0; for(int j=0;j<3;j++) if(tv[k][j]==ev[e][0]||tv[k][j]==ev[e][1]) c++; if(c==2) r.insert(tid[k]); } return r; }
  int lid2gid(int d,int i) const { if(d==0){ if(i==vl) return vg; } bad++; ENSURES(false,"precondition: vertex id of the part"); return -1; }
  int gid2lid(int,int) const { return -1; } bool is_partial() const { return part_; } int chi=1; int get_triangle_chi(int i) const { return chi; }
  void get_coords(int i,float x[],bool=false) const { x[0]=i; x[1]=2*i; } std::set<int> nb; const std::set<int>& get_vertex_edge_vertex(int) const { return nb; }
};
}
#include <ftk/mesh/simplicial_unstructured_extruded_2d_mesh.hh>
#include <ftk/mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh>
using namespace ftk; typedef simplicial_unstructured_2d_mesh<int,float> B; typedef simplicial_unstructured_extruded_2d_mesh_implicit<int,float> X;
static const long NM=1l<<16,TM=1l<<10;
static long tstep(){ long z=__v_split(__v_int("step",-2,1)); return z==-2?-2-__v_int("before",0,TM):z==1?1+__v_int("after",0,TM):z; }
static std::shared_ptr<B> arb(){ auto b=std::make_shared<B>(); b->N[0]=__v_int("n0",3,NM); b->N[1]=__v_int("n1",3,NM); b->N[2]=__v_int("n2",1,NM); return b; }
static void tri(B&b,int a,int x,int c,int id){ int k=b.nt++; b.tid[k]=id; b.tv[k][0]=a; b.tv[k][1]=x; b.tv[k][2]=c; }
static void edge(B&b,int a,int c,int id){ int k=b.ne++; b.eid[k]=id; b.ev[k][0]=a; b.ev[k][1]=c; }
// one arbitrary triangle a<b<c with its three edges
static void one(B&b){ int v[3]; const char*nm[3]={"va","vb","vc"}; for(int i=0;i<3;i++){ v[i]=__v_int(nm[i],0,NM); REQUIRES(v[i]<b.N[0]); } REQUIRES(v[0]<v[1]&&v[1]<v[2]); int t=__v_int("tri",0,NM); REQUIRES(t<b.N[2]); tri(b,v[0],v[1],v[2],t);
  int e[3]; const char*en[3]={"e01","e02","e12"}; for(int i=0;i<3;i++){ e[i]=__v_int(en[i],0,NM); REQUIRES(e[i]<b.N[1]); } REQUIRES(e[0]!=e[1]&&e[0]!=e[2]&&e[1]!=e[2]); edge(b,v[0],v[1],e[0]); edge(b,v[0],v[2],e[1]); edge(b,v[1],v[2],e[2]); }
static long off(const B&b,int d,int type){ long n1=b.N[1],n2=b.N[2]; return d==1?type*n1:d==2?(type<4?type*n2:3*n2+n1):type*n2; }
static long per(const B&b,int d){ return d==0?b.N[0]:d==1?2*b.N[1]+b.N[0]:d==2?3*b.N[2]+2*b.N[1]:3*b.N[2]; }
// the simplex of an extruded element: staircase of the base simplex u_0<..<u_m, first `lo` vertices at the lower time, the rest at the upper;
// with dup, vertex lo-1 appears at both times
static int stair(const int*u,int m,int lo,bool dup,long n0,long t,long*w){ int k=0; for(int i=0;i<lo;i++) w[k++]=u[i]+t*n0; for(int i=dup?lo-1:lo;i<=m;i++) w[k++]=u[i]+(t+1)*n0; return k; }
struct Ty { int d,type; int m; int lo; bool dup; };
// dimension, position of the type among the ids of a step, base dimension, staircase
static const Ty ty[]={{1,0,1,2,0},{1,1,1,1,0},{2,0,2,3,0},{2,1,2,2,0},{2,2,2,1,0},{2,3,1,2,1},{2,4,1,1,1},{3,0,2,3,1},{3,1,2,2,1},{3,2,2,1,1}}; static const int NT=10;
static bool same(const int*v,const long*w,int n){ bool r=true; for(int i=0;i<n;i++) if((long)v[i]!=w[i]) r=false; return r; }
static void simplex(int q){ auto b=arb(); one(*b); X x(b); const Ty&T=ty[q]; long t=tstep(); ENSURES((long)x.n(T.d)==per(*b,T.d),"number of elements per step");
  const int*u=T.m==2?b->tv[0]:b->ev[0]; int id=T.m==2?b->tid[0]:b->eid[0]; int k=off(*b,T.d,T.type)+id+t*per(*b,T.d); int v[4]; int g=x.get_simplex(T.d,k,v); long w[4]; int c=stair(u,T.m,T.lo,T.dup,b->N[0],t,w);
  ENSURES(c==T.d+1&&same(v,w,c),"vertices of the element"); ENSURES(g==k,"returns the id"); ENSURES(x.simplex_type(T.d,k)==T.type,"type"); ENSURES(x.is_ordinal(T.d,k)==(T.d<3&&T.type==0),"ordinal iff it lies in one time step"); if(T.d==2) ENSURES(x.get_triangle_chi(k)==(T.type==0?b->chi:0),"chirality");
  if(t>=0){ int f=-7; bool ok=x.find_simplex(T.d,v,f); ENSURES(ok&&f==k,"the id is found again from the vertices"); } }
CONTRACT(e0, "extruded_2d_mesh_implicit::get_simplex simplex_type find_simplex is_ordinal n mod (edges, lower)", "the vertices are those of the base edge; the id is found again") { simplex(0); }
CONTRACT(e1, "extruded_2d_mesh_implicit::get_simplex simplex_type find_simplex is_ordinal n mod (edges, diagonal)", "the vertices are the diagonal over the base edge; the id is found again") { simplex(1); }
CONTRACT(f0, "extruded_2d_mesh_implicit::get_simplex simplex_type find_simplex (triangles, type I)", "vertices as documented; round trip") { simplex(2); }
CONTRACT(f1, "extruded_2d_mesh_implicit::get_simplex simplex_type find_simplex (triangles, type II)", "vertices as documented; round trip") { simplex(3); }
CONTRACT(f2, "extruded_2d_mesh_implicit::get_simplex simplex_type find_simplex (triangles, type III)", "vertices as documented; round trip") { simplex(4); }
CONTRACT(f3, "extruded_2d_mesh_implicit::get_simplex simplex_type find_simplex (triangles, type IV)", "vertices as documented; round trip") { simplex(5); }
CONTRACT(f4, "extruded_2d_mesh_implicit::get_simplex simplex_type find_simplex (triangles, type V)", "vertices as documented; round trip") { simplex(6); }
CONTRACT(t0, "extruded_2d_mesh_implicit::get_simplex simplex_type find_simplex (tetrahedra, type I)", "vertices as documented; round trip") { simplex(7); }
CONTRACT(t1, "extruded_2d_mesh_implicit::get_simplex simplex_type find_simplex (tetrahedra, type II)", "vertices as documented; round trip") { simplex(8); }
CONTRACT(t2, "extruded_2d_mesh_implicit::get_simplex simplex_type find_simplex (tetrahedra, type III)", "vertices as documented; round trip") { simplex(9); }
CONTRACT(vert, "extruded_2d_mesh_implicit::get_simplex (vertices, vertical edges) find_simplex flat_vertex_id flat_vertex_time get_coords get_vertex_edge_vertex extruded_vertex_id", "vertex ids encode base vertex and step; the edge between consecutive steps; coordinates and neighbours") { auto b=arb(); X x(b); long t=tstep(),i=__v_int("v",0,NM); REQUIRES(i<b->N[0]); long n0=b->N[0],n1=b->N[1]; int k=i+t*n0,v[2];
  int g=x.get_simplex(0,k,v); ENSURES(v[0]==k&&g==k,"a vertex is itself"); ENSURES(x.simplex_type(0,k)==0&&x.is_ordinal(0,k),"vertex type"); int e=2*n1+i+t*per(*b,1); g=x.get_simplex(1,e,v); ENSURES(v[0]==k&&v[1]==i+(t+1)*n0&&g==e,"vertical edge"); ENSURES(x.simplex_type(1,e)==2&&!x.is_ordinal(1,e),"vertical type");
  ENSURES(x.flat_vertex_id(k)==i,"base vertex"); ENSURES(x.extruded_vertex_id(k,true)==k+n0&&x.extruded_vertex_id(k,false)==k,"next step");
  if(t>=0){ ENSURES(x.flat_vertex_time(k)==t,"step of a vertex"); int f=-7; ENSURES(x.find_simplex(1,v,f)&&f==e,"the vertical edge is found again"); float c[4]={0,0,0,0}; x.get_coords(k,c); ENSURES(c[0]==i&&c[1]==2*i&&c[3]==t,"coordinates of the base vertex and the step");
    long j=__v_int("nb",0,NM); REQUIRES(j<n0&&j!=i); b->nb.insert(j); auto s=x.get_vertex_edge_vertex(k); ENSURES(s.size()==3&&s.count(j+t*n0)&&s.count(i+(t+1)*n0)&&s.count(i+(t-1)*n0),"neighbours in the step and across steps"); } }
// boundary of a tetrahedron
static void sides3(int ttype){ auto b=arb(); one(*b); X x(b); long t=tstep(); int k=off(*b,3,ttype)+b->tid[0]+t*per(*b,3); int v[4]; x.get_simplex(3,k,v); auto s=x.sides(3,k); ENSURES(s.size()==4,"four sides"); int seen=0;
  for(int f:s){ int u[3]; x.get_simplex(2,f,u); int m=0; for(int j=0;j<4;j++) if(v[j]!=u[0]&&v[j]!=u[1]&&v[j]!=u[2]) m|=1<<j; ENSURES(m==1||m==2||m==4||m==8,"each side is the tetrahedron without one vertex"); ENSURES(!(seen&m),"sides are distinct faces"); seen|=m; } ENSURES(seen==15,"every face occurs"); }
CONTRACT(sd0, "extruded_2d_mesh_implicit::sides (type I)", "the sides of a tetrahedron are exactly its four faces") { sides3(0); }
CONTRACT(sd1, "extruded_2d_mesh_implicit::sides (type II)", "the sides of a tetrahedron are exactly its four faces") { sides3(1); }
CONTRACT(sd2, "extruded_2d_mesh_implicit::sides (type III)", "the sides of a tetrahedron are exactly its four faces") { sides3(2); }
// coboundary: a triangle's side_of contains exactly the tetrahedra that have it as a side
static void tetsOf(int ftype,int e=0){ auto b=arb(); one(*b); X x(b); long t=tstep(); const B&c=*b; int D=ftype==0?1:0; /* the other types span both time steps, so only tetrahedra of step t can contain them */ if(ftype>=3){
    if(__v_branch(__v_bool("interior edge"))){ int p=c.ev[e][0],q=c.ev[e][1],o=c.tv[0][e==0?2:e==1?1:0]; int d=__v_int("vd",0,NM); REQUIRES(d<c.N[0]&&d!=p&&d!=q&&d!=o); int t2=__v_int("tri2",0,NM); REQUIRES(t2<c.N[2]&&t2!=c.tid[0]); int e4=__v_int("e4",0,NM),e5=__v_int("e5",0,NM); REQUIRES(e4<c.N[1]&&e5<c.N[1]&&e4!=e5); for(int j=0;j<3;j++) REQUIRES(e4!=c.eid[j]&&e5!=c.eid[j]);
      if(__v_branch(d<p)){ tri(*b,d,p,q,t2); edge(*b,d,p,e4); edge(*b,d,q,e5); } else if(__v_branch(d<q)){ tri(*b,p,d,q,t2); edge(*b,p,d,e4); edge(*b,d,q,e5); } else { tri(*b,p,q,d,t2); edge(*b,p,d,e4); edge(*b,q,d,e5); } } }
  long n3=per(c,3); int k=off(c,2,ftype)+(ftype<3?c.tid[0]:c.eid[e])+t*per(c,2); int u[3]; x.get_simplex(2,k,u); auto s=x.side_of(2,k);
  // every tetrahedron of the known triangles around t: member iff it has the triangle as a face (sides are exactly the faces, above)
  size_t cnt=0; for(int z=0;z<c.nt;z++) for(int ttype=0;ttype<3;ttype++) for(int dt=-D;dt<=D;dt++){ int h=off(c,3,ttype)+c.tid[z]+(t+dt)*n3; int v[4]; x.get_simplex(3,h,v); bool has=true; for(int i=0;i<3;i++) has&=(u[i]==v[0])|(u[i]==v[1])|(u[i]==v[2])|(u[i]==v[3]); has=__v_branch(has); ENSURES((bool)s.count(h)==has,"member of side_of iff the triangle is one of its faces"); if(has) cnt++; } ENSURES(s.size()==cnt,"nothing else"); ENSURES(cnt==(ftype<3?2:(size_t)c.nt),"number of tetrahedra around the triangle"); }
CONTRACT(so0, "extruded_2d_mesh_implicit::side_of sides (type I)", "exactly the two tetrahedra below and above") { tetsOf(0); }
CONTRACT(so1, "extruded_2d_mesh_implicit::side_of sides (type II)", "exactly the two tetrahedra of the prism that share it") { tetsOf(1); }
CONTRACT(so2, "extruded_2d_mesh_implicit::side_of sides (type III)", "exactly the two tetrahedra of the prism that share it") { tetsOf(2); }
CONTRACT(so3_0, "extruded_2d_mesh_implicit::side_of sides (type IV, edge 0 of the triangle)", "exactly one tetrahedron in each prism around the edge") { tetsOf(3,0); }
CONTRACT(so3_1, "extruded_2d_mesh_implicit::side_of sides (type IV, edge 1 of the triangle)", "exactly one tetrahedron in each prism around the edge") { tetsOf(3,1); }
CONTRACT(so3_2, "extruded_2d_mesh_implicit::side_of sides (type IV, edge 2 of the triangle)", "exactly one tetrahedron in each prism around the edge") { tetsOf(3,2); }
CONTRACT(so4_0, "extruded_2d_mesh_implicit::side_of sides (type V, edge 0 of the triangle)", "exactly one tetrahedron in each prism around the edge") { tetsOf(4,0); }
CONTRACT(so4_1, "extruded_2d_mesh_implicit::side_of sides (type V, edge 1 of the triangle)", "exactly one tetrahedron in each prism around the edge") { tetsOf(4,1); }
CONTRACT(so4_2, "extruded_2d_mesh_implicit::side_of sides (type V, edge 2 of the triangle)", "exactly one tetrahedron in each prism around the edge") { tetsOf(4,2); }
// element counts
CONTRACT(counts, "extruded_2d_mesh_implicit::n n_interval n_ordinal is_ordinal element_for_ordinal/interval id ranges", "ordinal and interval elements partition the ids of a step") { auto b=arb(); X x(b); for(int d=0;d<4;d++) ENSURES((long)x.n(d)==per(*b,d),"n"); for(int d=1;d<4;d++) ENSURES(x.n_ordinal(d)+x.n_interval(d)==x.n(d),"ordinal + interval = all"); ENSURES(x.n_ordinal(0)==x.n(0)&&x.n_interval(0)==0,"vertices are ordinal"); long t=tstep(); int d=1+__v_split(__v_int("d",0,2)); long r=__v_int("r",0,5*NM); REQUIRES(r<per(*b,d)); int k=r+t*per(*b,d); ENSURES(x.is_ordinal(d,k)==(r<(long)x.n_ordinal(d)),"is_ordinal agrees with the id ranges"); ENSURES(X::mod(k,x.n(d))==r,"position within the step"); }
// ids of a partition resolve to the global simplex
static void part(int q){ auto b=arb(); one(*b); b->part_=true; for(int i=0;i<3;i++){ const char*nm[3]={"p0","p1","p2"}; b->P[i]=__v_int(nm[i],1,NM); REQUIRES(b->P[i]<=b->N[i]); } int lt=__v_int("lt",0,NM),le=__v_int("le",0,NM); REQUIRES(lt<b->P[2]&&le<b->P[1]); b->lt[0]=lt; b->le[0]=le; b->le[1]=b->le[2]=-1; X x(b); long t=tstep(); long p0=b->P[0],p1=b->P[1],p2=b->P[2];
  if(q<NT){ const Ty&T=ty[q]; long o=T.d==1?T.type*p1:T.d==2?(T.type<4?T.type*p2:3*p2+p1):T.type*p2, n=T.d==1?2*p1+p0:T.d==2?3*p2+2*p1:3*p2; ENSURES((long)x.n(T.d,true)==n,"elements of the part per step"); int k=o+(T.m==2?lt:le)+t*n; int v[4],u[4]; int g=x.get_simplex(T.d,k,v,true); ENSURES(g==off(*b,T.d,T.type)+(T.m==2?b->tid[0]:b->eid[0])+t*per(*b,T.d),"global id"); x.get_simplex(T.d,g,u); for(int i=0;i<=T.d;i++) ENSURES(u[i]==v[i],"same vertices under local and global id"); }
  else { b->vl=__v_int("vl",0,NM); b->vg=__v_int("vg",0,NM); REQUIRES(b->vl<p0&&b->vg<b->N[0]); int v[2],u[2]; int g=x.get_simplex(0,b->vl+t*p0,v,true); ENSURES(v[0]==b->vg+t*b->N[0]&&g==v[0],"vertex of the part"); int k=2*p1+b->vl+t*(2*p1+p0); g=x.get_simplex(1,k,v,true); ENSURES(v[0]==b->vg+t*b->N[0]&&v[1]==b->vg+(t+1)*b->N[0],"vertical edge of the part"); ENSURES(g==2*b->N[1]+b->vg+t*per(*b,1),"global id of the vertical edge"); } }
CONTRACT(part1, "extruded_2d_mesh_implicit::get_simplex (partition, edges)", "local ids resolve to the global simplex") { part(0); part(1); }
CONTRACT(part2, "extruded_2d_mesh_implicit::get_simplex (partition, triangles)", "local ids resolve to the global simplex") { part(2+__v_split(__v_int("type",0,4))); }
CONTRACT(part3, "extruded_2d_mesh_implicit::get_simplex (partition, tetrahedra)", "local ids resolve to the global simplex") { part(7+__v_split(__v_int("type",0,2))); }
CONTRACT(part0, "extruded_2d_mesh_implicit::get_simplex (partition, vertices and vertical edges)", "local ids resolve to the global simplex") { part(NT); }
// iteration: parallel_for through its contract (C02): the body runs exactly once with every index below n
static size_t g_n; static int g_calls,g_cnt,g_id,g_xl; static long g_j;
static void stub_pf(size_t n,std::function<void(size_t)> f,int xl,int,bool){ g_n=n; g_calls++; g_xl=xl; REQUIRES(g_j<(long)n); f(g_j); }
static void iter(int which,bool part){ __v_replace((void*)(void(*)(size_t,std::function<void(size_t)>,int,int,bool))&object::parallel_for,(void*)&stub_pf); g_calls=g_cnt=0; auto b=arb(); if(part){ b->part_=true; for(int i=0;i<3;i++){ b->P[i]=__v_int("p",0,NM); } } X x(b); int d=__v_split(__v_int("d",0,3)); long t=__v_int("t",-TM,TM),N=x.n(d,part),O=x.n_ordinal(d,part),I=x.n_interval(d,part); ENSURES(N==O+I,"every element is ordinal or interval"); auto f=[&](int i){ g_cnt++; g_id=i; }; long j=g_j=__v_int("j",0,4*NM*4);
  long base=0,cnt=N; if(which==0) x.element_for(d,f,FTK_XL_NONE,1,false); if(which==1){ x.element_for_ordinal(d,t,f,part,FTK_XL_NONE,1,false); base=t*N; cnt=O; } if(which==2){ x.element_for_interval(d,t,f,part,FTK_XL_NONE,1,false); base=t*N+O; cnt=I; }
  ENSURES(g_calls==1&&(long)g_n==cnt,"one parallel iteration over all elements of the scope"); ENSURES(g_xl==FTK_XL_NONE,"accelerator passed on"); ENSURES(g_cnt==1&&g_id==base+j,"the callback runs once on element j of the scope"); }
CONTRACT(iter0,"extruded_2d_mesh::element_for n","every element of a step is visited exactly once (parallel_for through its contract)") { iter(0,false); }
CONTRACT(iter1,"extruded_2d_mesh::element_for_ordinal n_ordinal n","exactly the elements of the step that lie in it, whole mesh or part") { iter(1,__v_split(__v_int("part",0,1))); }
CONTRACT(iter2,"extruded_2d_mesh::element_for_interval n_interval n_ordinal n","exactly the elements between this and the next step, whole mesh or part") { iter(2,__v_split(__v_int("part",0,1))); }
