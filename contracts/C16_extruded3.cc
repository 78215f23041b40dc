// Property C16, 3D base: space-time extrusion of a tetrahedral mesh, against the contract of the base mesh (proved for the real class in C17).
#include <ftk/config.hh>
#include <ftk/mesh/simplicial_unstructured_3d_mesh.hh>
#include "vals.h"
namespace ftk {
// contract of the base mesh: some known simplices (ascending vertices) of an arbitrary mesh
template<> struct simplicial_unstructured_3d_mesh<int,float> : public object {
  long N[4]; int c[4]={0,0,0,0}; int id[4][8],v[4][8][4];
  size_t n(int d) const { return d<0||d>3?0:N[d]; }
  void get_simplex(int d,int i,int w[]) const { if(d>=1&&d<=3) for(int k=0;k<c[d];k++) if(id[d][k]==i){ for(int j=0;j<=d;j++) w[j]=v[d][k][j]; return; } ENSURES(false,"precondition: simplex id known"); }
  bool find_simplex(int d,const int w[],int&i) const { ENSURES(d>=1&&d<=3,"precondition: dimension"); for(int k=0;k<c[d];k++){ bool e=true; for(int j=0;j<=d;j++) e&=w[j]==v[d][k][j]; if(e){ i=id[d][k]; return true; } } return false; }
  std::set<int> side_of(int d,int i) const { ENSURES(d==1||d==2,"precondition: dimension"); std::set<int> r; for(int k=0;k<c[d];k++) if(id[d][k]==i) for(int h=0;h<c[d+1];h++){ int m=0; for(int j=0;j<=d+1;j++) for(int l=0;l<=d;l++) if(v[d+1][h][j]==v[d][k][l]) m++; if(m==d+1) r.insert(id[d+1][h]); } return r; }
  void get_coords(int i,float x[]) const { x[0]=i; x[1]=2*i; x[2]=3*i; }
};
}
#include <ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh>
using namespace ftk; typedef simplicial_unstructured_3d_mesh<int,float> B; typedef simplicial_unstructured_extruded_3d_mesh<int,float> X0;
struct X : public X0 { X(std::shared_ptr<B> b):X0(b){} static long pos(int k,int m){ return mod(k,m); } };
static const long NM=1l<<15,TM=1l<<10;
static long tstep(){ long z=__v_split(__v_int("step",-2,1)); return z==-2?-2-__v_int("before",0,TM):z==1?1+__v_int("after",0,TM):z; }
static std::shared_ptr<B> arb(){ auto b=std::make_shared<B>(); b->N[0]=__v_int("n0",4,NM); b->N[1]=__v_int("n1",6,NM); b->N[2]=__v_int("n2",4,NM); b->N[3]=__v_int("n3",1,NM); return b; }
static int fresh(B&b,int d,const char*n){ int i=__v_int(n,0,NM); REQUIRES(i<b.N[d]); for(int k=0;k<b.c[d];k++) REQUIRES(i!=b.id[d][k]); return i; }
static void add(B&b,int d,const char*n,int a,int x,int y=0,int z=0){ int i=fresh(b,d,n),k=b.c[d]++; b.id[d][k]=i; b.v[d][k][0]=a; b.v[d][k][1]=x; b.v[d][k][2]=y; b.v[d][k][3]=z; }
// m+1 ascending arbitrary vertices of the base mesh
static void verts(B&b,int m,int*u){ const char*nm[]={"va","vb","vc","vd"}; for(int i=0;i<=m;i++){ u[i]=__v_int(nm[i],0,NM); REQUIRES(u[i]<b.N[0]); if(i) REQUIRES(u[i-1]<u[i]); } }
static void tet(B&b,int*u){ verts(b,3,u); add(b,3,"tet",u[0],u[1],u[2],u[3]); }
static void tri(B&b,int*u){ verts(b,2,u); add(b,2,"tri",u[0],u[1],u[2]); }
static void faces(B&b,const int*u){ add(b,2,"f012",u[0],u[1],u[2]); add(b,2,"f013",u[0],u[1],u[3]); add(b,2,"f023",u[0],u[2],u[3]); add(b,2,"f123",u[1],u[2],u[3]); }
static void edges(B&b,const int*u){ add(b,1,"e01",u[0],u[1]); add(b,1,"e02",u[0],u[2]); add(b,1,"e12",u[1],u[2]); }
static long per(const B&b,int d){ return d==0?b.N[0]:d==1?2*b.N[1]+b.N[0]:d==2?3*b.N[2]+2*b.N[1]:d==3?4*b.N[3]+3*b.N[2]:4*b.N[3]; }
// position of a type within a step: the d+1 types over base d-simplices come first, then the d types over base (d-1)-simplices
static long off(const B&b,int d,int q){ return d==4?q*b.N[3]:q<=d?q*b.N[d]:(d+1)*b.N[d]+(q-d-1)*b.N[d-1]; }
struct Ty { int m; int lo; bool dup; };
static Ty ty(int d,int q){ return d==4?Ty{3,4-q,true}:q==0?Ty{d,d+1,false}:q<=d?Ty{d,d+1-q,false}:Ty{d-1,2*d+1-q,true}; }
// vertices of the extruded simplex: the first `lo` base vertices at the lower step, the rest above; with dup the last lower one occurs at both
static int stair(const int*u,const Ty&T,long n0,long t,long*w){ int k=0; for(int i=0;i<T.lo;i++) w[k++]=u[i]+t*n0; for(int i=T.dup?T.lo-1:T.lo;i<=T.m;i++) w[k++]=u[i]+(t+1)*n0; return k; }
static void simplex(int d,int q){ auto b=arb(); Ty T=ty(d,q); int u[4]; verts(*b,T.m,u); add(*b,T.m,"base",u[0],u[1],u[2],u[3]); X x(b); long t=tstep(); ENSURES((long)x.n(d)==per(*b,d),"number of elements per step"); int k=off(*b,d,q)+b->id[T.m][0]+t*per(*b,d); int v[5]; x.get_simplex(d,k,v); long w[5]; int c=stair(u,T,b->N[0],t,w); bool same=true; for(int i=0;i<=d;i++) same&=(long)v[i]==w[i];
  ENSURES(c==d+1&&same,"vertices of the element"); ENSURES(x.simplex_type(d,k)==q,"type"); ENSURES(d!=3||x.tet_type(k)==q,"type of a tetrahedron"); ENSURES(x.is_ordinal(d,k)==(d<4&&q==0),"ordinal iff it lies in one time step"); }
CONTRACT(g1_0, "extruded_3d_mesh::get_simplex simplex_type n is_ordinal mod (edges, type 0)", "vertices, type and time-step class as documented") { simplex(1,0); }
CONTRACT(g1_1, "extruded_3d_mesh::get_simplex simplex_type n is_ordinal mod (edges, type 1)", "vertices, type and time-step class as documented") { simplex(1,1); }
CONTRACT(g2_0, "extruded_3d_mesh::get_simplex simplex_type n is_ordinal mod (triangles, type 0)", "vertices, type and time-step class as documented") { simplex(2,0); }
CONTRACT(g2_1, "extruded_3d_mesh::get_simplex simplex_type n is_ordinal mod (triangles, type 1)", "vertices, type and time-step class as documented") { simplex(2,1); }
CONTRACT(g2_2, "extruded_3d_mesh::get_simplex simplex_type n is_ordinal mod (triangles, type 2)", "vertices, type and time-step class as documented") { simplex(2,2); }
CONTRACT(g2_3, "extruded_3d_mesh::get_simplex simplex_type n is_ordinal mod (triangles, type 3)", "vertices, type and time-step class as documented") { simplex(2,3); }
CONTRACT(g2_4, "extruded_3d_mesh::get_simplex simplex_type n is_ordinal mod (triangles, type 4)", "vertices, type and time-step class as documented") { simplex(2,4); }
CONTRACT(g3_0, "extruded_3d_mesh::get_simplex simplex_type n is_ordinal mod (tetrahedra, type 0)", "vertices, type and time-step class as documented") { simplex(3,0); }
CONTRACT(g3_1, "extruded_3d_mesh::get_simplex simplex_type n is_ordinal mod (tetrahedra, type 1)", "vertices, type and time-step class as documented") { simplex(3,1); }
CONTRACT(g3_2, "extruded_3d_mesh::get_simplex simplex_type n is_ordinal mod (tetrahedra, type 2)", "vertices, type and time-step class as documented") { simplex(3,2); }
CONTRACT(g3_3, "extruded_3d_mesh::get_simplex simplex_type n is_ordinal mod (tetrahedra, type 3)", "vertices, type and time-step class as documented") { simplex(3,3); }
CONTRACT(g3_4, "extruded_3d_mesh::get_simplex simplex_type n is_ordinal mod (tetrahedra, type 4)", "vertices, type and time-step class as documented") { simplex(3,4); }
CONTRACT(g3_5, "extruded_3d_mesh::get_simplex simplex_type n is_ordinal mod (tetrahedra, type 5)", "vertices, type and time-step class as documented") { simplex(3,5); }
CONTRACT(g3_6, "extruded_3d_mesh::get_simplex simplex_type n is_ordinal mod (tetrahedra, type 6)", "vertices, type and time-step class as documented") { simplex(3,6); }
CONTRACT(g4_0, "extruded_3d_mesh::get_simplex simplex_type n is_ordinal mod (pentachora, type 0)", "vertices, type and time-step class as documented") { simplex(4,0); }
CONTRACT(g4_1, "extruded_3d_mesh::get_simplex simplex_type n is_ordinal mod (pentachora, type 1)", "vertices, type and time-step class as documented") { simplex(4,1); }
CONTRACT(g4_2, "extruded_3d_mesh::get_simplex simplex_type n is_ordinal mod (pentachora, type 2)", "vertices, type and time-step class as documented") { simplex(4,2); }
CONTRACT(g4_3, "extruded_3d_mesh::get_simplex simplex_type n is_ordinal mod (pentachora, type 3)", "vertices, type and time-step class as documented") { simplex(4,3); }
CONTRACT(g0, "extruded_3d_mesh::get_simplex (vertices, vertical edges) flat_vertex_id flat_vertex_time get_coords extruded_vertex_id", "vertex ids encode base vertex and step; the edge between consecutive steps; coordinates") { auto b=arb(); X x(b); long t=tstep(),i=__v_int("v",0,NM); REQUIRES(i<b->N[0]); long n0=b->N[0]; int k=i+t*n0,v[2]; x.get_simplex(0,k,v); ENSURES(v[0]==k,"a vertex is itself"); int e=2*b->N[1]+i+t*per(*b,1); x.get_simplex(1,e,v); ENSURES(v[0]==k&&v[1]==k+n0,"vertical edge"); ENSURES(x.simplex_type(1,e)==2&&!x.is_ordinal(1,e),"vertical type"); ENSURES(x.flat_vertex_id(k)==i&&x.flat_vertex_time(k)==t,"base vertex and step"); ENSURES(x.extruded_vertex_id(k,true)==k+n0&&x.extruded_vertex_id(k,false)==k,"next step"); float c[4]; x.get_coords(k,c); ENSURES(c[0]==i&&c[1]==2*i&&c[2]==3*i&&c[3]==t,"coordinates of the base vertex and the step"); }
CONTRACT(counts3, "extruded_3d_mesh::n n_ordinal n_interval is_ordinal mod", "ordinal and interval elements partition the ids of a step") { auto b=arb(); X x(b); for(int d=0;d<5;d++) ENSURES((long)x.n(d)==per(*b,d),"n"); for(int d=0;d<5;d++) ENSURES(x.n_ordinal(d)+x.n_interval(d)==x.n(d),"ordinal + interval = all"); long t=tstep(); int d=1+__v_split(__v_int("d",0,3)); long r=__v_int("r",0,7*NM); REQUIRES(r<per(*b,d)); int k=r+t*per(*b,d); ENSURES(x.is_ordinal(d,k)==(r<(long)x.n_ordinal(d)),"is_ordinal agrees with the id ranges"); ENSURES(X::pos(k,x.n(d))==r,"position within the step"); }
// boundary: the sides of a simplex are exactly its facets
static void sidesOf(int d,int q){ auto b=arb(); int u[4]; if(d==4||q<4){ tet(*b,u); faces(*b,u); } else { tri(*b,u); edges(*b,u); } X x(b); long t=tstep(); int k=off(*b,d,q)+(d==4||q<4?b->id[3][0]:b->id[2][0])+t*per(*b,d); int v[5]; x.get_simplex(d,k,v); auto s=x.sides(d,k); ENSURES((int)s.size()==d+1,"number of sides"); int seen=0;
  for(int f:s){ int w[4]; x.get_simplex(d-1,f,w); int m=0; for(int j=0;j<=d;j++){ bool in=false; for(int l=0;l<d;l++) in|=v[j]==w[l]; if(!__v_branch(in)) m|=1<<j; } ENSURES(m==1||m==2||m==4||m==8||m==16,"each side is the simplex without one vertex"); ENSURES(!(seen&m),"sides are distinct facets"); seen|=m; } ENSURES(seen==(1<<(d+1))-1,"every facet occurs"); }
CONTRACT(sd4_0, "extruded_3d_mesh::sides (pentachora, type 0)", "the sides are exactly the facets") { sidesOf(4,0); }
CONTRACT(sd4_1, "extruded_3d_mesh::sides (pentachora, type 1)", "the sides are exactly the facets") { sidesOf(4,1); }
CONTRACT(sd4_2, "extruded_3d_mesh::sides (pentachora, type 2)", "the sides are exactly the facets") { sidesOf(4,2); }
CONTRACT(sd4_3, "extruded_3d_mesh::sides (pentachora, type 3)", "the sides are exactly the facets") { sidesOf(4,3); }
CONTRACT(sd3_0, "extruded_3d_mesh::sides (tetrahedra, type 0)", "the sides are exactly the facets") { sidesOf(3,0); }
CONTRACT(sd3_1, "extruded_3d_mesh::sides (tetrahedra, type 1)", "the sides are exactly the facets") { sidesOf(3,1); }
CONTRACT(sd3_2, "extruded_3d_mesh::sides (tetrahedra, type 2)", "the sides are exactly the facets") { sidesOf(3,2); }
CONTRACT(sd3_3, "extruded_3d_mesh::sides (tetrahedra, type 3)", "the sides are exactly the facets") { sidesOf(3,3); }
CONTRACT(sd3_4, "extruded_3d_mesh::sides (tetrahedra, type 4)", "the sides are exactly the facets") { sidesOf(3,4); }
CONTRACT(sd3_5, "extruded_3d_mesh::sides (tetrahedra, type 5)", "the sides are exactly the facets") { sidesOf(3,5); }
CONTRACT(sd3_6, "extruded_3d_mesh::sides (tetrahedra, type 6)", "the sides are exactly the facets") { sidesOf(3,6); }
// coboundary: side_of contains exactly the simplices that have the given one as a face.  All base simplices around the base simplex are known
// (up to two); p1, p2 = position of the extra vertex in each of them (p2<0: boundary)
static int pos(B&b,const int*u,int d,int p,const char*vn,const char*in){ int o=__v_int(vn,0,NM); REQUIRES(o<b.N[0]); if(p>0) REQUIRES(u[p-1]<o); if(p<=d) REQUIRES(o<u[p]); int w[5]; for(int i=0,j=0;i<=d+1;i++) w[i]=i==p?o:u[j++]; add(b,d+1,in,w[0],w[1],w[2],w[3]); return o; }
static void sideOf(int d,int q,int p1,int p2){ auto b=arb(); Ty T=ty(d,q); int u[4],m=T.m; verts(*b,m,u); add(*b,m,"base",u[0],u[1],u[2],u[3]); int bd=m; // base simplex
  if(m<3){ int o=pos(*b,u,m,p1,"vo","coface1"); if(p2>=0){ int o2=pos(*b,u,m,p2,"vo2","coface2"); REQUIRES(o!=o2); } } X x(b); long t=tstep(); int k=off(*b,d,q)+b->id[bd][0]+t*per(*b,d); int v[5]; x.get_simplex(d,k,v); auto s=x.side_of(d,k); size_t cnt=0; bool ord=q==0; // an element of one step has cofaces in two steps
  for(int q2=0;q2<(d==3?4:7);q2++){ Ty C=ty(d+1,q2); for(int z=0;z<b->c[C.m];z++) for(int dt=ord?-1:0;dt<=(ord?1:0);dt++){ int h=off(*b,d+1,q2)+b->id[C.m][z]+(t+dt)*per(*b,d+1); int w[5]; x.get_simplex(d+1,h,w); bool has=true; for(int i=0;i<=d;i++){ bool in=false; for(int j=0;j<=d+1;j++) in|=v[i]==w[j]; has&=in; } has=__v_branch(has); ENSURES((bool)s.count(h)==has,"listed iff it has the simplex as a face"); if(has) cnt++; } } ENSURES(s.size()==cnt,"nothing else is listed"); ENSURES(cnt>=1,"there is at least one"); }
CONTRACT(so3_0, "extruded_3d_mesh::side_of (tetrahedra, type 0)", "exactly the pentachora that have it as a side") { sideOf(3,0,0,-1); }
CONTRACT(so3_1, "extruded_3d_mesh::side_of (tetrahedra, type 1)", "exactly the pentachora that have it as a side") { sideOf(3,1,0,-1); }
CONTRACT(so3_2, "extruded_3d_mesh::side_of (tetrahedra, type 2)", "exactly the pentachora that have it as a side") { sideOf(3,2,0,-1); }
CONTRACT(so3_3, "extruded_3d_mesh::side_of (tetrahedra, type 3)", "exactly the pentachora that have it as a side") { sideOf(3,3,0,-1); }
CONTRACT(so3_4_0, "extruded_3d_mesh::side_of (tetrahedra, type 4, extra vertex at 0; one coface, and a second one)", "exactly the pentachora that have it as a side") { sideOf(3,4,0,__v_branch(__v_bool("second"))?1:-1); }
CONTRACT(so3_4_1, "extruded_3d_mesh::side_of (tetrahedra, type 4, extra vertex at 1; one coface, and a second one)", "exactly the pentachora that have it as a side") { sideOf(3,4,1,__v_branch(__v_bool("second"))?2:-1); }
CONTRACT(so3_4_2, "extruded_3d_mesh::side_of (tetrahedra, type 4, extra vertex at 2; one coface, and a second one)", "exactly the pentachora that have it as a side") { sideOf(3,4,2,__v_branch(__v_bool("second"))?3:-1); }
CONTRACT(so3_4_3, "extruded_3d_mesh::side_of (tetrahedra, type 4, extra vertex at 3; one coface, and a second one)", "exactly the pentachora that have it as a side") { sideOf(3,4,3,__v_branch(__v_bool("second"))?0:-1); }
CONTRACT(so3_5_0, "extruded_3d_mesh::side_of (tetrahedra, type 5, extra vertex at 0; one coface, and a second one)", "exactly the pentachora that have it as a side") { sideOf(3,5,0,__v_branch(__v_bool("second"))?1:-1); }
CONTRACT(so3_5_1, "extruded_3d_mesh::side_of (tetrahedra, type 5, extra vertex at 1; one coface, and a second one)", "exactly the pentachora that have it as a side") { sideOf(3,5,1,__v_branch(__v_bool("second"))?2:-1); }
CONTRACT(so3_5_2, "extruded_3d_mesh::side_of (tetrahedra, type 5, extra vertex at 2; one coface, and a second one)", "exactly the pentachora that have it as a side") { sideOf(3,5,2,__v_branch(__v_bool("second"))?3:-1); }
CONTRACT(so3_5_3, "extruded_3d_mesh::side_of (tetrahedra, type 5, extra vertex at 3; one coface, and a second one)", "exactly the pentachora that have it as a side") { sideOf(3,5,3,__v_branch(__v_bool("second"))?0:-1); }
CONTRACT(so3_6_0, "extruded_3d_mesh::side_of (tetrahedra, type 6, extra vertex at 0; one coface, and a second one)", "exactly the pentachora that have it as a side") { sideOf(3,6,0,__v_branch(__v_bool("second"))?1:-1); }
CONTRACT(so3_6_1, "extruded_3d_mesh::side_of (tetrahedra, type 6, extra vertex at 1; one coface, and a second one)", "exactly the pentachora that have it as a side") { sideOf(3,6,1,__v_branch(__v_bool("second"))?2:-1); }
CONTRACT(so3_6_2, "extruded_3d_mesh::side_of (tetrahedra, type 6, extra vertex at 2; one coface, and a second one)", "exactly the pentachora that have it as a side") { sideOf(3,6,2,__v_branch(__v_bool("second"))?3:-1); }
CONTRACT(so3_6_3, "extruded_3d_mesh::side_of (tetrahedra, type 6, extra vertex at 3; one coface, and a second one)", "exactly the pentachora that have it as a side") { sideOf(3,6,3,__v_branch(__v_bool("second"))?0:-1); }
CONTRACT(so2_0_0, "extruded_3d_mesh::side_of (triangles, type 0, extra vertex at 0; one coface, and a second one)", "exactly the tetrahedra that have it as a side") { sideOf(2,0,0,__v_branch(__v_bool("second"))?1:-1); }
CONTRACT(so2_0_1, "extruded_3d_mesh::side_of (triangles, type 0, extra vertex at 1; one coface, and a second one)", "exactly the tetrahedra that have it as a side") { sideOf(2,0,1,__v_branch(__v_bool("second"))?2:-1); }
CONTRACT(so2_0_2, "extruded_3d_mesh::side_of (triangles, type 0, extra vertex at 2; one coface, and a second one)", "exactly the tetrahedra that have it as a side") { sideOf(2,0,2,__v_branch(__v_bool("second"))?3:-1); }
CONTRACT(so2_0_3, "extruded_3d_mesh::side_of (triangles, type 0, extra vertex at 3; one coface, and a second one)", "exactly the tetrahedra that have it as a side") { sideOf(2,0,3,__v_branch(__v_bool("second"))?0:-1); }
CONTRACT(so2_1_0, "extruded_3d_mesh::side_of (triangles, type 1, extra vertex at 0; one coface, and a second one)", "exactly the tetrahedra that have it as a side") { sideOf(2,1,0,__v_branch(__v_bool("second"))?1:-1); }
CONTRACT(so2_1_1, "extruded_3d_mesh::side_of (triangles, type 1, extra vertex at 1; one coface, and a second one)", "exactly the tetrahedra that have it as a side") { sideOf(2,1,1,__v_branch(__v_bool("second"))?2:-1); }
CONTRACT(so2_1_2, "extruded_3d_mesh::side_of (triangles, type 1, extra vertex at 2; one coface, and a second one)", "exactly the tetrahedra that have it as a side") { sideOf(2,1,2,__v_branch(__v_bool("second"))?3:-1); }
CONTRACT(so2_1_3, "extruded_3d_mesh::side_of (triangles, type 1, extra vertex at 3; one coface, and a second one)", "exactly the tetrahedra that have it as a side") { sideOf(2,1,3,__v_branch(__v_bool("second"))?0:-1); }
CONTRACT(so2_2_0, "extruded_3d_mesh::side_of (triangles, type 2, extra vertex at 0; one coface, and a second one)", "exactly the tetrahedra that have it as a side") { sideOf(2,2,0,__v_branch(__v_bool("second"))?1:-1); }
CONTRACT(so2_2_1, "extruded_3d_mesh::side_of (triangles, type 2, extra vertex at 1; one coface, and a second one)", "exactly the tetrahedra that have it as a side") { sideOf(2,2,1,__v_branch(__v_bool("second"))?2:-1); }
CONTRACT(so2_2_2, "extruded_3d_mesh::side_of (triangles, type 2, extra vertex at 2; one coface, and a second one)", "exactly the tetrahedra that have it as a side") { sideOf(2,2,2,__v_branch(__v_bool("second"))?3:-1); }
CONTRACT(so2_2_3, "extruded_3d_mesh::side_of (triangles, type 2, extra vertex at 3; one coface, and a second one)", "exactly the tetrahedra that have it as a side") { sideOf(2,2,3,__v_branch(__v_bool("second"))?0:-1); }
CONTRACT(so2_3_0, "extruded_3d_mesh::side_of (triangles, type 3, extra vertex at 0; one coface, and a second one)", "exactly the tetrahedra that have it as a side") { sideOf(2,3,0,__v_branch(__v_bool("second"))?1:-1); }
CONTRACT(so2_3_1, "extruded_3d_mesh::side_of (triangles, type 3, extra vertex at 1; one coface, and a second one)", "exactly the tetrahedra that have it as a side") { sideOf(2,3,1,__v_branch(__v_bool("second"))?2:-1); }
CONTRACT(so2_3_2, "extruded_3d_mesh::side_of (triangles, type 3, extra vertex at 2; one coface, and a second one)", "exactly the tetrahedra that have it as a side") { sideOf(2,3,2,__v_branch(__v_bool("second"))?0:-1); }
CONTRACT(so2_4_0, "extruded_3d_mesh::side_of (triangles, type 4, extra vertex at 0; one coface, and a second one)", "exactly the tetrahedra that have it as a side") { sideOf(2,4,0,__v_branch(__v_bool("second"))?1:-1); }
CONTRACT(so2_4_1, "extruded_3d_mesh::side_of (triangles, type 4, extra vertex at 1; one coface, and a second one)", "exactly the tetrahedra that have it as a side") { sideOf(2,4,1,__v_branch(__v_bool("second"))?2:-1); }
CONTRACT(so2_4_2, "extruded_3d_mesh::side_of (triangles, type 4, extra vertex at 2; one coface, and a second one)", "exactly the tetrahedra that have it as a side") { sideOf(2,4,2,__v_branch(__v_bool("second"))?0:-1); }
// every pair of positions of the two cofaces
CONTRACT_T(sp3_4_0, "extruded_3d_mesh::side_of (tetrahedra, type 4, extra vertices at 0 and anywhere)", "exactly the pentachora that have it as a side") { sideOf(3,4,0,__v_split(__v_int("other",0,3))); }
CONTRACT_T(sp3_4_1, "extruded_3d_mesh::side_of (tetrahedra, type 4, extra vertices at 1 and anywhere)", "exactly the pentachora that have it as a side") { sideOf(3,4,1,__v_split(__v_int("other",0,3))); }
CONTRACT_T(sp3_4_2, "extruded_3d_mesh::side_of (tetrahedra, type 4, extra vertices at 2 and anywhere)", "exactly the pentachora that have it as a side") { sideOf(3,4,2,__v_split(__v_int("other",0,3))); }
CONTRACT_T(sp3_4_3, "extruded_3d_mesh::side_of (tetrahedra, type 4, extra vertices at 3 and anywhere)", "exactly the pentachora that have it as a side") { sideOf(3,4,3,__v_split(__v_int("other",0,3))); }
CONTRACT_T(sp3_5_0, "extruded_3d_mesh::side_of (tetrahedra, type 5, extra vertices at 0 and anywhere)", "exactly the pentachora that have it as a side") { sideOf(3,5,0,__v_split(__v_int("other",0,3))); }
CONTRACT_T(sp3_5_1, "extruded_3d_mesh::side_of (tetrahedra, type 5, extra vertices at 1 and anywhere)", "exactly the pentachora that have it as a side") { sideOf(3,5,1,__v_split(__v_int("other",0,3))); }
CONTRACT_T(sp3_5_2, "extruded_3d_mesh::side_of (tetrahedra, type 5, extra vertices at 2 and anywhere)", "exactly the pentachora that have it as a side") { sideOf(3,5,2,__v_split(__v_int("other",0,3))); }
CONTRACT_T(sp3_5_3, "extruded_3d_mesh::side_of (tetrahedra, type 5, extra vertices at 3 and anywhere)", "exactly the pentachora that have it as a side") { sideOf(3,5,3,__v_split(__v_int("other",0,3))); }
CONTRACT_T(sp3_6_0, "extruded_3d_mesh::side_of (tetrahedra, type 6, extra vertices at 0 and anywhere)", "exactly the pentachora that have it as a side") { sideOf(3,6,0,__v_split(__v_int("other",0,3))); }
CONTRACT_T(sp3_6_1, "extruded_3d_mesh::side_of (tetrahedra, type 6, extra vertices at 1 and anywhere)", "exactly the pentachora that have it as a side") { sideOf(3,6,1,__v_split(__v_int("other",0,3))); }
CONTRACT_T(sp3_6_2, "extruded_3d_mesh::side_of (tetrahedra, type 6, extra vertices at 2 and anywhere)", "exactly the pentachora that have it as a side") { sideOf(3,6,2,__v_split(__v_int("other",0,3))); }
CONTRACT_T(sp3_6_3, "extruded_3d_mesh::side_of (tetrahedra, type 6, extra vertices at 3 and anywhere)", "exactly the pentachora that have it as a side") { sideOf(3,6,3,__v_split(__v_int("other",0,3))); }
CONTRACT_T(sp2_0_0, "extruded_3d_mesh::side_of (triangles, type 0, extra vertices at 0 and anywhere)", "exactly the tetrahedra that have it as a side") { sideOf(2,0,0,__v_split(__v_int("other",0,3))); }
CONTRACT_T(sp2_0_1, "extruded_3d_mesh::side_of (triangles, type 0, extra vertices at 1 and anywhere)", "exactly the tetrahedra that have it as a side") { sideOf(2,0,1,__v_split(__v_int("other",0,3))); }
CONTRACT_T(sp2_0_2, "extruded_3d_mesh::side_of (triangles, type 0, extra vertices at 2 and anywhere)", "exactly the tetrahedra that have it as a side") { sideOf(2,0,2,__v_split(__v_int("other",0,3))); }
CONTRACT_T(sp2_0_3, "extruded_3d_mesh::side_of (triangles, type 0, extra vertices at 3 and anywhere)", "exactly the tetrahedra that have it as a side") { sideOf(2,0,3,__v_split(__v_int("other",0,3))); }
CONTRACT_T(sp2_1_0, "extruded_3d_mesh::side_of (triangles, type 1, extra vertices at 0 and anywhere)", "exactly the tetrahedra that have it as a side") { sideOf(2,1,0,__v_split(__v_int("other",0,3))); }
CONTRACT_T(sp2_1_1, "extruded_3d_mesh::side_of (triangles, type 1, extra vertices at 1 and anywhere)", "exactly the tetrahedra that have it as a side") { sideOf(2,1,1,__v_split(__v_int("other",0,3))); }
CONTRACT_T(sp2_1_2, "extruded_3d_mesh::side_of (triangles, type 1, extra vertices at 2 and anywhere)", "exactly the tetrahedra that have it as a side") { sideOf(2,1,2,__v_split(__v_int("other",0,3))); }
CONTRACT_T(sp2_1_3, "extruded_3d_mesh::side_of (triangles, type 1, extra vertices at 3 and anywhere)", "exactly the tetrahedra that have it as a side") { sideOf(2,1,3,__v_split(__v_int("other",0,3))); }
CONTRACT_T(sp2_2_0, "extruded_3d_mesh::side_of (triangles, type 2, extra vertices at 0 and anywhere)", "exactly the tetrahedra that have it as a side") { sideOf(2,2,0,__v_split(__v_int("other",0,3))); }
CONTRACT_T(sp2_2_1, "extruded_3d_mesh::side_of (triangles, type 2, extra vertices at 1 and anywhere)", "exactly the tetrahedra that have it as a side") { sideOf(2,2,1,__v_split(__v_int("other",0,3))); }
CONTRACT_T(sp2_2_2, "extruded_3d_mesh::side_of (triangles, type 2, extra vertices at 2 and anywhere)", "exactly the tetrahedra that have it as a side") { sideOf(2,2,2,__v_split(__v_int("other",0,3))); }
CONTRACT_T(sp2_2_3, "extruded_3d_mesh::side_of (triangles, type 2, extra vertices at 3 and anywhere)", "exactly the tetrahedra that have it as a side") { sideOf(2,2,3,__v_split(__v_int("other",0,3))); }
CONTRACT_T(sp2_3_0, "extruded_3d_mesh::side_of (triangles, type 3, extra vertices at 0 and anywhere)", "exactly the tetrahedra that have it as a side") { sideOf(2,3,0,__v_split(__v_int("other",0,2))); }
CONTRACT_T(sp2_3_1, "extruded_3d_mesh::side_of (triangles, type 3, extra vertices at 1 and anywhere)", "exactly the tetrahedra that have it as a side") { sideOf(2,3,1,__v_split(__v_int("other",0,2))); }
CONTRACT_T(sp2_3_2, "extruded_3d_mesh::side_of (triangles, type 3, extra vertices at 2 and anywhere)", "exactly the tetrahedra that have it as a side") { sideOf(2,3,2,__v_split(__v_int("other",0,2))); }
CONTRACT_T(sp2_4_0, "extruded_3d_mesh::side_of (triangles, type 4, extra vertices at 0 and anywhere)", "exactly the tetrahedra that have it as a side") { sideOf(2,4,0,__v_split(__v_int("other",0,2))); }
CONTRACT_T(sp2_4_1, "extruded_3d_mesh::side_of (triangles, type 4, extra vertices at 1 and anywhere)", "exactly the tetrahedra that have it as a side") { sideOf(2,4,1,__v_split(__v_int("other",0,2))); }
CONTRACT_T(sp2_4_2, "extruded_3d_mesh::side_of (triangles, type 4, extra vertices at 2 and anywhere)", "exactly the tetrahedra that have it as a side") { sideOf(2,4,2,__v_split(__v_int("other",0,2))); }
// iteration: parallel_for through its contract (C02): the body runs exactly once with every index below n
static size_t g_n; static int g_calls,g_cnt,g_id,g_xl; static long g_j;
static void stub_pf(size_t n,std::function<void(size_t)> f,int xl,int,bool){ g_n=n; g_calls++; g_xl=xl; REQUIRES(g_j<(long)n); f(g_j); }
static void iter(int which,bool part){ __v_replace((void*)(void(*)(size_t,std::function<void(size_t)>,int,int,bool))&object::parallel_for,(void*)&stub_pf); g_calls=g_cnt=0; auto b=arb();  X x(b); int d=__v_split(__v_int("d",0,4)); long t=__v_int("t",-TM,TM),N=x.n(d),O=x.n_ordinal(d),I=x.n_interval(d); ENSURES(N==O+I,"every element is ordinal or interval"); auto f=[&](int i){ g_cnt++; g_id=i; }; long j=g_j=__v_int("j",0,4*NM*4);
  long base=0,cnt=N; if(which==0) x.element_for(d,f,FTK_XL_NONE,1,false); if(which==1){ x.element_for_ordinal(d,t,f,FTK_XL_NONE,1,false); base=t*N; cnt=O; } if(which==2){ x.element_for_interval(d,t,f,FTK_XL_NONE,1,false); base=t*N+O; cnt=I; }
  ENSURES(g_calls==1&&(long)g_n==cnt,"one parallel iteration over all elements of the scope"); ENSURES(g_xl==FTK_XL_NONE,"accelerator passed on"); ENSURES(g_cnt==1&&g_id==base+j,"the callback runs once on element j of the scope"); }
CONTRACT(iter0,"extruded_3d_mesh::element_for n","every element of a step is visited exactly once (parallel_for through its contract)") { iter(0,false); }
CONTRACT(iter1,"extruded_3d_mesh::element_for_ordinal n_ordinal n","exactly the elements of the step that lie in it") { iter(1,false); }
CONTRACT(iter2,"extruded_3d_mesh::element_for_interval n_interval n_ordinal n","exactly the elements between this and the next step") { iter(2,false); }
