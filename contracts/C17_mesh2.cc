// Property C17: connectivity of triangular and tetrahedral meshes (2D part).  Bounded: every mesh of the stated size.
#include "std_all.h"
#define private public
#define protected public
#include <ftk/config.hh>
#include <ftk/mesh/simplicial_unstructured_2d_mesh.hh>
#include <ftk/mesh/point_locator_2d.hh>
#include "vals.h"
using namespace ftk; typedef simplicial_unstructured_2d_mesh<int,double> M;
static double rr(const char*n,int){ return __v_real(n); }
static int T[4][3]; static int NT_,NV;
static bool has(int t,int v){ return T[t][0]==v||T[t][1]==v||T[t][2]==v; }
static int cnt(int a,int b){ int c=0; for(int t=0;t<NT_;t++) if(has(t,a)&&has(t,b)) c++; return c; }
static int parity(const int*t){ return (t[0]>t[1])+(t[0]>t[2])+(t[1]>t[2]); }
static std::vector<int> conn(){ std::vector<int> c; for(int t=0;t<NT_;t++) for(int j=0;j<3;j++) c.push_back(T[t][j]); return c; }
static std::vector<double> pts(){ std::vector<double> c; for(int i=0;i<2*NV;i++) c.push_back(i); return c; }
static bool triangle(int t,bool sorted,int lo=0){ const char*n[3][3]={{"a0","a1","a2"},{"b0","b1","b2"},{"c0","c1","c2"}}; for(int j=0;j<3;j++) T[t][j]=__v_split(__v_int(n[t][j],lo,NV-1)); if(T[t][0]==T[t][1]||T[t][0]==T[t][2]||T[t][1]==T[t][2]) return false; if(sorted&&parity(T[t])) return false; for(int u=0;u<t;u++) if(has(u,T[t][0])&&has(u,T[t][1])&&has(u,T[t][2])) return false; return true; }
static void check(M&m){ ENSURES((int)m.n(0)==NV&&(int)m.n(2)==NT_,"counts"); int pairs=0; for(int a=0;a<NV;a++) for(int b=a+1;b<NV;b++) if(cnt(a,b)) pairs++; ENSURES((int)m.n(1)==pairs,"one edge per pair of vertices that share a triangle"); int v[3],id;
  for(int t=0;t<NT_;t++){ ENSURES(m.get_simplex(2,t,v)==t&&v[0]<v[1]&&v[1]<v[2]&&has(t,v[0])&&has(t,v[1])&&has(t,v[2]),"triangle: its vertices, ascending"); ENSURES(m.get_triangle_chi(t)==(parity(T[t])%2?-1:1),"chirality: sign of the sorting permutation"); id=-7; ENSURES(m.find_simplex(2,T[t],id)&&id==t,"a triangle is found by its vertices in any order");
    auto s=m.sides(2,t); ENSURES(s.size()==3,"three sides"); for(int e:s){ m.get_simplex(1,e,v); ENSURES(has(t,v[0])&&has(t,v[1])&&v[0]!=v[1],"each side is an edge of the triangle"); } 
    std::set<int> nb; for(int u=0;u<NT_;u++) if(u!=t){ int c=0; for(int j=0;j<3;j++) c+=has(u,T[t][j]); if(c==2) nb.insert(u); } ENSURES(m.triangle_edge_triangles[t]==nb,"neighbours of a triangle share an edge with it"); }
  for(int e=0;e<pairs;e++){ ENSURES(m.get_simplex(1,e,v)==e&&v[0]<v[1]&&cnt(v[0],v[1])>0,"an edge: an ascending pair of vertices of some triangle"); int w[2]={v[1],v[0]}; id=-7; ENSURES(m.find_simplex(1,v,id)&&id==e,"an edge is found by its vertices"); id=-7; ENSURES(m.find_simplex(1,w,id)&&id==e,"in either order"); auto s=m.side_of(1,e); std::set<int> r; for(int t=0;t<NT_;t++) if(has(t,v[0])&&has(t,v[1])) r.insert(t); ENSURES(s==r,"side_of an edge: exactly the triangles around it"); std::set<int> ev={v[0],v[1]}; ENSURES(m.sides(1,e)==ev,"sides of an edge: its vertices"); }
  for(int a=0;a<NV;a++){ std::set<int> ev,tv,es; for(int b=0;b<NV;b++) if(b!=a&&cnt(a,b)) ev.insert(b); for(int t=0;t<NT_;t++) if(has(t,a)) tv.insert(t); for(int e=0;e<pairs;e++){ m.get_edge(e,v); if(v[0]==a||v[1]==a) es.insert(e); } ENSURES(m.get_vertex_edge_vertex(a)==ev,"neighbour vertices"); ENSURES(m.get_vertex_triangles()[a]==tv,"triangles around a vertex"); ENSURES(m.side_of(0,a)==es,"edges around a vertex"); for(int b=0;b<NV;b++) if(b!=a&&!cnt(a,b)){ int w[2]={a,b}; ENSURES(!m.find_simplex(1,w,id),"other pairs are not edges"); } }
  for(int a=0;a<NV;a++) for(int b=a+1;b<NV;b++) for(int c=b+1;c<NV;c++){ bool in=false; for(int t=0;t<NT_;t++) if(has(t,a)&&has(t,b)&&has(t,c)) in=true; if(!in){ int w[3]={a,b,c}; ENSURES(!m.find_simplex(2,w,id),"other triples are not triangles"); } } ENSURES(m.side_of(2,0).empty(),"no cells above triangles"); int k=0; m.element_for(1,[&](int e){ ENSURES(e==k,"edges in order"); k++; }); ENSURES(k==pairs,"every edge visited once"); }
static void run(){ for(int a=0;a<NV;a++) for(int b=a+1;b<NV;b++) if(cnt(a,b)>2) return; M m(pts(),conn()); check(m); }
#define F2 "simplicial_unstructured_2d_mesh::simplicial_unstructured_2d_mesh build_triangles build_edges n get_simplex get_triangle get_edge find_simplex find_triangle find_edge sides side_of get_triangle_chi get_vertex_edge_vertex get_vertex_triangles element_for nswaps_bubble_sort"
BOUNDED(m1, F2, "ids, lookups and incidences of the mesh are exactly those of its triangle list", "1 triangle, 4 vertices, any vertex ids and order") { NV=4; NT_=1; if(!triangle(0,false)) return; run(); }
BOUNDED(m2, F2, "ids, lookups and incidences of the mesh are exactly those of its triangle list", "2 triangles, 5 vertices, any vertex ids and order") { NV=5; NT_=2; if(!triangle(0,true)||!triangle(1,false)) return; run(); }
BOUNDED(m3, F2, "ids, lookups and incidences of the mesh are exactly those of its triangle list", "3 triangles, 5 vertices, ascending vertices, manifold edges") { NV=5; NT_=3; for(int t=0;t<3;t++) if(!triangle(t,true)) return; run(); }
BOUNDED(nd, "simplicial_unstructured_2d_mesh(ndarray, ndarray) build_edges (repeated)", "the same mesh from arrays; building edges again changes nothing", "2 triangles, 4 vertices") { NV=4; NT_=2; if(!triangle(0,true)||!triangle(1,false)) return; ndarray<double> c; c.copy_vector(pts()); c.reshape({2,(size_t)NV}); ndarray<int> t; t.copy_vector(conn()); t.reshape({3,2}); M m(c,t); check(m); m.build_edges(); check(m); }
BOUNDED(part, "simplicial_unstructured_2d_mesh::get_simplex n lid2gid get_coords (part)", "ids of a part resolve to the global element", "2 triangles, parts of one or two elements") { NV=4; NT_=2; T[0][0]=2; T[0][1]=0; T[0][2]=1; T[1][0]=1; T[1][1]=3; T[1][2]=2; std::vector<double> x; for(int i=0;i<8;i++) x.push_back(rr("x",i)); M m(x,conn()); int g=__v_split(__v_int("t",0,1)),e=__v_split(__v_int("e",0,4)),v=__v_split(__v_int("v",0,3)); m.part_triangles={g}; m.part_edges={e,(e+1)%5}; m.part_vertices={(v+1)%4,v}; ENSURES(m.n(2,true)==1&&m.n(1,true)==2&&m.n(0,true)==2,"size of the part"); int a[3],b[3]; ENSURES(m.get_simplex(2,0,a,true)==g,"global id of a triangle"); m.get_simplex(2,g,b); ENSURES(a[0]==b[0]&&a[1]==b[1]&&a[2]==b[2],"vertices of a triangle"); ENSURES(m.get_simplex(1,1,a,true)==(e+1)%5,"global id of an edge"); m.get_simplex(1,(e+1)%5,b); ENSURES(a[0]==b[0]&&a[1]==b[1],"vertices of an edge"); double c[3]; m.get_coords(1,c,true); ENSURES_EQ(c[0],x[2*v],"coordinate"); ENSURES_EQ(c[1],x[2*v+1],"coordinate"); ENSURES_EQ(c[2],0,"third coordinate"); ENSURES(m.lid2gid(0,1)==v&&m.lid2gid(1,0)==e&&m.lid2gid(2,0)==g,"local to global"); ENSURES(m.n(3)==0&&m.n(3,true)==0,"no other dimension"); }
// fields on a mesh of four triangles around vertex 1 (symbolic coordinates and values)
static const int Q[4][3]={{1,0,2},{1,2,3},{3,1,4},{4,1,0}};
static double det(const std::vector<double>&x,const int*t){ return (x[2*t[1]]-x[2*t[0]])*(x[2*t[2]+1]-x[2*t[0]+1])-(x[2*t[2]]-x[2*t[0]])*(x[2*t[1]+1]-x[2*t[0]+1]); }
static std::vector<double> quad(int nt){ NV=nt==4?5:4; NT_=nt; for(int t=0;t<nt;t++) for(int j=0;j<3;j++) T[t][j]=Q[t][j]; std::vector<double> x; for(int i=0;i<2*NV;i++) x.push_back(rr("x",i)); for(int t=0;t<nt;t++) { double d=det(x,T[t]); REQUIRES(d!=0); } return x; }
BOUNDED(sgrad, "simplicial_unstructured_2d_mesh::scalar_gradient", "exact for every affine field", "mesh of 2 triangles; coordinates symbolic") { auto x=quad(2); M m(x,conn()); double a=__v_real("a"),b=__v_real("b"),c=__v_real("c"); ndarray<double> f; f.reshape((size_t)NV); for(int i=0;i<NV;i++) f[i]=a*x[2*i]+b*x[2*i+1]+c; auto g=m.scalar_gradient(f); ENSURES(g.dim(0)==2&&(int)g.dim(1)==NV&&g.multicomponents()==1,"shape"); for(int i=0;i<NV;i++){ ENSURES_EQ(g(0,i),a,"d/dx"); ENSURES_EQ(g(1,i),b,"d/dy"); } }
BOUNDED(vgrad, "simplicial_unstructured_2d_mesh::vector_gradient", "exact for every affine field, every component and direction", "mesh of 2 triangles; coordinates symbolic") { auto x=quad(2); M m(x,conn()); double a[2],b[2],c[2]; for(int k=0;k<2;k++){ a[k]=rr("a",k); b[k]=rr("b",k); c[k]=rr("c",k); } ndarray<double> f; f.reshape({2,(size_t)NV}); f.set_multicomponents(); for(int i=0;i<NV;i++) for(int k=0;k<2;k++) f(k,i)=a[k]*x[2*i]+b[k]*x[2*i+1]+c[k]; auto g=m.vector_gradient(f); ENSURES(g.dim(0)==2&&g.dim(1)==2&&(int)g.dim(2)==NV,"shape"); for(int i=0;i<NV;i++) for(int k=0;k<2;k++){ ENSURES_EQ(g(0,k,i),a[k],"d/dx"); ENSURES_EQ(g(1,k,i),b[k],"d/dy"); } }
BOUNDED(avg, "simplicial_unstructured_2d_mesh::scalar_gradient vector_gradient scalar_gradient_jacobian", "the value at a vertex is the mean of the gradients of the triangles around it", "mesh of 4 triangles; concrete coordinates, symbolic values") { NV=5; NT_=4; for(int t=0;t<4;t++) for(int j=0;j<3;j++) T[t][j]=Q[t][j]; std::vector<double> x={-2,-1, 0,0, 3,-1, 2,2, -1,3}; M m(x,conn()); ndarray<double> f; f.reshape((size_t)NV); for(int i=0;i<NV;i++) f[i]=rr("f",i); double G[4][2]; for(int t=0;t<4;t++){ const int*q=T[t]; double d=det(x,q),f1=f[q[1]]-f[q[0]],f2=f[q[2]]-f[q[0]]; G[t][0]=(f1*(x[2*q[2]+1]-x[2*q[0]+1])-f2*(x[2*q[1]+1]-x[2*q[0]+1]))/d; G[t][1]=(f2*(x[2*q[1]]-x[2*q[0]])-f1*(x[2*q[2]]-x[2*q[0]]))/d; }
  ndarray<double> g,j; m.scalar_gradient_jacobian(f,g,j); for(int i=0;i<NV;i++) for(int k=0;k<2;k++){ double s=0,n=0; for(int t=0;t<4;t++) if(has(t,i)){ s+=G[t][k]; n++; } ENSURES_EQ(g(k,i),s/n,"mean gradient"); } auto h=m.vector_gradient(g); for(int i=0;i<NV;i++) for(int c=0;c<2;c++) for(int k=0;k<2;k++) ENSURES_EQ(j(k,c,i),h(k,c,i),"jacobian is the vector gradient of the gradient"); }
// evaluation at a point, given the triangle and weights of the locator
struct L : public point_locator_2d<int,double> { int t; double w[3]; L(const M&m):point_locator_2d<int,double>(m){} void initialize(){} int locate(const double*,double mu[]) const { for(int i=0;i<3;i++) mu[i]=w[i]; return t; } };
BOUNDED(eval, "simplicial_unstructured_2d_mesh::eval lerp_s2", "the weighted combination of the vertex values of the located triangle, per component; refused outside", "mesh of 2 triangles; weights and values symbolic") { NV=4; NT_=2; for(int t=0;t<2;t++) for(int j=0;j<3;j++) T[t][j]=Q[t][j]; M m(pts(),conn()); auto l=std::make_shared<L>(m); l->t=__v_split(__v_int("t",-1,1)); for(int i=0;i<3;i++) l->w[i]=rr("w",i); m.locator=l; double x[2]={0,0},v[2]={-5,-6}; ndarray<double> f,g; f.reshape((size_t)NV); g.reshape({2,(size_t)NV}); g.set_multicomponents(); for(int i=0;i<NV;i++){ f[i]=rr("f",i); g(0,i)=rr("g",i); g(1,i)=rr("h",i); } bool ok=m.eval(f,x,v); ENSURES(ok==(l->t>=0),"refused iff no triangle"); if(l->t<0){ ENSURES(!m.eval(g,x,v)&&v[0]==-5&&v[1]==-6,"nothing written"); return; } int q[3]; m.get_triangle(l->t,q); double s=0,a=0,b=0; for(int i=0;i<3;i++){ s+=l->w[i]*f[q[i]]; a+=l->w[i]*g(0,q[i]); b+=l->w[i]*g(1,q[i]); } ENSURES_EQ(v[0],s,"scalar"); ENSURES(v[1]==-6,"one component"); ENSURES(m.eval(g,x,v),"vector field"); ENSURES_EQ(v[0],a,"first component"); ENSURES_EQ(v[1],b,"second component"); }
BOUNDED(near, "simplicial_unstructured_2d_mesh::nearest", "no vertex is closer than the returned one", "3 vertices") { NV=3; NT_=1; for(int j=0;j<3;j++) T[0][j]=j; std::vector<double> x; for(int i=0;i<6;i++){ x.push_back(rr("x",i)); REQUIRES(x[i]<1000&&x[i]>-1000); } M m(x,conn()); double p[2]={__v_real("px"),__v_real("py")}; REQUIRES(p[0]<1000&&p[0]>-1000&&p[1]<1000&&p[1]>-1000); int i=m.nearest(p); ENSURES(i>=0&&i<3,"a vertex"); auto d=[&](int k){ return (x[2*k]-p[0])*(x[2*k]-p[0])+(x[2*k+1]-p[1])*(x[2*k+1]-p[1]); }; i=__v_split(i); for(int k=0;k<3;k++) ENSURES(d(i)<=d(k),"nearest"); }
