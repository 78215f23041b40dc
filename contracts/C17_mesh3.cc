// Property C17: connectivity of tetrahedral meshes.  Bounded: every mesh of the stated size.
#include "std_all.h"
#define private public
#define protected public
#include <ftk/config.hh>
#include <ftk/mesh/simplicial_unstructured_3d_mesh.hh>
#include "vals.h"
using namespace ftk; typedef simplicial_unstructured_3d_mesh<int,double> M; typedef std::set<int> S;
static int T[4][4]; static int NT_,NV;
static bool has(int t,int v){ for(int j=0;j<4;j++) if(T[t][j]==v) return true; return false; }
static bool in(int t,const S&s){ for(int v:s) if(!has(t,v)) return false; return true; }
static bool cell(const S&s){ for(int t=0;t<NT_;t++) if(in(t,s)) return true; return false; }
static bool tet(int t,bool sorted){ const char*n[3][4]={{"a0","a1","a2","a3"},{"b0","b1","b2","b3"},{"c0","c1","c2","c3"}}; for(int j=0;j<4;j++){ T[t][j]=__v_split(__v_int(n[t][j],0,NV-1)); for(int k=0;k<j;k++) if(T[t][k]==T[t][j]||(sorted&&T[t][k]>T[t][j])) return false; } for(int u=0;u<t;u++) if(in(u,S(T[t],T[t]+4))) return false; return true; }
static std::vector<int> conn(){ std::vector<int> c; for(int t=0;t<NT_;t++) for(int j=0;j<4;j++) c.push_back(T[t][j]); return c; }
static std::vector<double> pts(){ std::vector<double> c; for(int i=0;i<3*NV;i++) c.push_back(__v_real("x")); return c; }
static S verts(const M&m,int d,int i){ int v[4]; m.get_simplex(d,i,v); for(int j=0;j<d;j++) ENSURES(v[j]<v[j+1],"vertices ascending"); return S(v,v+d+1); }
static void lookup(const M&m,const S&s,bool expect,int id){ int v[4],k=0,i=-7; for(int x:s) v[k++]=x; bool f=m.find_simplex(k-1,v,i); ENSURES(f==expect,"found iff it is a simplex of the mesh"); if(expect) ENSURES(i==id,"found under its id"); }
static void check(M&m,const std::vector<double>&x,bool reordered){ ENSURES((int)m.n(0)==NV&&(int)m.n(3)==NT_&&m.n(4)==0&&m.nd()==3,"counts"); std::vector<S> of[4]; for(int d=1;d<4;d++){ of[d].resize(m.n(d)); for(int i=0;i<(int)m.n(d);i++){ of[d][i]=verts(m,d,i); ENSURES(cell(of[d][i]),"a simplex of the mesh lies in a tetrahedron"); lookup(m,of[d][i],true,i); for(int j=0;j<i;j++) ENSURES(of[d][j]!=of[d][i],"simplices have one id"); } }
  for(int t=0;t<NT_;t++){ S s(T[t],T[t]+4); bool f=false; for(int i=0;i<NT_;i++) if(of[3][i]==s){ f=true; if(!reordered) ENSURES(i==t,"tetrahedra keep their order"); } ENSURES(f,"every tetrahedron is there"); } if(reordered) for(int t=1;t<NT_;t++) ENSURES(m.tetrahedra[t-1]<m.tetrahedra[t],"tetrahedra ordered by their vertices");
  int np=0,nt=0; for(int a=0;a<NV;a++) for(int b=a+1;b<NV;b++){ S s={a,b}; if(cell(s)) np++; else lookup(m,s,false,0); for(int c=b+1;c<NV;c++){ S r={a,b,c}; if(cell(r)) nt++; else lookup(m,r,false,0); for(int d=c+1;d<NV;d++){ S q={a,b,c,d}; if(!cell(q)) lookup(m,q,false,0); } } } ENSURES((int)m.n(1)==np&&(int)m.n(2)==nt,"every edge and triangle of a tetrahedron is there");
  for(int v=0;v<NV;v++){ S e,w; for(int i=0;i<np;i++) if(of[1][i].count(v)){ e.insert(i); for(int u:of[1][i]) if(u!=v) w.insert(u); } ENSURES(m.side_of(0,v)==e,"edges around a vertex"); ENSURES(m.vertex_edge_vertex[v]==w,"neighbour vertices"); double c[3]; m.get_coords(v,c); for(int k=0;k<3;k++) ENSURES_EQ(c[k],x[3*v+k],"coordinates"); }
  for(int d=1;d<3;d++) for(int i=0;i<(int)m.n(d);i++){ S r; for(int j=0;j<(int)m.n(d+1);j++){ bool all=true; for(int v:of[d][i]) if(!of[d+1][j].count(v)) all=false; if(all) r.insert(j); } ENSURES(m.side_of(d,i)==r,"side_of: exactly the simplices that have it as a face"); } ENSURES(m.side_of(3,0).empty(),"no cells above tetrahedra"); int k=0; m.element_for(2,[&](int i){ ENSURES(i==k,"triangles in order"); k++; }); ENSURES(k==nt,"every triangle visited once"); }
static void run(bool r=false){ auto x=pts(); if(!r){ M m(x,conn()); check(m,x,false); } else { M m; m.vertex_coords.copy_vector(x); m.vertex_coords.reshape({3,(size_t)NV}); for(int t=0;t<NT_;t++) m.tetrahedra.push_back(std::make_tuple(T[t][0],T[t][1],T[t][2],T[t][3])); m.initialize(true); check(m,x,true); } }
#define F3 "simplicial_unstructured_3d_mesh::simplicial_unstructured_3d_mesh build_tetrahedra build_triangles build_edges n get_simplex get_tetrahedron get_triangle get_edge find_simplex find_tetrahedron find_triangle find_edge side_of get_coords element_for nswaps_bubble_sort"
BOUNDED(t1, F3, "ids, lookups and incidences of the mesh are exactly those of its tetrahedron list", "1 tetrahedron, 5 vertices, any vertex ids and order") { NV=5; NT_=1; if(!tet(0,false)) return; run(); }
BOUNDED(t2, F3, "ids, lookups and incidences of the mesh are exactly those of its tetrahedron list", "2 tetrahedra, 6 vertices") { NV=6; NT_=2; if(!tet(0,true)||!tet(1,true)) return; run(); }
BOUNDED(t3, F3, "ids, lookups and incidences of the mesh are exactly those of its tetrahedron list", "3 tetrahedra, 5 vertices") { NV=5; NT_=3; for(int t=0;t<3;t++) if(!tet(t,true)) return; run(); }
BOUNDED(tr, F3 " initialize(reorder)", "reordered: the same mesh, tetrahedra ordered by their vertices", "2 tetrahedra, 5 vertices, first in any order") { NV=5; NT_=2; if(!tet(0,false)||!tet(1,true)) return; run(true); }
