// Property C03: simplicial subdivision and incidence of regular meshes.
// @setup H_setup
#include "std_all.h"
#define private public
#define protected public
#include <ftk/config.hh>
#include <ftk/mesh/simplicial_regular_mesh.hh>
#undef private
#undef protected
#include "vals.h"
using namespace ftk; typedef simplicial_regular_mesh M; typedef simplicial_regular_mesh_element E; typedef std::vector<int> VI;
static M*mesh[5];
extern "C" void H_setup(){ mesh[1]=new M(1); mesh[2]=new M(2); mesh[3]=new M(3); mesh[4]=new M(4); }
// specification: number of strictly increasing chains of d+1 subsets of an nd-set that start with the empty set
static long chains(int nd,int d){ long c[5][17]; for(int s=0;s<(1<<nd);s++) c[0][s]=s==0; for(int k=1;k<=d;k++) for(int s=0;s<(1<<nd);s++){ c[k][s]=0; for(int r=0;r<(1<<nd);r++) if((r&s)==r&&r!=s) c[k][s]+=c[k-1][r]; } long t=0; for(int s=0;s<(1<<nd);s++) t+=c[d][s]; return t; }
static int code(const VI&v){ int c=0; for(size_t i=0;i<v.size();i++) c|=v[i]<<i; return c; }
// the d-simplex types are exactly the chains of the cube: the Freudenthal subdivision (nd! top simplices tiling the cube)
template<int nd> static void types(){ const M&m=*mesh[nd]; ENSURES(m.nd()==nd,"nd"); static long keys[64]; for(int d=0;d<=nd;d++){ ENSURES(m.ntypes(d)==chains(nd,d),"number of types = number of vertex chains"); for(int t=0;t<m.ntypes(d);t++){ auto s=m.unit_simplex(d,t); ENSURES((int)s.size()==d+1,"d+1 vertices"); int sub[8]; bool bits=true; for(int i=0;i<=d;i++){ bits=bits&&(int)s[i].size()==nd; for(int j=0;j<nd;j++) bits=bits&&(s[i][j]==0||s[i][j]==1); sub[i]=code(s[i]); } ENSURES(bits,"vertices of the unit cube");
    // sort by inclusion (small) and check a chain starting at the origin
    for(int i=0;i<=d;i++) for(int j=i+1;j<=d;j++) if(__builtin_popcount(sub[j])<__builtin_popcount(sub[i])){ int x=sub[i]; sub[i]=sub[j]; sub[j]=x; } bool chain=sub[0]==0; for(int i=1;i<=d;i++) chain=chain&&(sub[i]&sub[i-1])==sub[i-1]&&sub[i]!=sub[i-1]; ENSURES(chain,"vertices form a strictly increasing chain from the origin"); long k=0; for(int i=0;i<=d;i++) k=k*16+sub[i]; for(int u=0;u<t;u++) ENSURES(keys[u]!=k,"types are distinct"); keys[t]=k; } } long f=1; for(int i=2;i<=nd;i++) f*=i; ENSURES(m.ntypes(nd)==f,"n! top simplices"); }
static VI arbc(int nd){ VI c(nd); for(int i=0;i<nd;i++) c[i]=__v_int("corner",-(1l<<29),1l<<29); return c; }
static bool veq(const VI&a,const VI&b){ for(size_t i=0;i<a.size();i++) if(a[i]!=b[i]) return false; return true; }
template<int nd> static void sides(int d){ const M&m=*mesh[nd]; VI c=arbc(nd); for(int t=0;t<m.ntypes(d);t++){ E e(c,d,t); auto v=e.vertices(m); auto us=m.unit_simplex(d,t); ENSURES((int)v.size()==d+1,"d+1 vertices"); for(int i=0;i<=d;i++) for(int j=0;j<nd;j++) ENSURES(v[i][j]==c[j]+us[i][j],"vertex = corner + unit vertex");
    auto ss=e.sides(m); if(d==0){ ENSURES(ss.empty(),"a vertex has no sides"); continue; } ENSURES((int)ss.size()==d+1,"d+1 sides"); int omitted[8]={0}; for(auto&s:ss){ ENSURES(s.dim==d-1&&s.type>=0&&s.type<m.ntypes(d-1),"sides have dimension d-1"); auto w=s.vertices(m); ENSURES((int)w.size()==d,"d vertices per side"); int miss=-1,nm=0; for(int i=0;i<=d;i++){ int hit=0; for(auto&x:w) if(veq(x,v[i])) hit++; ENSURES(hit<=1,"no repeated vertex"); if(!hit){ miss=i; nm++; } } ENSURES(nm==1,"a side has all vertices of the element but one"); omitted[miss]++; } for(int i=0;i<=d;i++) ENSURES(omitted[i]==1,"each vertex is omitted by exactly one side"); } }
template<int nd> static void cofaces(int d){ const M&m=*mesh[nd]; VI c=arbc(nd);
  for(int t=0;t<m.ntypes(d);t++){ E e(c,d,t); auto so=e.side_of(m); if(d==nd){ ENSURES(so.empty(),"a top element is side of nothing"); continue; } for(size_t i=0;i<so.size();i++){ ENSURES(so[i].dim==d+1&&so[i].type>=0&&so[i].type<m.ntypes(d+1),"dimension d+1"); for(size_t j=0;j<i;j++) ENSURES(!(so[i]==so[j]),"no repeated coface"); int n=0; for(auto&s:so[i].sides(m)) if(s==e) n++; ENSURES(n==1,"f in side_of(e) => e in sides(f)"); } if(d==nd-1) ENSURES(so.size()==2,"a facet separates exactly two top elements"); }
  if(d<nd) for(int t=0;t<m.ntypes(d+1);t++){ E f(c,d+1,t); for(auto&s:f.sides(m)){ int n=0; for(auto&g:s.side_of(m)) if(g==f) n++; ENSURES(n==1,"e in sides(f) => f in side_of(e)"); } } }
template<int nd> static void valid(int d){ M&m=*mesh[nd]; VI lb(nd),ub(nd),c(nd); for(int i=0;i<nd;i++){ lb[i]=__v_int("lb",-1000000,1000000); ub[i]=lb[i]+__v_int("ext",0,1000000); c[i]=__v_int("corner",-3000000,3000000); } m.set_lb_ub(lb,ub); int t=__v_split(__v_int("type",0,m.ntypes(d)-1)); E e(c,d,t); bool in=true; auto us=m.unit_simplex(d,t); for(auto&v:us) for(int j=0;j<nd;j++) in=in&&c[j]+v[j]>=lb[j]&&c[j]+v[j]<=ub[j]; ENSURES(e.valid(m)==in,"valid iff all vertices lie within the mesh bounds"); for(int j=0;j<nd;j++) ENSURES(m.lb(j)==lb[j]&&m.ub(j)==ub[j],"bounds"); E b(c,d,m.ntypes(d)),b2(c,d,-1); ENSURES(!b.valid(m)&&!b2.valid(m),"unknown types are invalid"); }
#define SF "simplicial_regular_mesh::initialize_subdivision enumerate_unit_simplex_sides reduce_unit_simplex simplicial_regular_mesh_element::sides vertices"
#define CF "simplicial_regular_mesh::enumerate_unit_simplex_side_of simplicial_regular_mesh_element::side_of sides operator=="
#define TF "simplicial_regular_mesh::subdivide_unit_cube enumerate_unit_simplices reduce_unit_simplex unit_simplex ntypes"
#define VF "simplicial_regular_mesh_element::valid vertices simplicial_regular_mesh::set_lb_ub"
#define SD "sides of an element at any corner: one per omitted vertex, with the right vertices"
#define CD "side_of is the exact converse of sides, without repetition"
CONTRACT(types1, TF " (1D)", "the simplex types are exactly the vertex chains of the unit cube; n! top simplices") { types<1>(); }
CONTRACT(sides1_0, SF " (1D, 0-simplices)", SD) { sides<1>(0); }
CONTRACT(cof1_0, CF " (1D, 0-simplices)", CD) { cofaces<1>(0); }
CONTRACT(valid1_0, VF " (1D, 0-simplices)", "valid iff all vertices lie within the mesh bounds") { valid<1>(0); }
CONTRACT(sides1_1, SF " (1D, 1-simplices)", SD) { sides<1>(1); }
CONTRACT(cof1_1, CF " (1D, 1-simplices)", CD) { cofaces<1>(1); }
CONTRACT(valid1_1, VF " (1D, 1-simplices)", "valid iff all vertices lie within the mesh bounds") { valid<1>(1); }
CONTRACT(types2, TF " (2D)", "the simplex types are exactly the vertex chains of the unit cube; n! top simplices") { types<2>(); }
CONTRACT(sides2_0, SF " (2D, 0-simplices)", SD) { sides<2>(0); }
CONTRACT(cof2_0, CF " (2D, 0-simplices)", CD) { cofaces<2>(0); }
CONTRACT(valid2_0, VF " (2D, 0-simplices)", "valid iff all vertices lie within the mesh bounds") { valid<2>(0); }
CONTRACT(sides2_1, SF " (2D, 1-simplices)", SD) { sides<2>(1); }
CONTRACT(cof2_1, CF " (2D, 1-simplices)", CD) { cofaces<2>(1); }
CONTRACT(valid2_1, VF " (2D, 1-simplices)", "valid iff all vertices lie within the mesh bounds") { valid<2>(1); }
CONTRACT(sides2_2, SF " (2D, 2-simplices)", SD) { sides<2>(2); }
CONTRACT(cof2_2, CF " (2D, 2-simplices)", CD) { cofaces<2>(2); }
CONTRACT(valid2_2, VF " (2D, 2-simplices)", "valid iff all vertices lie within the mesh bounds") { valid<2>(2); }
CONTRACT(types3, TF " (3D)", "the simplex types are exactly the vertex chains of the unit cube; n! top simplices") { types<3>(); }
CONTRACT(sides3_0, SF " (3D, 0-simplices)", SD) { sides<3>(0); }
CONTRACT(cof3_0, CF " (3D, 0-simplices)", CD) { cofaces<3>(0); }
CONTRACT(valid3_0, VF " (3D, 0-simplices)", "valid iff all vertices lie within the mesh bounds") { valid<3>(0); }
CONTRACT(sides3_1, SF " (3D, 1-simplices)", SD) { sides<3>(1); }
CONTRACT(cof3_1, CF " (3D, 1-simplices)", CD) { cofaces<3>(1); }
CONTRACT(valid3_1, VF " (3D, 1-simplices)", "valid iff all vertices lie within the mesh bounds") { valid<3>(1); }
CONTRACT(sides3_2, SF " (3D, 2-simplices)", SD) { sides<3>(2); }
CONTRACT(cof3_2, CF " (3D, 2-simplices)", CD) { cofaces<3>(2); }
CONTRACT(valid3_2, VF " (3D, 2-simplices)", "valid iff all vertices lie within the mesh bounds") { valid<3>(2); }
CONTRACT(sides3_3, SF " (3D, 3-simplices)", SD) { sides<3>(3); }
CONTRACT(cof3_3, CF " (3D, 3-simplices)", CD) { cofaces<3>(3); }
CONTRACT(valid3_3, VF " (3D, 3-simplices)", "valid iff all vertices lie within the mesh bounds") { valid<3>(3); }
CONTRACT(types4, TF " (4D)", "the simplex types are exactly the vertex chains of the unit cube; n! top simplices") { types<4>(); }
CONTRACT(sides4_0, SF " (4D, 0-simplices)", SD) { sides<4>(0); }
CONTRACT(cof4_0, CF " (4D, 0-simplices)", CD) { cofaces<4>(0); }
CONTRACT(valid4_0, VF " (4D, 0-simplices)", "valid iff all vertices lie within the mesh bounds") { valid<4>(0); }
CONTRACT(sides4_1, SF " (4D, 1-simplices)", SD) { sides<4>(1); }
CONTRACT(cof4_1, CF " (4D, 1-simplices)", CD) { cofaces<4>(1); }
CONTRACT(valid4_1, VF " (4D, 1-simplices)", "valid iff all vertices lie within the mesh bounds") { valid<4>(1); }
CONTRACT(sides4_2, SF " (4D, 2-simplices)", SD) { sides<4>(2); }
CONTRACT(cof4_2, CF " (4D, 2-simplices)", CD) { cofaces<4>(2); }
CONTRACT(valid4_2, VF " (4D, 2-simplices)", "valid iff all vertices lie within the mesh bounds") { valid<4>(2); }
CONTRACT(sides4_3, SF " (4D, 3-simplices)", SD) { sides<4>(3); }
CONTRACT(cof4_3, CF " (4D, 3-simplices)", CD) { cofaces<4>(3); }
CONTRACT(valid4_3, VF " (4D, 3-simplices)", "valid iff all vertices lie within the mesh bounds") { valid<4>(3); }
CONTRACT(sides4_4, SF " (4D, 4-simplices)", SD) { sides<4>(4); }
CONTRACT(cof4_4, CF " (4D, 4-simplices)", CD) { cofaces<4>(4); }
CONTRACT(valid4_4, VF " (4D, 4-simplices)", "valid iff all vertices lie within the mesh bounds") { valid<4>(4); }
