// Property C09: connected components, union-find, breadth-first search and shortest paths are exact.
#include "std_all.h"
#define private public
#define protected public
#include <ftk/config.hh>
#include <ftk/basic/union_find.hh>
#include <ftk/basic/simple_union_find.hh>
#include <ftk/basic/duf.hh>
#include <ftk/algorithms/cca.hh>
#include <ftk/algorithms/cca_bfs.hh>
#include <ftk/algorithms/bfs.hh>
#include <ftk/algorithms/dijkstra.hh>
#include <ftk/algorithms/hoshen_kopelman.hh>
#include "vals.h"
using namespace ftk; typedef std::set<int> SI;
// @time 200
// @paths 80000
// ---- specification side: equivalence relations on {0..n-1} as class-representative tables
struct rel { int n; bool r[6][6]; };
static void close(rel&R){ for(int i=0;i<R.n;i++) R.r[i][i]=true; for(int k=0;k<R.n;k++) for(int i=0;i<R.n;i++) for(int j=0;j<R.n;j++) if(R.r[i][k]&&R.r[k][j]) R.r[i][j]=true; }
// an arbitrary forest on {0..n-1} (every parent table without cycles)
static bool forest(int n,int*p,int*root){ for(int i=0;i<n;i++) p[i]=__v_split(__v_int("parent",0,n-1)); for(int i=0;i<n;i++){ int r=i; for(int s=0;s<n;s++) r=p[r]; if(p[r]!=r) return false; root[i]=r; } return true; }
static void ofroots(rel&R,int n,const int*root){ R.n=n; for(int i=0;i<n;i++) for(int j=0;j<n;j++) R.r[i][j]=root[i]==root[j]; }
static void setup(union_find<int>&U,int n,const int*p){ for(int i=0;i<n;i++){ U.add(i); } for(int i=0;i<n;i++){ U.id2parent.find(i)->second=p[i]; U.sz[i]=__v_int("sz",1,1000); } }
static void check(union_find<int>&U,const rel&R,const char*what){ int r[6]; for(int i=0;i<R.n;i++) { r[i]=U.find(i); ENSURES(r[i]>=0&&r[i]<R.n&&R.r[i][r[i]],what); ENSURES(U.is_root(r[i])&&U.parent(r[i])==r[i],"find returns a root"); } for(int i=0;i<R.n;i++) for(int j=0;j<R.n;j++) ENSURES((r[i]==r[j])==R.r[i][j],what); for(int i=0;i<R.n;i++) ENSURES(U.find(i)==r[i],"queries do not change the partition"); ENSURES((int)U.eles.size()==R.n,"no element is lost"); }
template<int n> static void ufind(){ int p[6],root[6]; REQUIRES(forest(n,p,root)); union_find<int> U; setup(U,n,p); rel R; ofroots(R,n,root); int a=__v_split(__v_int("a",0,n-1)),b=__v_split(__v_int("b",0,n-1)); ENSURES(U.find(a)==root[a],"find returns the root of the tree"); ENSURES(U.same_set(a,b)==R.r[a][b],"same_set"); check(U,R,"find keeps the partition"); }
template<int n> static void uunite(){ int p[6],root[6]; REQUIRES(forest(n,p,root)); union_find<int> U; setup(U,n,p); rel R; ofroots(R,n,root); int a=__v_split(__v_int("a",0,n-1)),b=__v_split(__v_int("b",0,n-1)); U.unite(a,b); R.r[a][b]=R.r[b][a]=true; close(R); check(U,R,"unite merges exactly the two sets"); }
BOUNDED(uf_find, "union_find::find same_set is_root parent has", "from every reachable state: find returns the root of the set and queries keep the partition", "every forest on 4 elements, every set size") { ufind<4>(); }
BOUNDED(uf_unite, "union_find::unite find", "from every reachable state: unite merges exactly the two sets", "every forest on 4 elements, every set size") { uunite<4>(); }
BOUNDED(uf_sets, "union_find::add has get_sets", "get_sets lists every set exactly once; adding twice changes nothing; new elements are singletons", "every forest on 4 elements") { const int n=4; int p[6],root[6]; REQUIRES(forest(n,p,root)); union_find<int> U; setup(U,n,p); ENSURES(!U.has(n),"unknown element"); U.add(n); U.add(0); U.add(n); ENSURES(U.has(n)&&U.has(0),"has"); p[n]=n; root[n]=n; rel R; ofroots(R,n+1,root); check(U,R,"add keeps the partition"); auto S=U.get_sets(); size_t tot=0; int hit[6]={0}; for(auto&s:S){ ENSURES(!s.empty(),"no empty set"); tot+=s.size(); for(int i:s){ ENSURES(i>=0&&i<=n,"element"); hit[i]++; for(int j=0;j<=n;j++) ENSURES((s.count(j)>0)==R.r[i][j],"sets are the classes"); } } ENSURES((int)tot==n+1,"every element in one set"); for(int i=0;i<=n;i++) ENSURES(hit[i]==1,"every element exactly once"); }
BOUNDED(simple_uf, "simple_union_find::find unite same_set reset", "from every reachable state: find returns the root, unite merges exactly the two sets, reset makes singletons", "every forest on 5 elements of which the arguments are arbitrary") { const int n=5; int p[6],root[6]; REQUIRES(forest(n,p,root)); simple_union_find<int> U(n); for(int i=0;i<n;i++){ ENSURES(U.id2parent[i]==i&&U.sz[i]==1,"initially singletons"); U.id2parent[i]=p[i]; U.sz[i]=__v_int("sz",1,1000); } int a=__v_split(__v_int("a",0,n-1)),b=__v_split(__v_int("b",0,n-1)); ENSURES(U.find(a)==root[a],"find returns the root"); U.unite(a,b); rel R; ofroots(R,n,root); R.r[a][b]=R.r[b][a]=true; close(R); for(int i=0;i<n;i++) for(int j=0;j<n;j++) ENSURES(U.same_set(i,j)==R.r[i][j],"unite merges exactly the two sets"); U.reset(); for(int i=0;i<n;i++) ENSURES(U.find(i)==i,"reset"); }
// ---- graphs: arbitrary adjacency (directed bits, self loops included unless sym)
struct graph { int n; bool a[6][6]; SI nb(int i) const { SI s; for(int j=0;j<n;j++) if(a[i][j]) s.insert(j); return s; } };
static graph sym(int n){ graph g; g.n=n; for(int i=0;i<n;i++){ g.a[i][i]=false; for(int j=0;j<i;j++) g.a[i][j]=g.a[j][i]=__v_split(__v_int("edge",0,1)); } return g; }
static graph dir(int n){ graph g; g.n=n; for(int i=0;i<n;i++) for(int j=0;j<n;j++) g.a[i][j]=__v_split(__v_int("edge",0,1)); return g; }
static SI subset(int n,int base=0){ SI q; for(int i=0;i<n;i++) if(__v_split(__v_int("qualified",0,1))) q.insert(base+i); return q; }
static rel conn(const graph&g,const SI&q){ rel R; R.n=g.n; for(int i=0;i<g.n;i++) for(int j=0;j<g.n;j++) R.r[i][j]=q.count(i)&&q.count(j)&&(g.a[i][j]||g.a[j][i]); close(R); return R; }
static void components(const std::vector<SI>&S,const rel&R,const SI&q){ int hit[6]={0}; for(auto&s:S){ ENSURES(!s.empty(),"no empty component"); for(int i:s){ ENSURES(q.count(i)>0,"only qualified nodes"); hit[i]++; for(int j=0;j<R.n;j++) ENSURES((s.count(j)>0)==(q.count(j)&&R.r[i][j]),"components are the connectivity classes"); } } for(int i=0;i<R.n;i++) ENSURES(hit[i]==(q.count(i)?1:0),"every qualified node in exactly one component"); }
typedef std::function<SI(int)> NF;
BOUNDED(cca_undirected, "extract_connected_components extract_connected_components_bfs", "components of the qualified subgraph, each qualified node in exactly one", "every undirected graph on 4 nodes and every qualified set") { graph g=sym(4); SI q=subset(4); NF nb=[&](int i){return g.nb(i);}; rel R=conn(g,q); components(extract_connected_components<int,SI>(nb,q),R,q); components(extract_connected_components_bfs<int,SI>(nb,q),R,q); }
BOUNDED(cca_directed, "extract_connected_components", "one-sided adjacency connects both ways", "every directed graph on 3 nodes and every qualified set") { graph g=dir(3); SI q=subset(3); NF nb=[&](int i){return g.nb(i);}; components(extract_connected_components<int,SI>(nb,q),conn(g,q),q); }
BOUNDED(cca_criterion, "extract_connected_components (criterion overloads)", "the criterion selects the qualified nodes", "every undirected graph on 4 nodes and every criterion") { graph g=sym(4); SI q=subset(4); NF nb=[&](int i){return g.nb(i);}; std::function<bool(int)> cr=[&](int i){return q.count(i)>0;}; rel R=conn(g,q); components(extract_connected_components<int,SI>(4,nb,cr),R,q); SI all{0,1,2,3}; components(extract_connected_components<int,SI>(all,nb,cr),R,q); }
BOUNDED(cca_track, "track_connected_components track_connected_components_bfs", "components of two steps are linked iff they share a node", "2x2 components over 3 nodes, every content") { std::vector<SI> A(2),B(2); for(auto&s:A) s=subset(3); for(auto&s:B) s=subset(3); auto r=track_connected_components<int>(A,B),r2=track_connected_components_bfs<int>(A,B); for(int i=0;i<2;i++) for(int j=0;j<2;j++){ bool o=false; for(int e:A[i]) o=o||B[j].count(e); ENSURES((r.count({i,j})>0)==o,"linked iff they overlap"); ENSURES((r2.count({i,j})>0)==o,"linked iff they overlap (bfs)"); } ENSURES(r.size()<=4,"nothing else"); }
BOUNDED(bfs_reach, "bfs", "the operation runs exactly once on every node reachable from the seed through accepted nodes, and on no other", "every directed graph on 3 nodes, every criterion and seed") { graph g=dir(3); SI q=subset(3); int s=__v_split(__v_int("seed",0,2)); NF nb=[&](int i){return g.nb(i);}; int cnt[3]={0},bad=0; bfs<int,SI>(s,nb,[&](int i){ if(i<0||i>2) bad++; else cnt[i]++; },[&](int i){return q.count(i)>0;}); bool re[3]={false,false,false}; if(q.count(s)) re[s]=true; for(int k=0;k<3;k++) for(int i=0;i<3;i++) for(int j=0;j<3;j++) if(re[i]&&g.a[i][j]&&q.count(j)) re[j]=true; ENSURES(bad==0,"only nodes"); for(int i=0;i<3;i++) ENSURES(cnt[i]==(re[i]?1:0),"visited exactly once iff reachable"); }
BOUNDED(bfs4, "bfs", "every node reachable from the seed exactly once (default criterion)", "every undirected graph on 4 nodes") { graph g=sym(4); NF nb=[&](int i){return g.nb(i);}; int cnt[4]={0}; bfs<int,SI>(0,nb,[&](int i){ cnt[i]++; }); rel R=conn(g,SI{0,1,2,3}); for(int i=0;i<4;i++) ENSURES(cnt[i]==(R.r[0][i]?1:0),"visited exactly once iff reachable"); }
// ---- shortest paths: symbolic non-negative weights
BOUNDED(dijkstra4, "dijkstra", "the returned node sequence is a path from source to target whose length is the shortest", "every undirected graph on 4 nodes in which the target is reachable; arbitrary positive weights") { graph g=sym(4); double w[4][4]; for(int i=0;i<4;i++) for(int j=0;j<i;j++) if(g.a[i][j]){ w[i][j]=w[j][i]=__v_real("w"); REQUIRES(w[i][j]>0&&w[i][j]<1000); } rel R=conn(g,SI{0,1,2,3}); REQUIRES(R.r[0][3]); auto p=dijkstra<int,double>(0,3,[&](int i){return g.nb(i);},[&](int i,int j){return w[i][j];}); ENSURES(p.size()>=2&&p.front()==0&&p.back()==3,"ends"); double len=0; for(size_t i=0;i+1<p.size();i++){ ENSURES(g.a[p[i]][p[i+1]],"consecutive nodes are adjacent"); len+=w[p[i]][p[i+1]]; }
  if(g.a[0][3]) ENSURES(len<=w[0][3],"shortest"); for(int a=1;a<3;a++){ int b=3-a; if(g.a[0][a]&&g.a[a][3]) ENSURES(len<=w[0][a]+w[a][3],"shortest"); if(g.a[0][a]&&g.a[a][b]&&g.a[b][3]) ENSURES(len<=w[0][a]+w[a][b]+w[b][3],"shortest"); } }
BOUNDED(dijkstra_self, "dijkstra", "the path from a node to itself is that node", "3 nodes") { graph g=sym(3); auto p=dijkstra<int,double>(1,1,[&](int i){return g.nb(i);},[&](int,int){return 1.0;}); ENSURES(p.size()==1&&p[0]==1,"trivial path"); }
// ---- labelling of 2D binary images
static void hk(int W,int H){ ndarray<int> m; m.reshape((size_t)W,(size_t)H); bool b[4][4]; for(int j=0;j<H;j++) for(int i=0;i<W;i++){ b[i][j]=__v_split(__v_int("pixel",0,1)); m(i,j)=b[i][j]?1:0; } int c=hoshen_kopelman_2d(m); int id[16]; // reference flood labels by iteration to a fixed point
  for(int k=0;k<W*H;k++) id[k]=k; for(int it=0;it<W*H;it++) for(int j=0;j<H;j++) for(int i=0;i<W;i++) if(b[i][j]){ int k=i+j*W; if(i>0&&b[i-1][j]){ int q=k-1; int mn=id[k]<id[q]?id[k]:id[q]; id[k]=id[q]=mn; } if(j>0&&b[i][j-1]){ int q=k-W; int mn=id[k]<id[q]?id[k]:id[q]; id[k]=id[q]=mn; } }
  int nc=0; bool seen[17]={false}; for(int k=0;k<W*H;k++){ int i=k%W,j=k/W; if(!b[i][j]){ ENSURES(m(i,j)==0,"background stays zero"); continue; } if(id[k]==k) nc++; ENSURES(m(i,j)>=1&&m(i,j)<=c,"labels are 1..count"); seen[m(i,j)]=true; for(int q=0;q<k;q++) if(b[q%W][q/W]) ENSURES((m(q%W,q/W)==m(i,j))==(id[q]==id[k]),"same label iff 4-connected"); } ENSURES(c==nc,"number of components"); for(int l=1;l<=nc;l++) ENSURES(seen[l],"every label is used"); }
BOUNDED(hk33, "hoshen_kopelman_2d", "labels are 1..count, equal exactly on 4-connected foreground pixels; returns the number of components", "every 3x3 image") { hk(3,3); }
BOUNDED(hk42, "hoshen_kopelman_2d", "labels are 1..count, equal exactly on 4-connected foreground pixels; returns the number of components", "every 4x2 and 2x4 image") { if(__v_split(__v_int("tall",0,1))) hk(2,4); else hk(4,2); }
BOUNDED(hk43, "hoshen_kopelman_2d", "labels are 1..count, equal exactly on 4-connected foreground pixels; returns the number of components", "every 4x3 image") { hk(4,3); }
BOUNDED(hksmall, "hoshen_kopelman_2d", "labels are 1..count, equal exactly on 4-connected foreground pixels; returns the number of components", "every image of 1..3 by 1..2") { int W=__v_split(__v_int("W",1,3)),H=__v_split(__v_int("H",1,2)); hk(W,H); }
BOUNDED_T(hk44, "hoshen_kopelman_2d", "labels are 1..count, equal exactly on 4-connected foreground pixels; returns the number of components", "every 4x4 image") { hk(4,4); }
// ---- the union-find of the distributed code (one process)
BOUNDED(duf_unite, "duf::unite find has size get_roots", "from every reachable state: unite merges exactly the two sets, the root of a set is its least element when parents point downwards, unknown elements become singletons", "every downward forest on 4 elements") { const int n=4; int p[6],root[6]; duf<int> U; for(int i=0;i<n;i++){ p[i]=__v_split(__v_int("parent",0,i)); root[i]=p[i]==i?i:root[p[i]]; U.parents[i]=p[i]; } rel R; ofroots(R,n,root); int a=__v_split(__v_int("a",0,n-1)),b=__v_split(__v_int("b",0,n-1)); ENSURES(U.find(a)==root[a],"find returns the root"); ENSURES(!U.has(n),"unknown"); ENSURES(U.find(n)==n&&U.has(n)&&(int)U.size()==n+1,"unknown elements become singletons"); U.unite(a,b); R.r[a][b]=R.r[b][a]=true; close(R); for(int i=0;i<n;i++) for(int j=0;j<n;j++) ENSURES((U.find(i)==U.find(j))==R.r[i][j],"unite merges exactly the two sets"); auto S=U.get_roots(); for(int i=0;i<=n;i++) ENSURES((S.count(i)>0)==(U.find(i)==i),"roots"); }
