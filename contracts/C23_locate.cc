// Property C23: point location on triangular meshes.
#include "std_all.h"
#include <stack>
#include <queue>
#include <chrono>
#define private public
#define protected public
#include <ftk/config.hh>
#include <ftk/mesh/simplicial_unstructured_2d_mesh.hh>
#include <ftk/mesh/point_locator_2d_quad.hh>
#include "vals.h"
template<class M> static void* addr(M m){ union{ M m; void*p[2]; } u; u.p[0]=u.p[1]=nullptr; u.m=m; return u.p[0]; }
using namespace ftk; typedef simplicial_unstructured_2d_mesh<int,double> M; typedef point_locator_2d_quad<int,double> L; typedef L::quad_node Q; typedef AABB<2,double> B;
static double rr(const char*n){ double v=__v_real(n); REQUIRES(v>-1e6&&v<1e6); return v; }
// ---- boxes and barycentric coordinates
CONTRACT(box,"AABB::contains update_centroid min3 max3 AABB","closed box; centroid is its middle; an empty box contains nothing") { B b; double x[2]={rr("x"),rr("y")}; ENSURES(!b.contains(x),"empty box"); for(int i=0;i<2;i++){ b.A[i]=rr("A"); b.B[i]=rr("B"); } std::array<double,2> X={x[0],x[1]}; bool in=b.A[0]<=x[0]&&x[0]<=b.B[0]&&b.A[1]<=x[1]&&x[1]<=b.B[1]; ENSURES(b.contains(x)==in&&b.contains(X)==in,"closed containment"); b.update_centroid(); for(int i=0;i<2;i++) ENSURES_EQ(2*b.C[i],b.A[i]+b.B[i],"centroid"); double u=rr("u"),v=rr("v"),w=rr("w"),m=min3(u,v,w),M_=max3(u,v,w); ENSURES(m<=u&&m<=v&&m<=w&&(m==u||m==v||m==w),"min3"); ENSURES(M_>=u&&M_>=v&&M_>=w&&(M_==u||M_==v||M_==w),"max3"); }
CONTRACT(bary,"point_locator_2d_quad::inside_triangle","barycentric coordinates: sum one, reproduce the point, inside iff none is negative") { double p[2],a[2],b[2],c[2],mu[3]; for(int i=0;i<2;i++){ p[i]=rr("p"); a[i]=rr("a"); b[i]=rr("b"); c[i]=rr("c"); } double d=(b[0]-a[0])*(c[1]-a[1])-(c[0]-a[0])*(b[1]-a[1]); REQUIRES(d!=0); bool r=L::inside_triangle(p,a,b,c,mu); ENSURES_EQ(mu[0]+mu[1]+mu[2],1,"sum"); for(int i=0;i<2;i++) ENSURES_EQ(mu[0]*a[i]+mu[1]*b[i]+mu[2]*c[i],p[i],"combination is the point"); ENSURES(r==(mu[0]>=0&&mu[1]>=0&&mu[2]>=0),"closed triangle"); }
CONTRACT(hull,"inside_triangle AABB (lemma)","a combination with nonnegative weights of sum one lies in every box that contains the three vertices") { double u=__v_real("u"),v=__v_real("v"),a=rr("a"),b=rr("b"),c=rr("c"),lo=rr("lo"),hi=rr("hi"); REQUIRES(u>=0&&v>=0&&u+v<=1&&lo<=a&&lo<=b&&lo<=c&&a<=hi&&b<=hi&&c<=hi); double w=1-u-v,p=u*a+v*b+w*c; double s0=u*(a-lo),s1=v*(b-lo),s2=w*(c-lo),t0=u*(hi-a),t1=v*(hi-b),t2=w*(hi-c); __v_assert(s0>=0&&s1>=0&&s2>=0&&t0>=0&&t1>=0&&t2>=0,"products of nonnegatives"); ENSURES_EQ(p-lo,s0+s1+s2,"lower"); ENSURES_EQ(hi-p,t0+t1+t2,"upper"); }
// ---- building the tree: one step of the recursion against the contract of the sub-trees
static Q*call[4]; static int ncall; static bool child_ok; static const Q*self_;
static void stub_sub(Q*q){ call[ncall++&3]=q; child_ok=child_ok&&q->parent==self_&&q->elements.size()>=1; for(auto&e:q->elements) ENSURES(q->aabb.contains(e.C),"precondition of the sub-tree: centroids lie in its quadrant"); for(int j=0;j<4;j++) child_ok=child_ok&&q->children[j]==nullptr; }
static void step(int n,bool root,int ax=2){ __v_replace_rec(addr(&Q::subdivide),(void*)&stub_sub); Q*par=root?nullptr:new Q; Q*q=new Q; q->parent=par; self_=q; ncall=0; child_ok=true; for(int i=0;i<2;i++){ bool y=ax==2||ax==i; q->aabb.A[i]=y?rr("A"):-2; q->aabb.B[i]=y?rr("B"):2; } q->aabb.update_centroid(); B old=q->aabb; std::vector<B> el(n); for(int k=0;k<n;k++){ B&e=el[k]; e.id=10+k; for(int i=0;i<2;i++){ if(ax==2||ax==i){ e.A[i]=rr("a"); e.B[i]=rr("b"); e.C[i]=rr("c"); } else { e.C[i]=k?__v_split(__v_int("cc",0,1)):-1; e.A[i]=root?-2:-3+k; e.B[i]=2; } REQUIRES(e.A[i]<=e.C[i]&&e.C[i]<=e.B[i]); } REQUIRES(old.contains(e.C)); if(root) REQUIRES(old.contains(e.A)&&old.contains(e.B)); q->elements.push_back(e); }
  q->subdivide(); for(int k=0;k<n;k++) ENSURES(q->aabb.contains(el[k].A)&&q->aabb.contains(el[k].B),"the box of a node contains the boxes of its elements"); ENSURES(q->aabb.contains(old.A)||old.A[0]>old.B[0]||old.A[1]>old.B[1],"box only grows");
  if(n<=1){ ENSURES(ncall==0&&(int)q->elements.size()==n,"at most one element: a leaf"); for(int j=0;j<4;j++) ENSURES(q->children[j]==nullptr,"without children"); return; }
  ENSURES(q->elements.empty()&&!q->is_leaf(),"elements are handed down"); ENSURES(child_ok,"children belong to the node"); int nc=0,seen[8]={0},total=0; for(int j=0;j<4;j++) if(q->children[j]){ bool rec=false; for(int c=0;c<ncall&&c<4;c++) rec=rec||call[c]==q->children[j]; ENSURES(rec,"every child is subdivided"); nc++; for(auto&e:q->children[j]->elements){ int k=e.id-10; ENSURES(k>=0&&k<n,"an element of the node"); seen[k]++; total++; for(int i=0;i<2;i++) ENSURES(e.A[i]==el[k].A[i]&&e.B[i]==el[k].B[i]&&e.C[i]==el[k].C[i],"unchanged"); } } ENSURES(nc==ncall,"once each"); ENSURES(total==n,"number of elements"); for(int k=0;k<n;k++) ENSURES(seen[k]==1,"every element is in exactly one child"); }
CONTRACT(leaf,"quad_node::subdivide update_bounds is_leaf","base case: a node with at most one element is a leaf whose box contains it") { step((int)__v_split(__v_int("n",0,1)),__v_split(__v_int("root",0,1))); }
BOUNDED(splitax,"quad_node::subdivide update_bounds","if sub-trees are built correctly so is the node: every element in exactly one child, boxes contain them (any depth)","2 elements in the node; boxes symbolic along one axis") { int ax=__v_split(__v_int("axis",0,1)); step(2,__v_split(__v_int("root",0,1)),ax); }
BOUNDED_T(split2,"quad_node::subdivide update_bounds","if sub-trees are built correctly so is the node: every element in exactly one child, boxes contain them (any depth)","2 elements in the node; all boxes symbolic") { step(2,__v_split(__v_int("root",0,1))); }
// ---- the root: bounds and elements handed to the recursion
static Q*rootq; static void stub_root(Q*q){ rootq=q; }
BOUNDED(init,"point_locator_2d_quad::initialize","the root box contains all vertices, every triangle is an element with its box and centroid","2 triangles, 4 vertices; coordinates symbolic along one axis") { __v_replace(addr(&Q::subdivide),(void*)&stub_root); std::vector<double> x; int ax=__v_split(__v_int("axis",0,1)); for(int i=0;i<8;i++) x.push_back(i%2==ax?rr("x"):(i*5)%8-3); M m(x,{2,0,1,1,2,3}); rootq=nullptr; L l(m); ENSURES(rootq==l.root&&l.root->parent==nullptr&&l.root->elements.size()==2,"elements"); for(int i=0;i<4;i++) ENSURES(l.root->aabb.contains(&x[2*i]),"vertex in the box"); for(int i=0;i<2;i++) ENSURES_EQ(2*l.root->aabb.C[i],l.root->aabb.A[i]+l.root->aabb.B[i],"centroid of the root box"); for(int t=0;t<2;t++){ int v[3]; m.get_triangle(t,v); B&e=l.root->elements[t]; ENSURES(e.id==t,"id"); for(int i=0;i<2;i++){ double s=0; bool a=false,b=false; for(int j=0;j<3;j++){ double y=x[2*v[j]+i]; s+=y; ENSURES(e.A[i]<=y&&y<=e.B[i],"box of the triangle"); a=a||e.A[i]==y; b=b||e.B[i]==y; } ENSURES(a&&b,"tight"); ENSURES_EQ(3*e.C[i],s,"centroid"); ENSURES(e.A[i]<=e.C[i]&&e.C[i]<=e.B[i],"centroid in its box"); } } }
// ---- searching: any well-formed tree; the triangle test by its contract
static const double FANX[10]={-2,-1, 0,0, 3,-1, 2,2, -1,3}; static const int FANC[12]={1,0,2,1,2,3,3,1,4,4,1,0};
static std::vector<double> fanx(){ return std::vector<double>(FANX,FANX+10); } static std::vector<int> fanc(){ return std::vector<int>(FANC,FANC+12); }
static const int CORN[4][3]={{0,1,2},{1,2,3},{1,3,4},{0,1,4}}; // each triangle's vertices, ascending
static int inside[4]; static double wt[4][3]; static const double*xq;
static bool stub_in(const double*p,const double*a,const double*b,const double*c,double*mu){ int t=-1; const double*v[3]={a,b,c}; for(int k=0;k<4;k++){ bool e=true; for(int j=0;j<3;j++) for(int i=0;i<2;i++) e=e&&v[j][i]==FANX[2*CORN[k][j]+i]; if(e) t=k; } ENSURES(t>=0&&p==xq,"the triangle test gets the point and the corners of one triangle"); for(int i=0;i<3;i++) mu[i]=wt[t][i]; return inside[t]; }
static Q*node(Q*p,const char*n){ Q*q=new Q; q->parent=p; for(int i=0;i<2;i++){ q->aabb.A[i]=rr(n); q->aabb.B[i]=rr(n); } return q; }
// contract of the recursion and of the boxes: when the point is in a triangle it is in the boxes of all nodes above it
static double X_[2]; static void leafn(Q*q,int t){ B e; e.id=t; q->elements.push_back(e); if(inside[t]) for(Q*n=q;n;n=n->parent) REQUIRES(n->aabb.contains(X_)); }
static Q*tree(int shape){ Q*r=node(nullptr,"r"); if(shape==0){ leafn(r,2); return r; } if(shape==1){ for(int j=0;j<4;j++) leafn(r->children[j]=node(r,"c"),3-j); return r; } if(shape==2){ Q*a=r->children[1]=node(r,"c"); leafn(a->children[0]=node(a,"d"),1); leafn(a->children[3]=node(a,"d"),0); leafn(r->children[2]=node(r,"c"),3); return r; } if(shape==3){ Q*a=r->children[0]=node(r,"c"); Q*b=a->children[2]=node(a,"d"); leafn(b->children[1]=node(b,"e"),2); leafn(b->children[2]=node(b,"e"),0); leafn(a->children[3]=node(a,"d"),1); Q*c=r->children[3]=node(r,"c"); leafn(c->children[0]=node(c,"d"),3); return r; } return r; }
static const int MEMB[5]={4,15,11,15,0};
static void search(bool rec){ M m(fanx(),fanc()); __v_replace((void*)&L::inside_triangle,(void*)&stub_in); __v_replace(addr(&Q::subdivide),(void*)&stub_root); L l(m); delete l.root; l.root=nullptr; X_[0]=rr("x"); X_[1]=rr("y"); xq=X_; for(int t=0;t<4;t++){ inside[t]=__v_split(__v_int("inside",0,1)); for(int i=0;i<3;i++) wt[t][i]=__v_real("w"); } int s=__v_split(__v_int("shape",0,4)); l.root=tree(s); double mu[3]={-9,-9,-9}; int id=rec?l.locate_point_recursive(X_,l.root,mu):l.locate(X_,mu); bool any=false; for(int t=0;t<4;t++) any=any||((MEMB[s]>>t&1)&&inside[t]); ENSURES((id>=0)==any,"found iff some triangle of the tree contains the point"); if(id>=0){ ENSURES(id<4&&(MEMB[s]>>id&1)&&inside[id],"the returned triangle contains the point"); for(int i=0;i<3;i++) ENSURES_EQ(mu[i],wt[id][i],"with its barycentric coordinates"); } else ENSURES(id==-1,"no triangle: -1"); }
BOUNDED(search,"point_locator_2d_quad::locate locate_point_nonrecursive","a triangle containing the point is returned with its coordinates, -1 only if there is none","five tree shapes of up to seven nodes; all boxes and the point symbolic") { search(false); }
BOUNDED(searchrec,"point_locator_2d_quad::locate_point_recursive","a triangle containing the point is returned with its coordinates, -1 only if there is none","five tree shapes of up to seven nodes; all boxes and the point symbolic") { search(true); }
BOUNDED(bvh,"point_locator_2d_quad::to_bvh","the flat tree has the structure, bounds, triangles and corner coordinates of the tree","five tree shapes of up to seven nodes; all boxes symbolic") { M m(fanx(),fanc()); __v_replace(addr(&Q::subdivide),(void*)&stub_root); L l(m); delete l.root; l.root=nullptr; for(int t=0;t<4;t++) inside[t]=0; int s=__v_split(__v_int("shape",0,4)); l.root=tree(s); auto d=l.to_bvh(); std::map<const Q*,int> id; std::vector<const Q*> order; order.push_back(l.root); for(size_t i=0;i<order.size();i++) for(auto c:order[i]->children) if(c) order.push_back(c); ENSURES(d.size()==order.size(),"one entry per node"); ENSURES(d[0].parentId==-1,"the root comes first");
  id[l.root]=0; for(const Q*q:order) for(int j=0;j<4;j++){ int i=id[q],c=d[i].childrenIds[j]; if(!q->children[j]){ ENSURES(c==-1,"no child"); continue; } ENSURES(c>0&&c<(int)d.size()&&d[c].parentId==i,"child and parent refer to each other"); id[q->children[j]]=c; } std::set<int> u; for(const Q*q:order){ auto&e=d[id[q]]; u.insert(id[q]); ENSURES_EQ(e.Ax,q->aabb.A[0],"bounds"); ENSURES_EQ(e.Ay,q->aabb.A[1],"bounds"); ENSURES_EQ(e.Bx,q->aabb.B[0],"bounds"); ENSURES_EQ(e.By,q->aabb.B[1],"bounds"); if(q->elements.empty()) ENSURES(e.triangleId==-1,"inner node"); else { int t=q->elements[0].id; ENSURES(e.triangleId==t&&e.i0==CORN[t][0]&&e.i1==CORN[t][1]&&e.i2==CORN[t][2],"triangle"); double c[6]={e.x0,e.y0,e.x1,e.y1,e.x2,e.y2}; for(int j=0;j<6;j++) ENSURES_EQ(c[j],FANX[2*CORN[t][j/2]+j%2],"corner coordinates"); } } ENSURES(u.size()==d.size(),"no node twice"); }
// ---- all together on one mesh
static void whole(const std::vector<double>&xs,const std::vector<int>&c){ M m(xs,c); L l(m); double x[2]={rr("x"),rr("y")},mu[3]; bool any=false; int nt=m.n(2); for(int t=0;t<nt;t++){ int v[3]; m.get_triangle(t,v); double s[3]; for(int j=0;j<3;j++){ const double*a=&xs[2*v[j]],*b=&xs[2*v[(j+1)%3]]; s[j]=(b[0]-a[0])*(x[1]-a[1])-(b[1]-a[1])*(x[0]-a[0]); } if((s[0]>=0&&s[1]>=0&&s[2]>=0)||(s[0]<=0&&s[1]<=0&&s[2]<=0)) any=true; } int id=l.locate(x,mu); ENSURES(id>=-1&&id<nt&&(id>=0)==any,"found iff the point is in a closed triangle"); if(id>=0){ int v[3]; m.get_triangle(id,v); ENSURES(mu[0]>=0&&mu[1]>=0&&mu[2]>=0,"inside"); ENSURES_EQ(mu[0]+mu[1]+mu[2],1,"sum"); for(int i=0;i<2;i++) ENSURES_EQ(mu[0]*xs[2*v[0]+i]+mu[1]*xs[2*v[1]+i]+mu[2]*xs[2*v[2]+i],x[i],"combination is the point"); } }
BOUNDED(fan,"point_locator_2d_quad (initialize, subdivide, locate, inside_triangle)","every point of the closed domain is located in a triangle containing it","fan of 4 triangles with concrete coordinates; the point symbolic") { whole(fanx(),fanc()); }
BOUNDED(grid,"point_locator_2d_quad (initialize, subdivide, locate, inside_triangle)","every point of the closed domain is located in a triangle containing it","3x3 grid of 8 triangles; the point symbolic") { std::vector<double> x; std::vector<int> c; for(int j=0;j<3;j++) for(int i=0;i<3;i++){ x.push_back(i*2); x.push_back(j*3); } for(int j=0;j<2;j++) for(int i=0;i<2;i++){ int a=j*3+i; for(int v:{a,a+1,a+4,a,a+3,a+4}) c.push_back(v); } whole(x,c); }
