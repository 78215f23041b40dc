// Property C15: derived fields (gradients, Jacobians, vorticity, products) are the central differences / definitions at every interior node.
#include "std_all.h"
#define private public
#define protected public
#include <ftk/config.hh>
#include <ftk/ndarray.hh>
#include <ftk/ndarray/grad.hh>
#include <ftk/numeric/gradient.hh>
#include "vals.h"
using namespace ftk; typedef std::vector<size_t> VS; typedef ndarray<double> A;
// @time 200
static double nod(A&a,const VS&d){ a.reshape(d); for(size_t i=0;i<a.nelem();i++) a[i]=__v_real("v"); return 0; }
static void same_shape(const A&a,const VS&d){ ENSURES(a.nd()==d.size()&&a.shape().size()==d.size(),"number of dimensions"); for(size_t i=0;i<d.size();i++) ENSURES(a.dim(i)==d[i],"extent"); }
static VS pre(const VS&lead,const VS&d){ VS r(lead); r.insert(r.end(),d.begin(),d.end()); return r; }
static VS mv(VS x,int dir,int by){ x[dir]+=by; return x; }
static double cd(const A&a,const VS&lead,const VS&x,int dir){ return a.at(pre(lead,mv(x,dir,1)))-a.at(pre(lead,mv(x,dir,-1))); }
// shapes: nd spatial extents of which every one is at least m and at most M, all combinations
static VS grid(int nd,int nt,int m,int M){ VS d; for(int i=0;i<nd;i++) d.push_back(__v_split(__v_int("dim",m,M))); for(int i=0;i<nt;i++) d.push_back(__v_split(__v_int("nt",1,2))); return d; }
template<class F> static void nodes(int nd,const VS&d,int b,F f){ VS x(d.size()); for(size_t i=0;i<d.size();i++) x[i]=(int)i<nd?b:0; while(true){ f(x); size_t i=0; for(;i<d.size();i++){ size_t lim=(int)i<nd?d[i]-b:d[i], lo=(int)i<nd?b:0; if(++x[i]<lim) break; x[i]=lo; } if(i==d.size()) return; } }

template<int nd,int nt> static void grad(int M){ VS d=grid(nd,nt,3,M); A a; nod(a,d); A g=nd==2?(nt?gradient2Dt(a):gradient2D(a)):(nt?gradient3Dt(a):gradient3D(a)); same_shape(g,pre({nd},d)); nodes(nd,d,1,[&](const VS&x){ for(int c=0;c<nd;c++) ENSURES_EQ(g.at(pre({(size_t)c},x)), cd(a,{},x,c)*(nd==3?0.5:nt?0.5*(double)(d[c]-1):(double)(d[c]-1)), "central difference"); }); }
BOUNDED(grad2,"gradient2D","central differences at every interior node","extents 3..5, all values") { grad<2,0>(5); }
BOUNDED(grad2t,"gradient2Dt","central differences at every interior node of every timestep","extents 3..5, 1..2 timesteps, all values") { grad<2,1>(5); }
BOUNDED(grad3,"gradient3D","central differences at every interior node","extents 3..5, all values") { grad<3,0>(5); }
BOUNDED(grad3t,"gradient3Dt","central differences at every interior node of every timestep","extents 3..4, 1..2 timesteps, all values") { grad<3,1>(4); }
BOUNDED(grad2border,"gradient2D (border)","one-sided differences with the same factor at border nodes","extents 2..4, all values") { VS d=grid(2,0,2,4); A a; nod(a,d); A g=gradient2D(a); for(long i=0;i<(long)d[0];i++) for(long j=0;j<(long)d[1];j++){ long w=d[0],h=d[1]; ENSURES_EQ(g(0,i,j),(a(std::min(i+1,w-1),j)-a(std::max(i-1,0l),j))*(double)(w-1),"x"); ENSURES_EQ(g(1,i,j),(a(i,std::min(j+1,h-1))-a(i,std::max(j-1,0l)))*(double)(h-1),"y"); } }

template<int nd,int nt,int b> static void jac(const VS&d,A&v,const A&J,double half){ same_shape(J,pre({nd,nd},d)); nodes(nd,d,b,[&](const VS&x){ for(size_t c=0;c<nd;c++) for(size_t e=0;e<nd;e++) ENSURES_EQ(J.at(pre({c,e},x)), cd(v,{c},x,e)*half*(nd==2?(double)(d[e]-1):1.0), "J(c,e) is the central difference of component c along direction e"); }); }
BOUNDED(jac2,"jacobian2D","J(c,e) is the central difference of component c in direction e at every interior node","extents 3..5, all values") { VS d=grid(2,0,3,5); A v; nod(v,pre({2},d)); jac<2,0,1>(d,v,jacobian2D<double>(v),1); }
BOUNDED(jac2s,"jacobian2D (symmetric)","diagonal entries are central differences, off-diagonal entries both the mean of the two mixed differences","extents 3..5, all values") { VS d=grid(2,0,3,5); A v; nod(v,pre({2},d)); A J=jacobian2D<double,true>(v); same_shape(J,pre({2,2},d)); nodes(2,d,1,[&](const VS&x){ double h01=cd(v,{0},x,1)*(double)(d[1]-1),h10=cd(v,{1},x,0)*(double)(d[0]-1); ENSURES_EQ(J.at(pre({0,0},x)),cd(v,{0},x,0)*(double)(d[0]-1),"00"); ENSURES_EQ(J.at(pre({1,1},x)),cd(v,{1},x,1)*(double)(d[1]-1),"11"); ENSURES_EQ(J.at(pre({0,1},x)),(h01+h10)*0.5,"01"); ENSURES_EQ(J.at(pre({1,0},x)),(h01+h10)*0.5,"10"); }); }
BOUNDED(jac2border,"jacobian2D (border)","one-sided differences with the same factor at border nodes","extents 2..4, all values") { VS d=grid(2,0,2,4); A v; nod(v,pre({2},d)); A J=jacobian2D<double>(v); long w=d[0],h=d[1]; for(int c=0;c<2;c++) for(long i=0;i<w;i++) for(long j=0;j<h;j++){ ENSURES_EQ(J(c,0,i,j),(v(c,std::min(i+1,w-1),j)-v(c,std::max(i-1,0l),j))*(double)(w-1),"x"); ENSURES_EQ(J(c,1,i,j),(v(c,i,std::min(j+1,h-1))-v(c,i,std::max(j-1,0l)))*(double)(h-1),"y"); } }
BOUNDED(jac2t,"jacobian2Dt","J(c,e) is the central difference of component c in direction e, every node at least two from the border, every timestep","extents 5..7, 1..2 timesteps, all values") { VS d=grid(2,1,5,7); A v; nod(v,pre({2},d)); jac<2,1,2>(d,v,jacobian2Dt(v),0.5); }
BOUNDED(jac3,"jacobian3D (default border)","J(c,e) is the central difference of component c in direction e, every node at least two from the border","extents 5..6, all values") { VS d=grid(3,0,5,6); A v; nod(v,pre({3},d)); A J=jacobian3D(v); jac<3,0,2>(d,v,J,0.5); ENSURES(J.multicomponents()==2,"a tensor field"); }
BOUNDED(jac3b,"jacobian3D (border 1)","J(c,e) is the central difference of component c in direction e at every interior node","extents 3..5, all values") { VS d=grid(3,0,3,5); A v; nod(v,pre({3},d)); jac<3,0,1>(d,v,jacobian3D(v,1),0.5); }
BOUNDED(jac3t,"jacobian3Dt","J(c,e) is the central difference of component c in direction e, every node at least two from the border, every timestep","extents 5..6, 1..2 timesteps, all values") { VS d=grid(3,1,5,6); A v; nod(v,pre({3},d)); jac<3,1,2>(d,v,jacobian3Dt(v),0.5); }

static void v3(VS&d,A&v){ d=grid(3,0,3,4); nod(v,pre({3},d)); v.set_multicomponents(1); }
BOUNDED(vort,"vorticity3D","the curl (central differences) at every interior node, as a vector field","extents 3..4, all values") { VS d; A v; v3(d,v); A w=vorticity3D(v); same_shape(w,pre({3},d)); ENSURES(w.multicomponents()==1,"a vector field"); nodes(3,d,1,[&](const VS&x){ for(size_t c=0;c<3;c++) ENSURES_EQ(w.at(pre({c},x)),cd(v,{(c+2)%3},x,(c+1)%3)-cd(v,{(c+1)%3},x,(c+2)%3),"curl"); }); }
BOUNDED(cross3,"cross_product3D","the pointwise cross product at every interior node","extents 3..4, all values") { VS d; A v,w; v3(d,v); nod(w,v.shape()); A p=cross_product3D(v,w); same_shape(p,v.shape()); ENSURES(p.multicomponents()==1,"a vector field"); nodes(3,d,1,[&](const VS&x){ for(size_t c=0;c<3;c++){ size_t a=(c+1)%3,b=(c+2)%3; ENSURES_EQ(p.at(pre({c},x)),v.at(pre({a},x))*w.at(pre({b},x))-v.at(pre({b},x))*w.at(pre({a},x)),"cross product"); } }); }
static void jv(bool tr){ VS d; A v; v3(d,v); A p=tr?JvT_dot_v(v):Jv_dot_v(v); same_shape(p,v.shape()); ENSURES(p.multicomponents()==1,"a vector field"); nodes(3,d,1,[&](const VS&x){ for(size_t c=0;c<3;c++){ double s=0; for(size_t e=0;e<3;e++) s+=0.5*(tr?cd(v,{e},x,c):cd(v,{c},x,e))*v.at(pre({e},x)); ENSURES_EQ(p.at(pre({c},x)),s,"product"); } }); }
BOUNDED(jvv,"Jv_dot_v","the Jacobian of the field times the field at every interior node","extents 3..4, all values") { jv(false); }
BOUNDED(jvtv,"JvT_dot_v","the transposed Jacobian of the field times the field at every interior node","extents 3..4, all values") { jv(true); }

// simplices: exact on every affine field
template<int n> static void simplexpts(double X[n+1][n]){ for(int i=0;i<=n;i++) for(int j=0;j<n;j++) X[i][j]=__v_real("X"); }
static double d2(double X[3][2]){ return (X[1][0]-X[0][0])*(X[2][1]-X[0][1])-(X[1][1]-X[0][1])*(X[2][0]-X[0][0]); }
CONTRACT(simplexgrad2,"gradient_2dsimplex2","the gradient of an affine function on a nondegenerate triangle is recovered exactly") { double X[3][2]; simplexpts<2>(X); double dt=d2(X); REQUIRES(dt!=0); double a=__v_real("a"),b=__v_real("b"),c=__v_real("c"),f[3],g[2]; for(int i=0;i<3;i++) f[i]=a*X[i][0]+b*X[i][1]+c; gradient_2dsimplex2<double>(X,f,g); ENSURES_EQ(g[0],a,"d/dx"); ENSURES_EQ(g[1],b,"d/dy"); }
CONTRACT(simplexjac2,"jacobian_2dsimplex2","the derivatives (direction by component) of an affine vector field on a nondegenerate triangle are recovered exactly") { double X[3][2]; simplexpts<2>(X); REQUIRES(d2(X)!=0); double a[2][2],c[2],f[3][2],g[2][2]; for(int k=0;k<2;k++){ c[k]=__v_real("c"); for(int j=0;j<2;j++) a[k][j]=__v_real("a"); } for(int i=0;i<3;i++) for(int k=0;k<2;k++) f[i][k]=a[k][0]*X[i][0]+a[k][1]*X[i][1]+c[k]; jacobian_2dsimplex2<double>(X,f,g); for(int k=0;k<2;k++) for(int j=0;j<2;j++) ENSURES_EQ(g[j][k],a[k][j],"derivative of component k along direction j"); }
CONTRACT(simplexjac3,"jacobian_3dsimplex","the derivatives (direction by component) of an affine vector field on a nondegenerate tetrahedron are recovered exactly") { double X[4][3]; simplexpts<3>(X); double D[3][3]; for(int i=0;i<3;i++) for(int j=0;j<3;j++) D[i][j]=X[i+1][j]-X[0][j]; double dt=D[0][0]*(D[1][1]*D[2][2]-D[1][2]*D[2][1])-D[0][1]*(D[1][0]*D[2][2]-D[1][2]*D[2][0])+D[0][2]*(D[1][0]*D[2][1]-D[1][1]*D[2][0]); REQUIRES(dt!=0); double a[3][3],c[3],f[4][3],g[3][3]; for(int k=0;k<3;k++){ c[k]=__v_real("c"); for(int j=0;j<3;j++) a[k][j]=__v_real("a"); } for(int i=0;i<4;i++) for(int k=0;k<3;k++) f[i][k]=a[k][0]*X[i][0]+a[k][1]*X[i][1]+a[k][2]*X[i][2]+c[k]; jacobian_3dsimplex<double>(X,f,g); for(int k=0;k<3;k++) for(int j=0;j<3;j++) ENSURES_EQ(g[j][k],a[k][j],"derivative of component k along direction j"); }
