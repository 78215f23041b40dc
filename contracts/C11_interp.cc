// Property C11: interpolation reproduces the data it interpolates and inverse interpolation finds exactly the zero.
#include "std_all.h"
#define private public
#define protected public
#include <ftk/config.hh>
#include <ftk/numeric/linear_solver.hh>
#include <ftk/numeric/linear_solver1.hh>
#include <ftk/numeric/linear_interpolation.hh>
#include <ftk/numeric/inverse_linear_interpolation_solver.hh>
#include <ftk/numeric/bilinear_interpolation.hh>
#include <ftk/numeric/inverse_bilinear_interpolation_solver.hh>
#include <ftk/numeric/trilinear_interpolation.hh>
#include <ftk/numeric/quadratic_interpolation.hh>
#include <ftk/numeric/wachspress_interpolation.hh>
#include <ftk/ndarray.hh>
#include "vals.h"
using namespace ftk;
// @time 200
// ---- barycentric interpolation is the weighted sum of the vertex values, component by component
#define LERP(NV,CALL,VAL,NC,IDX) { double V[NV][NC],mu[NV],v[NC]; reals(&V[0][0],NV*NC,"V"); reals(mu,NV,"mu"); CALL; for(int c=0;c<NC;c++){ double s=0; for(int i=0;i<NV;i++) s+=V[i][c]*mu[i]; ENSURES_EQ(v[c],s,"weighted sum"); } }
CONTRACT(lerp1, "lerp_s1 lerp_s1v2 lerp_s1v3 lerp_s1v4", "interpolated value = sum of weights times vertex values") {
  { double V[2],mu[2]; reals(V,2,"V"); reals(mu,2,"mu"); ENSURES_EQ(lerp_s1(V,mu),V[0]*mu[0]+V[1]*mu[1],"scalar"); }
  LERP(2,lerp_s1v2(V,mu,v),,2,) LERP(2,lerp_s1v3(V,mu,v),,3,) LERP(2,lerp_s1v4(V,mu,v),,4,)
  { double V[2][2],m=__v_real("m"),v[2]; reals(&V[0][0],4,"V"); lerp_s1v2(V,m,v); for(int c=0;c<2;c++) ENSURES_EQ(v[c],V[0][c]*m+V[1][c]*(1-m),"single weight"); } }
CONTRACT(lerp2, "lerp_s2 lerp_s2v lerp_s2v2 lerp_s2v3 lerp_s2v4 lerp_s2m2x2 lerp_s2m3x3", "interpolated value = sum of weights times vertex values") {
  { double V[3],mu[3]; reals(V,3,"V"); reals(mu,3,"mu"); ENSURES_EQ(lerp_s2(V,mu),V[0]*mu[0]+V[1]*mu[1]+V[2]*mu[2],"scalar"); }
  LERP(3,lerp_s2v2(V,mu,v),,2,) LERP(3,lerp_s2v3(V,mu,v),,3,) LERP(3,lerp_s2v4(V,mu,v),,4,) LERP(3,(lerp_s2v<double,5>(V,mu,v)),,5,)
  { double M[3][2][2],mu[3],m[2][2]; reals(&M[0][0][0],12,"M"); reals(mu,3,"mu"); lerp_s2m2x2(M,mu,m); for(int i=0;i<2;i++) for(int j=0;j<2;j++) ENSURES_EQ(m[i][j],M[0][i][j]*mu[0]+M[1][i][j]*mu[1]+M[2][i][j]*mu[2],"matrix entry"); }
  { double M[3][3][3],mu[3],m[3][3]; reals(&M[0][0][0],27,"M"); reals(mu,3,"mu"); lerp_s2m3x3(M,mu,m); for(int i=0;i<3;i++) for(int j=0;j<3;j++) ENSURES_EQ(m[i][j],M[0][i][j]*mu[0]+M[1][i][j]*mu[1]+M[2][i][j]*mu[2],"matrix entry"); } }
CONTRACT(lerp3, "lerp_s3 lerp_s3v3 lerp_s3v4 lerp_s3m3x3", "interpolated value = sum of weights times vertex values") {
  { double V[4],mu[4]; reals(V,4,"V"); reals(mu,4,"mu"); ENSURES_EQ(lerp_s3(V,mu),V[0]*mu[0]+V[1]*mu[1]+V[2]*mu[2]+V[3]*mu[3],"scalar"); }
  LERP(4,lerp_s3v3(V,mu,v),,3,) LERP(4,lerp_s3v4(V,mu,v),,4,)
  { double M[4][3][3],mu[4],m[3][3]; reals(&M[0][0][0],36,"M"); reals(mu,4,"mu"); lerp_s3m3x3(M,mu,m); for(int i=0;i<3;i++) for(int j=0;j<3;j++) ENSURES_EQ(m[i][j],M[0][i][j]*mu[0]+M[1][i][j]*mu[1]+M[2][i][j]*mu[2]+M[3][i][j]*mu[3],"matrix entry"); } }

// ---- inverse barycentric interpolation
static bool inr(double x,double lo,double hi){ return x>=lo&&x<=hi; }
CONTRACT(inv11, "inverse_lerp_s1v1", "the returned weights sum to one and interpolate to zero; true iff the zero is on the edge (second end excluded)") { double f[2],mu[2]; reals(f,2,"f"); REQUIRES(f[0]!=f[1]); bool r=inverse_lerp_s1v1(f,mu); ENSURES_EQ(mu[0]+mu[1],1,"sum"); ENSURES_EQ(lerp_s1(f,mu),0,"zero"); bool on=(f[0]<0&&f[1]>0)||(f[0]>0&&f[1]<0)||f[1]==0; ENSURES(r==on,"true iff the edge contains the zero"); }
CONTRACT(inv12, "inverse_lerp_s1v2 solve_least_square2x1", "the weight minimises the interpolated magnitude (exact zero if there is one); true iff it is in [0,1)") { double V[2][2],mu,v[2]; reals(&V[0][0],4,"V"); REQUIRES(V[0][0]!=V[1][0]||V[0][1]!=V[1][1]); bool r=inverse_lerp_s1v2(V,mu); lerp_s1v2(V,mu,v); ENSURES_EQ(v[0]*(V[0][0]-V[1][0])+v[1]*(V[0][1]-V[1][1]),0,"residual is orthogonal to the edge"); ENSURES(r==(mu>=0&&mu<1),"range"); }
CONTRACT(inv12z, "inverse_lerp_s1v2", "a zero on the edge is found") { double V[2][2],mu; double t=__v_real("t"),d[2]; reals(d,2,"d"); REQUIRES(d[0]!=0||d[1]!=0); for(int c=0;c<2;c++){ V[1][c]=-t*d[c]; V[0][c]=(1-t)*d[c]; } bool r=inverse_lerp_s1v2(V,mu); ENSURES_EQ(mu,t,"weight of the zero"); ENSURES(r==(t>=0&&t<1),"range"); }
CONTRACT(inv22, "inverse_lerp_s2v2", "the weights sum to one and interpolate to zero; true iff all are within [-eps,1+eps]") { double V[3][2],mu[3],v[2]; reals(&V[0][0],6,"V"); double e=__v_real("eps"); REQUIRES(e>=0); REQUIRES((V[0][0]-V[2][0])*(V[1][1]-V[2][1])-(V[1][0]-V[2][0])*(V[0][1]-V[2][1])!=0); bool r=inverse_lerp_s2v2(V,mu,(double*)nullptr,e); ENSURES_EQ(mu[0]+mu[1]+mu[2],1,"sum"); lerp_s2v2(V,mu,v); ENSURES_EQ(v[0],0,"zero x"); ENSURES_EQ(v[1],0,"zero y"); ENSURES(r==(inr(mu[0],-e,1+e)&&inr(mu[1],-e,1+e)&&inr(mu[2],-e,1+e)),"range"); }
CONTRACT(inv22c, "inverse_lerp_s2v2 cond_inverse_lerp_s2v2", "asking for the condition number changes neither weights nor verdict; both condition numbers agree") { double V[3][2],mu[3],nu[3],c; reals(&V[0][0],6,"V"); REQUIRES((V[0][0]-V[2][0])*(V[1][1]-V[2][1])-(V[1][0]-V[2][0])*(V[0][1]-V[2][1])!=0); bool r=inverse_lerp_s2v2(V,mu),s=inverse_lerp_s2v2(V,nu,&c); ENSURES(r==s,"verdict"); eqv(mu,nu,3,"weights"); ENSURES_EQ(c,cond_inverse_lerp_s2v2(V),"condition number"); }
CONTRACT(inv23, "inverse_lerp_s2v3 inverse_lerp_s2v3_0 solve_least_square3x2", "the weights sum to one and minimise the distance to the target; true iff all are within [-eps,1+eps]") { double V[3][3],W[3],mu[3],v[3]; reals(&V[0][0],9,"V"); reals(W,3,"W"); double e=__v_real("eps"); REQUIRES(e>=0); double a[3],b[3]; for(int c=0;c<3;c++){ a[c]=V[0][c]-V[2][c]; b[c]=V[1][c]-V[2][c]; } double aa=0,ab=0,bb=0; for(int c=0;c<3;c++){ aa+=a[c]*a[c]; ab+=a[c]*b[c]; bb+=b[c]*b[c]; } REQUIRES(aa*bb-ab*ab!=0); bool r=inverse_lerp_s2v3_0(V,W,mu,(double*)nullptr,e); ENSURES_EQ(mu[0]+mu[1]+mu[2],1,"sum"); lerp_s2v3(V,mu,v); double ra=0,rb=0; for(int c=0;c<3;c++){ ra+=(v[c]-W[c])*a[c]; rb+=(v[c]-W[c])*b[c]; } ENSURES_EQ(ra,0,"residual orthogonal to the triangle"); ENSURES_EQ(rb,0,"residual orthogonal to the triangle"); ENSURES(r==(inr(mu[0],-e,1+e)&&inr(mu[1],-e,1+e)&&inr(mu[2],-e,1+e)),"range"); }
CONTRACT(inv33, "inverse_lerp_s3v3", "the weights sum to one and interpolate to zero; true iff all are within [-eps,1+eps)") { double V[4][3],mu[4],v[3]; reals(&V[0][0],12,"V"); double e=__v_real("eps"); REQUIRES(e>=0); double m[9]; for(int c=0;c<3;c++) for(int i=0;i<3;i++) m[3*c+i]=V[i][c]-V[3][c]; REQUIRES(sdet3(m)!=0); bool r=inverse_lerp_s3v3(V,mu,(double*)nullptr,e); ENSURES_EQ(mu[0]+mu[1]+mu[2]+mu[3],1,"sum"); lerp_s3v3(V,mu,v); for(int c=0;c<3;c++) ENSURES_EQ(v[c],0,"zero"); bool ok=true; for(int i=0;i<4;i++) ok=ok&&mu[i]>=-e&&mu[i]<1+e; ENSURES(r==ok,"range"); }
CONTRACT(invint, "integer_inverse_lerp_s1v2 number_roots_linear1", "true iff the two components vanish together at exactly one point strictly inside the edge") { long V[2][2]; for(auto&r:V) for(auto&x:r) x=__v_int("V",-(1l<<30),1l<<30); bool r=integer_inverse_lerp_s1v2(V); long A[2]={V[0][0]-V[1][0],V[0][1]-V[1][1]},B[2]={-V[1][0],-V[1][1]}; auto in=[](long a,long b){ return a>0?(b>0&&b<a):a<0?(b<0&&b>a):false; }; bool s; if(A[0]==0&&A[1]==0) s=false; else if(A[0]==0) s=B[0]==0&&in(A[1],B[1]); else if(A[1]==0) s=B[1]==0&&in(A[0],B[0]); else s=A[0]*B[1]==A[1]*B[0]&&in(A[0],B[0]); ENSURES(r==s,"common interior zero"); }

// ---- bilinear and trilinear cells
CONTRACT(bilinear, "bilinear_interpolation3 bilinear_interpolation3_location (both layouts)", "the value is linear along each axis, equals the corner values at the corners, and all four routines agree") { double V[4][3],W[12],a=__v_real("a"),b=__v_real("b"),v[4][3]; reals(&V[0][0],12,"V"); for(int c=0;c<3;c++) for(int i=0;i<4;i++) W[4*c+i]=V[i][c]; bilinear_interpolation3(V,a,b,v[0]); bilinear_interpolation3(W,a,b,v[1]); bilinear_interpolation3_location(V,a,b,v[2]); bilinear_interpolation3_location(W,a,b,v[3]); for(int c=0;c<3;c++){ double lo=V[0][c]+a*(V[1][c]-V[0][c]),hi=V[3][c]+a*(V[2][c]-V[3][c]),s=lo+b*(hi-lo); for(int k=0;k<4;k++) ENSURES_EQ(v[k][c],s,"bilinear value (corners counter-clockwise)"); } }
CONTRACT(trilinear, "trilinear_interpolation3", "the value is linear along each axis and equals the corner values at the corners") { double V[8][3],a=__v_real("a"),b=__v_real("b"),g=__v_real("g"),v[3]; reals(&V[0][0],24,"V"); trilinear_interpolation3(V,a,b,g,v); for(int c=0;c<3;c++){ double s=0; for(int k=0;k<8;k++) s+=V[k][c]*((k&4)?a:1-a)*((k&2)?b:1-b)*((k&1)?g:1-g); ENSURES_EQ(v[c],s,"trilinear value"); } }
static double bil(const double*u,double x,double y){ return u[0]*(1-x)*(1-y)+u[1]*x*(1-y)+u[2]*x*y+u[3]*(1-x)*y; }
CONTRACT(invbil, "inverse_bilinear_interpolation", "every reported root is in the unit square and is a zero of both components (non-degenerate cells)") { double u[4],v[4],p[2][2]; reals(u,4,"u"); reals(v,4,"v"); double A0=u[0]-u[1]-u[3]+u[2],B0=u[1]-u[0],C0=u[3]-u[0],A1=v[0]-v[1]-v[3]+v[2],B1=v[1]-v[0],C1=v[3]-v[0]; double D=A0*C1-A1*C0; REQUIRES(D!=0); double q0=(-B0*C1+C0*B1)/D,q1=(-u[0]*C1+C0*v[0])/D,q2=(A1*B0-A0*B1)/D,q3=(A1*u[0]-A0*v[0])/D; REQUIRES(q2!=0); double disc=(q0+q3)*(q0+q3)/4-(q0*q3-q1*q2); REQUIRES(disc>=0); int n=inverse_bilinear_interpolation(u,v,p); ENSURES(n>=0&&n<=2,"count"); for(int i=0;i<n;i++){ ENSURES(p[i][0]>=0&&p[i][0]<=1&&p[i][1]>=0&&p[i][1]<=1,"inside"); ENSURES_EQ(bil(u,p[i][0],p[i][1]),0,"zero of u"); ENSURES_EQ(bil(v,p[i][0],p[i][1]),0,"zero of v"); } }

// ---- quadratic triangles
CONTRACT(quad, "quadratic_interpolation_coefficients quadratic_interpolation", "the quadratic takes the given values at the vertices and edge midpoints; Q is symmetric") { double f[6],x[3][2],Q[3][3]; reals(f,6,"f"); reals(&x[0][0],6,"x"); REQUIRES(x[0][0]*x[1][1]+x[1][0]*x[2][1]+x[2][0]*x[0][1]-x[0][0]*x[2][1]-x[1][0]*x[0][1]-x[2][0]*x[1][1]!=0); bool ok=quadratic_interpolation_coefficients(f,x,Q); ENSURES(ok,"ok"); int e[3][2]={{0,1},{1,2},{2,0}}; for(int i=0;i<3;i++){ ENSURES_EQ(quadratic_interpolation(Q,x[i]),f[i],"vertex value"); double m[2]={(x[e[i][0]][0]+x[e[i][1]][0])/2,(x[e[i][0]][1]+x[e[i][1]][1])/2}; ENSURES_EQ(quadratic_interpolation(Q,m),f[3+i],"midpoint value"); for(int j=0;j<3;j++) ENSURES_EQ(Q[i][j],Q[j][i],"symmetric"); } }
CONTRACT(quadgrad, "quadratic_interpolation_gradient quadratic_interpolation", "the gradient is the derivative of the quadratic: central differences of any step are exact") { double Q[3][3],x[3][2],g[3][2],h=__v_real("h"); for(int i=0;i<3;i++) for(int j=0;j<=i;j++) Q[i][j]=Q[j][i]=__v_real("Q"); reals(&x[0][0],6,"x"); quadratic_interpolation_gradient(Q,x,g); for(int i=0;i<3;i++) for(int d=0;d<2;d++){ double p[2]={x[i][0],x[i][1]},m[2]={x[i][0],x[i][1]}; p[d]+=h; m[d]-=h; ENSURES_EQ(quadratic_interpolation(Q,p)-quadratic_interpolation(Q,m),2*h*g[i][d],"derivative"); } }
CONTRACT(quadhess, "quadratic_interpolation_hessian quadratic_interpolation_gradient", "the Hessian is the derivative of the gradient") { double Q[3][3],x[3][2],g[3][2],H[2][2],h[2]; for(int i=0;i<3;i++) for(int j=0;j<=i;j++) Q[i][j]=Q[j][i]=__v_real("Q"); reals(&x[0][0],6,"x"); reals(h,2,"h"); for(int d=0;d<2;d++) x[1][d]=x[0][d]+h[d]; quadratic_interpolation_gradient(Q,x,g); quadratic_interpolation_hessian(Q,H); for(int d=0;d<2;d++) ENSURES_EQ(g[1][d]-g[0][d],H[d][0]*h[0]+H[d][1]*h[1],"second derivative"); ENSURES_EQ(H[0][1],H[1][0],"symmetric"); }
static double qb(const double Q[3][3],const double*m){ double s=0; for(int i=0;i<3;i++) for(int j=0;j<3;j++) s+=Q[i][j]*m[i]*m[j]; return s; }
CONTRACT(quadbary, "quadratic_interpolation_coefficient_simplex2 quadratic_interpolation_gradient_simplex2 quadratic_interpolation_gradient_simplex2_vertices", "the barycentric quadratic form takes the given values at vertices and midpoints; its gradients are its derivatives") { double f[6],Q[3][3],mu[3],g[3],G[3][3],h=__v_real("h"); reals(f,6,"f"); quadratic_interpolation_coefficient_simplex2(f,Q); int e[3][2]={{0,1},{1,2},{2,0}}; for(int i=0;i<3;i++){ double m[3]={0,0,0}; m[i]=1; ENSURES_EQ(qb(Q,m),f[i],"vertex value"); double c[3]={0,0,0}; c[e[i][0]]=c[e[i][1]]=0.5; ENSURES_EQ(qb(Q,c),f[3+i],"midpoint value"); } reals(mu,3,"mu"); quadratic_interpolation_gradient_simplex2(Q,mu,g); for(int d=0;d<3;d++){ double p[3]={mu[0],mu[1],mu[2]},m[3]={mu[0],mu[1],mu[2]}; p[d]+=h; m[d]-=h; ENSURES_EQ(qb(Q,p)-qb(Q,m),2*h*g[d],"derivative"); } quadratic_interpolation_gradient_simplex2_vertices(Q,G); for(int i=0;i<3;i++){ double m[3]={0,0,0}; m[i]=1; quadratic_interpolation_gradient_simplex2(Q,m,g); eqv(G[i],g,3,"gradient at the vertices"); } }

// ---- multilinear interpolation on n-d arrays at any position inside (x = i + mu with integer i)
template<int nd> static void mlerp(){ std::vector<size_t> d(nd); long i0[nd]; double mu[nd],x[nd]; long M=nd==1?(1l<<30):nd==2?(1l<<20):(1l<<16); for(int k=0;k<nd;k++){ i0[k]=__v_int("i",0,M); d[k]=i0[k]+2+__v_int("slack",0,M); mu[k]=__v_real("mu"); REQUIRES(mu[k]>=0&&mu[k]<1); x[k]=i0[k]+mu[k]; } ndarray<double> a; a.reshape(d); long n=1; for(auto e:d) n*=e; const double*src=(const double*)__v_array("A",n,8,1,0,0); memcpy(a.data(),src,n*8); double v; bool ok=a.mlerp(x,&v); ENSURES(ok,"inside"); double s=0; for(int c=0;c<(1<<nd);c++){ long pos=0,st=1; double w=1; for(int k=0;k<nd;k++){ int b=(c>>k)&1; pos+=(i0[k]+b)*st; st*=(long)d[k]; ENSURES(pos<=st-1,"lemma: partial index below partial product"); w*=b?mu[k]:1-mu[k]; } s+=w*src[pos]; } ENSURES_EQ(v,s,"multilinear combination of the corner values"); }
CONTRACT(mlerp1, "ndarray::mlerp (1D)", "linear interpolation between the two neighbours") { mlerp<1>(); }
CONTRACT(mlerp2, "ndarray::mlerp (2D)", "bilinear interpolation of the four corners of the cell") { mlerp<2>(); }
CONTRACT(mlerp3, "ndarray::mlerp (3D)", "trilinear interpolation of the eight corners of the cell") { mlerp<3>(); }
// on the last grid line of dimension e the call is refused, or gives the interpolation within that line; it never reads outside the array
template<int nd> static void mlerpedge(int e){ std::vector<size_t> d(nd); long i0[nd]; double mu[nd],x[nd]; long M=nd==1?(1l<<30):nd==2?(1l<<20):(1l<<16); for(int k=0;k<nd;k++){ i0[k]=__v_int("i",0,M); mu[k]=k==e?0:__v_real("mu"); REQUIRES(mu[k]>=0&&mu[k]<1); d[k]=k==e?i0[k]+1:i0[k]+2+__v_int("slack",0,M); x[k]=i0[k]+mu[k]; } ndarray<double> a; a.reshape(d); long n=1; for(auto q:d) n*=q; const double*src=(const double*)__v_array("A",n,8,1,0,0); memcpy(a.data(),src,n*8); double v; bool ok=a.mlerp(x,&v); if(!ok) return; double s=0; for(int c=0;c<(1<<nd);c++){ if((c>>e)&1) continue; long pos=0,st=1; double w=1; for(int k=0;k<nd;k++){ int b=(c>>k)&1; pos+=(i0[k]+b)*st; st*=(long)d[k]; ENSURES(pos<=st-1,"lemma: partial index below partial product"); w*=b?mu[k]:1-mu[k]; } s+=w*src[pos]; } ENSURES_EQ(v,s,"multilinear combination of the corner values"); }
CONTRACT(mlerpedge1, "ndarray::mlerp (1D, on the last node)", "refused or the nodal value; never reads outside the array") { mlerpedge<1>(0); ENSURES(true,"edge handled"); }
CONTRACT(mlerpedge2, "ndarray::mlerp (2D, on the last row)", "refused or interpolated along the row; never reads outside the array") { mlerpedge<2>(1); ENSURES(true,"edge handled"); }
CONTRACT(mlerpedge3, "ndarray::mlerp (3D, on the last slice)", "refused or interpolated within the slice; never reads outside the array") { mlerpedge<3>(2); ENSURES(true,"edge handled"); }
BOUNDED(mlerpc, "ndarray::mlerp (vector field)", "every component is interpolated separately", "2 or 3 components on a 3x4 grid, any position") { size_t nc=__v_split(__v_int("nc",2,3)); ndarray<double> a; a.reshape(std::vector<size_t>{nc,3,4}); for(size_t i=0;i<a.nelem();i++) a[i]=__v_real("v"); a.set_multicomponents(1); int i=__v_split(__v_int("i",0,1)),j=__v_split(__v_int("j",0,2)); double m0=__v_real("mu"),m1=__v_real("mu"); REQUIRES(m0>=0&&m0<1&&m1>=0&&m1<1); double x[2]={i+m0,j+m1},v[3]; ENSURES(a.mlerp(x,v),"inside"); for(size_t c=0;c<nc;c++) ENSURES_EQ(v[c],(1-m1)*((1-m0)*a(c,i,j)+m0*a(c,i+1,j))+m1*((1-m0)*a(c,i,j+1)+m0*a(c,i+1,j+1)),"component"); }
CONTRACT(mlerpout, "ndarray::mlerp", "positions outside the grid are refused") { ndarray<double> a; std::vector<size_t> d{(size_t)__v_int("d",1,1l<<20),(size_t)__v_int("d",1,1l<<20)}; a.reshape(d); double x[2]={__v_real("x"),__v_real("x")},v; REQUIRES(x[0]<0||x[1]<0||x[0]>(double)(d[0]-1)||x[1]>(double)(d[1]-1)); ENSURES(!a.mlerp(x,&v),"outside"); }
// ---- Wachspress weights of a polygon cell
// any function of the (symmetric) Gram determinant stands for the area, whose contract is 'triarea'
static double areaStub(const double*a,const double*b,const double*c){ double uu=0,uv=0,vv=0; for(int i=0;i<3;i++){ uu+=(b[i]-a[i])*(b[i]-a[i]); uv+=(b[i]-a[i])*(c[i]-a[i]); vv+=(c[i]-a[i])*(c[i]-a[i]); } return atan(uu*vv-uv*uv); }
template<int n> static void wach(){ __v_replace((void*)(double(*)(const double*,const double*,const double*))&triangle_area3<double>,(void*)&areaStub); double X[n][3],p[3],w[n]; reals(&X[0][0],3*n,"X"); reals(p,3,"p"); double A[n],s=0; for(int i=0;i<n;i++) A[i]=triangle_area3(X[i],p,X[(i+1)%n]); double W[n]; for(int i=0;i<n;i++){ double B=triangle_area3(X[(i+n-1)%n],X[i],X[(i+1)%n]),q=B; for(int j=0;j<n;j++) if(j!=i&&(j+1)%n!=i) q*=A[j]; W[i]=q; s+=q; } REQUIRES(s!=0); ENSURES(wachspress_weights(n,X,p,w),"inside"); double t=0; for(int i=0;i<n;i++){ t+=w[i]; ENSURES_EQ(w[i]*s,W[i],"corner area times the areas that do not touch the corner"); } ENSURES_EQ(t,1,"weights sum to one"); }
CONTRACT(wach3, "wachspress_weights triangle_area3 (triangle)", "weights are proportional to corner area times opposite areas and sum to one") { wach<3>(); }
CONTRACT(wach4, "wachspress_weights triangle_area3 (quadrilateral)", "weights are proportional to corner area times opposite areas and sum to one") { wach<4>(); }
CONTRACT(wach6, "wachspress_weights triangle_area3 (hexagon)", "weights are proportional to corner area times opposite areas and sum to one") { wach<6>(); }
CONTRACT(triarea, "triangle_area3", "four times the squared area is the Gram determinant of two sides; it is non-negative") { double a[3],b[3],c[3]; reals(a,3,"a"); reals(b,3,"b"); reals(c,3,"c"); double A=triangle_area3(a,b,c),uu=0,uv=0,vv=0; for(int i=0;i<3;i++){ uu+=(b[i]-a[i])*(b[i]-a[i]); uv+=(b[i]-a[i])*(c[i]-a[i]); vv+=(c[i]-a[i])*(c[i]-a[i]); } ENSURES(A>=0,"sign"); ENSURES_EQ(4*A*A,uu*vv-uv*uv,"Gram determinant"); }
