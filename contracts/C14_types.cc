// Property C14: eigenvalues/eigenvectors and the classification of critical points by them.  Floating point is real arithmetic.
#include "std_all.h"
#include <ftk/config.hh>
#include <iostream>
#include <complex>
#include <map>
#include <ftk/numeric/critical_point_type.hh>
#include <ftk/numeric/symmetric_matrix.hh>
#include <ftk/numeric/matrix_decomposition.hh>
#include "vals.h"
#include "vtrig.h"
using namespace ftk;
static double ab(double x){ return x<0?-x:x; }
static double coef(const char*n){ double c=__v_real(n); double e=std::numeric_limits<double>::epsilon(); REQUIRES(c==0||c>e||c<-e); return c; }
typedef double M2[2][2]; typedef double M3[3][3];
// ---- symmetric 2x2
CONTRACT(sym2, "solve_eigenvalues_symmetric2x2", "the two real eigenvalues (sum is the trace, product the determinant), larger magnitude first") { double a=__v_real("a"),b=__v_real("b"),d=__v_real("d"),e[2]; M2 m={{a,b},{b,d}}; solve_eigenvalues_symmetric2x2(m,e); ENSURES_EQ(e[0]+e[1],a+d,"sum"); ENSURES_EQ(e[0]*e[1],a*d-b*b,"product"); ENSURES(ab(e[0])>=ab(e[1]),"larger magnitude first"); }
static void eig2Stub(const M2 m,double*e){ double x=__v_real("l0"),y=__v_real("l1"); REQUIRES(x+y==m[0][0]+m[1][1]); REQUIRES(x*y==m[0][0]*m[1][1]-m[1][0]*m[0][1]); e[0]=x; e[1]=y; }
CONTRACT(type2s, "critical_point_type_2d (symmetric)", "minimum, maximum or saddle exactly when the Hessian is positive definite, negative definite or indefinite; otherwise degenerate") { if(__v_symbolic()) __v_replace((void*)(void(*)(const M2,double*))&solve_eigenvalues_symmetric2x2<double>,(void*)&eig2Stub); double a=__v_real("a"),b=__v_real("b"),d=__v_real("d"); M2 J={{a,b},{b,d}}; unsigned t=critical_point_type_2d(J,true); double D=a*d-b*b; unsigned w=D<0?CRITICAL_POINT_2D_SADDLE:D>0?(a>0?CRITICAL_POINT_2D_MINIMUM:CRITICAL_POINT_2D_MAXIMUM):CRITICAL_POINT_2D_DEGENERATE; ENSURES(t==w,"type"); }
// ---- general 2x2
CONTRACT(eig2, "solve_eigenvalues2x2 (real)", "the real eigenvalues") { M2 m={{__v_real("a"),__v_real("b")},{__v_real("c"),__v_real("d")}}; double e[3]={3,3,77}; double T=m[0][0]+m[1][1],D=m[0][0]*m[1][1]-m[0][1]*m[1][0],E=std::numeric_limits<double>::epsilon(); REQUIRES(D==0||D>E||D<-E); int n=solve_eigenvalues2x2(m,e); double q=T*T-4*D; ENSURES(e[2]==77,"frame"); ENSURES(q>0?n==2:q==0?n>=1:n==0,"number of real eigenvalues"); if(n==2){ ENSURES_EQ(e[0]+e[1],T,"sum"); ENSURES_EQ(e[0]*e[1],D,"product"); } if(n==1){ ENSURES_EQ(2*e[0],T,"double eigenvalue"); ENSURES(q==0,"double eigenvalue"); } }
static void useCsqrt(){ if(__v_symbolic()) __v_replace((void*)(std::complex<double>(*)(const std::complex<double>))&complex_sqrt<double>,(void*)&csqrtStub); }
CONTRACT(eig2c, "solve_eigenvalues2x2 (complex)", "both eigenvalues; returns the discriminant") { useCsqrt(); M2 m={{__v_real("a"),__v_real("b")},{__v_real("c"),__v_real("d")}}; std::complex<double> e[2]; double q=solve_eigenvalues2x2(m,e); double T=m[0][0]+m[1][1],D=m[0][0]*m[1][1]-m[0][1]*m[1][0]; ENSURES_EQ(q,T*T-4*D,"discriminant"); ENSURES_EQ(e[0].real()+e[1].real(),T,"sum"); ENSURES_EQ(e[0].imag()+e[1].imag(),0,"sum is real"); ENSURES_EQ(e[0].real()*e[1].real()-e[0].imag()*e[1].imag(),D,"product"); ENSURES_EQ(e[0].real()*e[1].imag()+e[0].imag()*e[1].real(),0,"product is real"); }
static double g_q; static std::complex<double> g_e[2];
static double eig2cStub(const M2 m,std::complex<double>*e){ double T=m[0][0]+m[1][1],D=m[0][0]*m[1][1]-m[0][1]*m[1][0],q=T*T-4*D; if(__v_branch(q>=0)){ double x=__v_real("l0"),y=__v_real("l1"); REQUIRES(x+y==T); REQUIRES(x*y==D); e[0]=x; e[1]=y; } else { double y=__v_real("im"); REQUIRES(y!=0); REQUIRES(4*y*y==-q); e[0]=std::complex<double>(T/2,y); e[1]=std::complex<double>(T/2,-y); } return q; }
CONTRACT(type2, "critical_point_type_2d (general)", "saddle, attracting, repelling, (attracting, repelling) focus, center or degenerate exactly as the signs of determinant, trace and discriminant say") { if(__v_symbolic()) __v_replace((void*)(double(*)(const M2,std::complex<double>*))&solve_eigenvalues2x2<double>,(void*)&eig2cStub); M2 J={{__v_real("a"),__v_real("b")},{__v_real("c"),__v_real("d")}}; unsigned t=critical_point_type_2d(J,false); double T=J[0][0]+J[1][1],D=J[0][0]*J[1][1]-J[0][1]*J[1][0],q=T*T-4*D; if(!__v_symbolic()) REQUIRES(ab(T)>1e-6); unsigned w=q<0?(T<0?CRITICAL_POINT_2D_ATTRACTING_FOCUS:T>0?CRITICAL_POINT_2D_REPELLING_FOCUS:CRITICAL_POINT_2D_CENTER):D<0?CRITICAL_POINT_2D_SADDLE:D>0?(T>0?CRITICAL_POINT_2D_REPELLING:CRITICAL_POINT_2D_ATTRACTING):CRITICAL_POINT_2D_DEGENERATE; ENSURES(t==w,"type"); }
// ---- eigenvectors: for any matrix with an eigenvector v whose components do not sum to zero (scaled to sum one)
CONTRACT(evec2, "solve_eigenvectors2x2", "unit vectors v with A*v = lambda*v") { double v0=__v_real("v0"),l=__v_real("lambda"),a=__v_real("a"),c=__v_real("c"); double v1=1-v0; M2 m; if(__v_branch(v1!=0)){ m[0][0]=a; m[1][0]=c; m[0][1]=(l*v0-a*v0)/v1; m[1][1]=(l*v1-c*v0)/v1; } else { m[0][0]=l; m[1][0]=0; m[0][1]=a; m[1][1]=c; } double e[2]={l,l}; M2 V; double p=m[0][0]-l-m[0][1],q=m[1][0]-m[1][1]+l; REQUIRES(p*p+q*q!=0); solve_eigenvectors2x2(m,1,e,V); double*v=V[0]; ENSURES_EQ(m[0][0]*v[0]+m[0][1]*v[1],l*v[0],"first row"); ENSURES_EQ(m[1][0]*v[0]+m[1][1]*v[1],l*v[1],"second row"); ENSURES_EQ(v[0]*v[0]+v[1]*v[1],1,"unit length"); }
// ---- symmetric 3x3: the characteristic polynomial of a symmetric matrix has three real roots; any such polynomial may come back
static double g_b,g_c,g_d; static double cpStubCalls;
static void cpStub(const M3 A,double*P){ P[3]=1; P[2]=g_b; P[1]=g_c; P[0]=g_d; }
static void eig3(int kind){ double b=__v_real("b"),q,r; installTrig(); if(kind==1){ double p=__v_real("p"); q=-p*p; r=p*p*p; cbrtHint(p); } else { double m=__v_real("m"),C=__v_real("cos"); REQUIRES(m>0&&C>0.5&&C<1); q=-m*m; r=m*m*m*(4*C*C*C-3*C); angle(C); __v_sqrt_hint(m); __v_sqrt_hint(m*m*m); lemmaCos(m,C); }
  g_b=b; g_c=3*q+b*b/3; g_d=(9*b*g_c-2*b*b*b-54*r)/27; M3 A={{1,2,3},{2,4,5},{3,5,6}}; double x[4]={0,0,0,77}; __v_replace((void*)(void(*)(const M3,double*))&characteristic_polynomial_3x3<double>,(void*)&cpStub); solve_eigenvalues_symmetric3x3(A,x); ENSURES(x[3]==77,"frame"); double y=__v_real("y"); ENSURES_EQ((y-x[0])*(y-x[1])*(y-x[2]),((y+g_b)*y+g_c)*y+g_d,"the three eigenvalues are the roots of the characteristic polynomial"); }
CONTRACT(sym3a, "solve_eigenvalues_symmetric3x3 (distinct eigenvalues)", "the three eigenvalues") { eig3(2); }
CONTRACT(sym3b, "solve_eigenvalues_symmetric3x3 (repeated eigenvalues)", "the three eigenvalues with multiplicity") { eig3(1); }
static double g_l[3]; static void eig3Stub(const M3 A,double*x){ for(int i=0;i<3;i++) x[i]=g_l[i]; }
CONTRACT(type3, "critical_point_type_3d (symmetric)", "minimum, maximum, saddle or degenerate as the signs of the eigenvalues say; non-symmetric input is reported as unknown") { reals(g_l,3,"lambda"); M3 J={{1,2,3},{2,4,5},{3,5,6}}; __v_replace((void*)(void(*)(const M3,double*))&solve_eigenvalues_symmetric3x3<double>,(void*)&eig3Stub); unsigned t=critical_point_type_3d(J,true); int p=0,n=0,z=0; for(double l:g_l) (l>0?p:l<0?n:z)++; ENSURES(t==(unsigned)(z?CRITICAL_POINT_3D_DEGENERATE:p==3?CRITICAL_POINT_3D_MINIMUM:n==3?CRITICAL_POINT_3D_MAXIMUM:CRITICAL_POINT_3D_SADDLE),"type"); ENSURES(critical_point_type_3d(J,false)==CRITICAL_POINT_3D_UNKNOWN,"unknown"); }
// least squares contract: a consistent system of full rank is solved exactly
static double g_v0,g_v1;
static double lsq32Stub(const double M[3][2],const double b[3],double x[2]){ double s00=0,s01=0,s11=0; for(int i=0;i<3;i++){ ENSURES_EQ(M[i][0]*g_v0+M[i][1]*g_v1,b[i],"the eigenvector solves the system that is set up"); s00+=M[i][0]*M[i][0]; s01+=M[i][0]*M[i][1]; s11+=M[i][1]*M[i][1]; } REQUIRES(s00*s11-s01*s01!=0); x[0]=g_v0; x[1]=g_v1; return 1; }
CONTRACT(evec3, "solve_eigenvectors3x3", "unit vectors v with A*v = lambda*v (eigenvector components not summing to zero, simple eigenvalue)") { if(__v_symbolic()) __v_replace((void*)(double(*)(const double[3][2],const double*,double*))&solve_least_square3x2<double>,(void*)&lsq32Stub); double v0=__v_real("v0"),v1=__v_real("v1"),l=__v_real("lambda"); double v[3]={v0,v1,1-v0-v1}; g_v0=v0; g_v1=v1; REQUIRES(v[2]!=0); M3 A; for(int i=0;i<3;i++){ A[i][0]=__v_real("a"); A[i][1]=__v_real("b"); A[i][2]=(l*v[i]-A[i][0]*v0-A[i][1]*v1)/v[2]; } double e[3]={l,l,l}; M3 V; solve_eigenvectors3x3(A,1,e,V); double s=0; for(int i=0;i<3;i++){ double t=0; for(int j=0;j<3;j++) t+=A[i][j]*V[0][j]; ENSURES_EQ(t,l*V[0][i],"eigenvector equation"); s+=V[0][i]*V[0][i]; } ENSURES_EQ(s,1,"unit length"); }
CONTRACT(symm, "make_symmetric2x2 make_symmetric3x3 matrix_symmetric_decomposition_3x3 matrix_antisymmetric_decomposition_3x3", "the symmetric and antisymmetric parts; they add up to the matrix") { M3 A,S,O,B; reals(&A[0][0],9,"A"); matrix_symmetric_decomposition_3x3(A,S); matrix_antisymmetric_decomposition_3x3(A,O); for(int i=0;i<3;i++) for(int j=0;j<3;j++){ B[i][j]=A[i][j]; ENSURES_EQ(2*S[i][j],A[i][j]+A[j][i],"symmetric part"); ENSURES_EQ(2*O[i][j],A[i][j]-A[j][i],"antisymmetric part"); } make_symmetric3x3(B); for(int i=0;i<3;i++) for(int j=0;j<3;j++) ENSURES_EQ(2*B[i][j],A[i][j]+A[j][i],"symmetrised"); M2 C={{A[0][0],A[0][1]},{A[1][0],A[1][1]}}; make_symmetric2x2(C); for(int i=0;i<2;i++) for(int j=0;j<2;j++) ENSURES_EQ(2*C[i][j],A[i][j]+A[j][i],"symmetrised"); }
// ---- generalized eigenvalues: roots of det(A - x B)
CONTRACT(gen2, "solve_generalized_eigenvalues2x2", "real x with det(A-xB)=0, all of them when B is not singular") { M2 A,B; reals(&A[0][0],4,"A"); reals(&B[0][0],4,"B"); double dB=B[0][0]*B[1][1]-B[0][1]*B[1][0],dA=A[0][0]*A[1][1]-A[0][1]*A[1][0],E=std::numeric_limits<double>::epsilon(); REQUIRES(dB>E||dB<-E); REQUIRES(dA==0||dA>E||dA<-E); double x[3]={1,1,77}; int n=solve_generalized_eigenvalues2x2(A,B,x); ENSURES(x[2]==77,"frame"); double y=__v_real("y"); double f=(A[0][0]-y*B[0][0])*(A[1][1]-y*B[1][1])-(A[0][1]-y*B[0][1])*(A[1][0]-y*B[1][0]); if(n==2) ENSURES_EQ(dB*(y-x[0])*(y-x[1]),f,"factorisation"); else if(n==1) ENSURES_EQ(dB*(y-x[0])*(y-x[0]),f,"factorisation"); }
static int cub4Stub(const double*P,double*x,const double e){ for(int i=0;i<4;i++) g_e[0]=0; static double*s; x[0]=P[0]; x[1]=P[1]; x[2]=P[2]; g_q=P[3]; return 3; }
CONTRACT(gen3, "solve_generalized_eigenvalues3x3", "the roots of the polynomial det(A-xB) are computed") { __v_replace((void*)(int(*)(const double*,double*,const double))&solve_cubic_real<double>,(void*)&cub4Stub); M3 A,B,C; reals(&A[0][0],9,"A"); reals(&B[0][0],9,"B"); double x[4]={0,0,0,77}; int n=solve_generalized_eigenvalues3x3(A,B,x); ENSURES(n==3&&x[3]==77,"roots of a cubic"); double y=__v_real("y"); for(int i=0;i<9;i++) (&C[0][0])[i]=(&A[0][0])[i]-y*(&B[0][0])[i]; ENSURES_EQ(x[0]+y*(x[1]+y*(x[2]+y*g_q)),sdet3(&C[0][0]),"characteristic polynomial"); }
CONTRACT(names, "critical_point_type_to_string", "every type has its own name; the same codes are named max/min for scalar fields") { const int c2[]={0,1,8,2,4,16,32,64}; const char*s2[]={"unknown","degenerate","max","min","saddle","attracting_focus","repelling_focus","center"}; const char*v2[]={"unknown","degenerate","attracting","repelling","saddle","attracting_focus","repelling_focus","center"}; for(int i=0;i<8;i++){ ENSURES(critical_point_type_to_string(2,c2[i],true)==s2[i],"scalar name"); ENSURES(critical_point_type_to_string(2,c2[i],false)==v2[i],"vector name"); } const int c3[]={0,1,8,2,4}; for(int i=0;i<5;i++) ENSURES(critical_point_type_to_string(3,c3[i],true)==s2[i],"3D name"); }
