// Property C12: polynomial arithmetic and real root solvers.  Floating point is real arithmetic.  Cardano's formulas are checked on a
// parametrisation that reaches every coefficient triple: (b,q,r) with q=-s*t, r=(s^3+t^3)/2 (one real root), q=-p^2, r=p^3 (repeated
// root), q=-m^2, r=m^3*cos(3a) (three roots).  pow(.,1/3), acos and cos are replaced by their defining properties.
#include "std_all.h"
#include <ftk/config.hh>
#include <iostream>
#include <complex>
#include <map>
#include <ftk/numeric/polynomial.hh>
#include <ftk/numeric/quadratic_solver.hh>
#include <ftk/numeric/cubic_solver.hh>
#include "vals.h"
#include "vtrig.h"
using namespace ftk;
static const double EPS=std::numeric_limits<double>::epsilon();
static double ev(const double*P,int m,double x){ double s=0,p=1; for(int i=0;i<=m;i++){ s+=P[i]*p; p*=x; } return s; }
#define DEG "degrees 0..4 (evaluation: 0..6)"
static int deg(const char*n,int hi){ return __v_split(__v_int(n,0,hi)); }
BOUNDED(eval, "polynomial_evaluate", "the value is the sum of coefficient times power", DEG) { int m=deg("m",6); double P[7],x=__v_real("x"); reals(P,m+1,"P"); ENSURES_EQ(polynomial_evaluate(P,m,x),ev(P,m,x),"value"); }
BOUNDED(deriv, "polynomial_derivative polynomial_evaluate_derivative", "the derivative's coefficients, and its value", DEG) { int m=deg("m",6); double P[7],R[7],x=__v_real("x"); reals(P,m+1,"P"); R[m]=__v_real("guard"); double g=R[m]; polynomial_derivative(P,m,R); for(int i=0;i<m;i++) ENSURES_EQ(R[i],(i+1)*P[i+1],"coefficient"); ENSURES_EQ(R[m],g,"nothing beyond degree m-1 is written"); double s=0,p=1; for(int i=0;i<m;i++){ s+=(i+1)*P[i+1]*p; p*=x; } ENSURES_EQ(polynomial_evaluate_derivative(P,m,x),s,"value of the derivative"); }
BOUNDED(addsub, "polynomial_addition polynomial_subtraction polynomial_addition_in_place polynomial_subtraction_in_place", "value of the sum and difference, for either order of degrees", DEG) { int m=deg("m",4),n=deg("n",4),k=m>n?m:n; double P[6],Q[6],R[6],x=__v_real("x"); reals(P,m+1,"P"); reals(Q,n+1,"Q"); double p=ev(P,m,x),q=ev(Q,n,x); polynomial_addition(P,m,Q,n,R); ENSURES_EQ(ev(R,k,x),p+q,"sum"); polynomial_subtraction(P,m,Q,n,R); ENSURES_EQ(ev(R,k,x),p-q,"difference"); if(m>=n){ double S[6]; for(int i=0;i<=m;i++) S[i]=P[i]; polynomial_addition_in_place(S,m,Q,n); ENSURES_EQ(ev(S,m,x),p+q,"sum in place"); polynomial_subtraction_in_place(P,m,Q,n); ENSURES_EQ(ev(P,m,x),p-q,"difference in place"); } ENSURES_EQ(ev(Q,n,x),q,"operand unchanged"); }
BOUNDED(mul, "polynomial_multiplication polynomial_scalar_multiplication polynomial_copy", "value of the product, the multiple and the copy", DEG) { int m=deg("m",4),n=deg("n",4); double P[6],Q[6],R[12],x=__v_real("x"),c=__v_real("c"); reals(P,m+1,"P"); reals(Q,n+1,"Q"); double p=ev(P,m,x),q=ev(Q,n,x); for(auto&r:R) r=7; polynomial_multiplication(P,m,Q,n,R); ENSURES_EQ(ev(R,m+n,x),p*q,"product"); for(int i=m+n+1;i<12;i++) ENSURES_EQ(R[i],7,"nothing beyond the degree is written"); polynomial_scalar_multiplication((const double*)P,m,c,(double*)R); ENSURES_EQ(ev(R,m,x),c*p,"multiple"); polynomial_copy(P,m,R); ENSURES_EQ(ev(R,m,x),p,"copy"); polynomial_scalar_multiplication(P,m,c); ENSURES_EQ(ev(P,m,x),c*p,"multiple in place"); }
CONTRACT(iszero, "polynomial_equals_to_zero polynomial_equals_to_constant", "true exactly when all (all but the constant) coefficients are negligible") { int m=deg("m",4); double P[5]; reals(P,m+1,"P"); double e=__v_real("e"); REQUIRES(e>=0); bool z=true,c=true; for(int i=0;i<=m;i++) if(P[i]>e||P[i]<-e){ z=false; if(i) c=false; } ENSURES(polynomial_equals_to_zero(P,m,e)==z,"zero"); ENSURES(polynomial_equals_to_constant(P,m,e)==c,"constant"); }
// ---- real roots: the returned values are roots, every root is returned.  A coefficient is either 0 or larger than the tolerance.
static double coef(const char*n){ double c=__v_real(n); REQUIRES(c==0||c>EPS||c<-EPS); return c; }
static void exactly(const double*P,int m,const double*x,int n,const char*w){ for(int i=0;i<n;i++) ENSURES(__v_eqd(ev(P,m,x[i]),0),"every returned value is a root"); double y=__v_real("y"); REQUIRES(ev(P,m,y)==0); bool in=false; for(int i=0;i<n;i++) if(__v_branch(y==x[i])) in=true; ENSURES(in,w); }
CONTRACT(linear, "solve_linear_real1 number_roots_linear1", "the root of a linear polynomial; none when it is constant") { double P[2]={coef("P0"),coef("P1")},x[2]={99,99}; int n=solve_linear_real1(P,x); ENSURES(n==(P[1]!=0),"count"); ENSURES(x[1]==99,"frame"); if(n){ ENSURES_EQ(P[1]*x[0],-P[0],"root"); } int k=number_roots_linear1(P[1],P[0]); ENSURES(k==(P[1]!=0?LINEAR_EQUATION_UNIQUE_SOLUTION:P[0]!=0?LINEAR_EQUATION_NO_SOLUTION:LINEAR_EQUATION_INFINITE_SOLUTIONS),"classification"); }
CONTRACT(quad, "solve_quadratic_real", "exactly the real roots of a quadratic (nonzero leading or linear coefficient), at most two, nothing else written") { double P[3]={coef("P0"),coef("P1"),coef("P2")},x[3]={5,5,77}; REQUIRES(P[2]!=0||P[1]!=0); int n=solve_quadratic_real(P,x); ENSURES(n>=0&&n<=2,"at most two"); ENSURES(x[2]==77,"frame"); if(P[2]!=0){ double d=P[1]*P[1]-4*P[2]*P[0]; ENSURES(d>0?n==2:d==0?n>=1:n==0,"number of roots"); } if(n==2){ double y=__v_real("y"); ENSURES_EQ(P[2]*(y-x[0])*(y-x[1]),ev(P,2,y),"factorisation"); } else if(n==1){ double y=__v_real("y"); if(P[2]!=0) ENSURES_EQ(P[2]*(y-x[0])*(y-x[0]),ev(P,2,y),"double root"); else ENSURES_EQ(P[1]*(y-x[0]),ev(P,2,y),"linear root"); } }
CONTRACT(quadm, "solve_quadratic_real_multiplicity", "the real roots with their multiplicities") { double P[3]={coef("P0"),coef("P1"),coef("P2")}; REQUIRES(P[2]!=0); auto r=solve_quadratic_real_multiplicity(P); double y=__v_real("y"),d=P[1]*P[1]-4*P[2]*P[0]; int tot=0; double f=P[2]; for(auto&k:r){ tot+=k.second; for(int j=0;j<k.second;j++) f*=y-k.first; } ENSURES(tot==(d>=0?2:0),"number of roots counted with multiplicity"); if(tot==2) ENSURES_EQ(f,ev(P,2,y),"factorisation"); }
CONTRACT(quadc, "solve_quadratic", "both complex roots; returns the discriminant") { if(__v_symbolic()) __v_replace((void*)(std::complex<double>(*)(const std::complex<double>))&complex_sqrt<double>,(void*)&csqrtStub); double P[3]={__v_real("P0"),__v_real("P1"),__v_real("P2")}; REQUIRES(P[2]!=0); std::complex<double> x[2]; double d=solve_quadratic(P,x); ENSURES_EQ(d,P[1]*P[1]-4*P[2]*P[0],"discriminant"); ENSURES_EQ(P[2]*(x[0].real()+x[1].real()),-P[1],"sum"); ENSURES_EQ(x[0].imag()+x[1].imag(),0,"conjugate"); ENSURES_EQ(P[2]*(x[0].real()*x[1].real()-x[0].imag()*x[1].imag()),P[0],"product"); ENSURES_EQ(x[0].real()*x[1].imag()+x[0].imag()*x[1].real(),0,"product is real"); if(d>=0) ENSURES(x[0].imag()==0&&x[1].imag()==0,"real roots"); else ENSURES_EQ(x[0].real(),x[1].real(),"same real part"); }
// ---- cubic
struct Cub { double b,c,d,x[3]; int n; };
// kind 0: one real root; 1: repeated root; 2: three real roots.  x: the roots (kind 0: the real one)
static Cub cubic(int kind){ Cub k; k.b=__v_real("b"); double q,r; installTrig();
  if(kind==0){ double s=__v_real("s"),t=__v_real("t"); REQUIRES(s>t); q=-s*t; r=(s*s*s+t*t*t)/2; cbrtHint(s); cbrtHint(t); double e=(s*s*s-t*t*t)/2; lemmaCubes(s,t); __v_sqrt_hint(e); k.x[0]=s+t-k.b/3; k.n=1; }
  else if(kind==1){ double p=__v_real("p"); q=-p*p; r=p*p*p; cbrtHint(p); k.x[0]=2*p-k.b/3; k.x[1]=k.x[2]=-p-k.b/3; k.n=p==0?1:2; }
  else { double m=__v_real("m"),C=__v_real("cos"); REQUIRES(m>0&&C>0.5&&C<1); q=-m*m; r=m*m*m*(4*C*C*C-3*C); angle(C); __v_sqrt_hint(m); __v_sqrt_hint(m*m*m); lemmaCos(m,C); for(int i=0;i<3;i++) k.x[i]=2*m*cosThird(i)-k.b/3; k.n=3; }
  k.c=3*q+k.b*k.b/3; k.d=(9*k.b*k.c-2*k.b*k.b*k.b-54*r)/27; return k; }
static double cubv(const Cub&k,double y){ return ((y+k.b)*y+k.c)*y+k.d; }
template<int kind> static void cubreal(){ Cub k=cubic(kind); double x[4]={5,5,5,77}; int n=solve_cubic_real(k.b,k.c,k.d,x); ENSURES(n==k.n,"number of distinct real roots"); ENSURES(x[3]==77,"frame"); double y=__v_real("y"); if(kind==2){ ENSURES_EQ((y-x[0])*(y-x[1])*(y-x[2]),cubv(k,y),"factorisation"); ENSURES(x[0]!=x[1]&&x[1]!=x[2]&&x[0]!=x[2],"distinct"); } else if(kind==1){ if(n==2) ENSURES_EQ((y-x[0])*(y-x[1])*(y-x[1]),cubv(k,y),"factorisation"); else ENSURES_EQ((y-x[0])*(y-x[0])*(y-x[0]),cubv(k,y),"triple root"); } else ENSURES_EQ(cubv(k,x[0]),0,"root"); }
CONTRACT(cub1, "solve_cubic_real (one real root)", "one value, which is the root") { cubreal<0>(); }
CONTRACT(cub2, "solve_cubic_real (repeated root)", "the distinct roots of a cubic with a repeated root") { cubreal<1>(); }
CONTRACT(cub3, "solve_cubic_real (three real roots)", "exactly the three roots") { cubreal<2>(); }
template<int kind> static void cubm(){ Cub k=cubic(kind); auto r=solve_cubic_real_multiplicity(k.b,k.c,k.d); double y=__v_real("y"),f=1; int tot=0; for(auto&e:r){ tot+=e.second; for(int j=0;j<e.second;j++) f*=y-e.first; } ENSURES(tot==(kind==0?1:3),"number of roots counted with multiplicity"); if(kind) ENSURES_EQ(f,cubv(k,y),"factorisation"); else for(auto&e:r) ENSURES_EQ(cubv(k,e.first),0,"root"); }
CONTRACT(cubm1, "solve_cubic_real_multiplicity (one real root)", "the root, once") { cubm<0>(); }
CONTRACT(cubm2, "solve_cubic_real_multiplicity (repeated root)", "the roots with multiplicities that add up to three") { cubm<1>(); }
CONTRACT(cubm3, "solve_cubic_real_multiplicity (three real roots)", "three simple roots") { cubm<2>(); }
template<int kind> static void cubcx(){ Cub k=cubic(kind); std::complex<double> x[3]; double D=solve_cubic(k.b,k.c,k.d,x); ENSURES(kind==0?D>0:kind==1?D==0:D<0,"sign of the discriminant"); double s=0,si=0,p2=0,p2i=0,p3=0,p3i=0; for(int i=0;i<3;i++){ s+=x[i].real(); si+=x[i].imag(); for(int j=i+1;j<3;j++){ p2+=x[i].real()*x[j].real()-x[i].imag()*x[j].imag(); p2i+=x[i].real()*x[j].imag()+x[i].imag()*x[j].real(); } } double ar=x[0].real()*x[1].real()-x[0].imag()*x[1].imag(),ai=x[0].real()*x[1].imag()+x[0].imag()*x[1].real(); p3=ar*x[2].real()-ai*x[2].imag(); p3i=ar*x[2].imag()+ai*x[2].real(); ENSURES_EQ(s,-k.b,"sum of roots"); ENSURES_EQ(si,0,"sum is real"); ENSURES_EQ(p2i,0,"pair sum is real"); ENSURES_EQ(p3i,0,"product is real"); if(kind){ ENSURES_EQ(p2,k.c,"pair sum"); ENSURES_EQ(p3,-k.d,"product"); } }
CONTRACT(cubc2, "solve_cubic complex (repeated root)", "the three roots (symmetric functions equal the coefficients)") { cubcx<1>(); }
CONTRACT(cubc3, "solve_cubic complex (three real roots)", "the three roots (symmetric functions equal the coefficients)") { cubcx<2>(); }
// dispatch on vanishing coefficients: leading coefficient 0 gives the quadratic, constant coefficient 0 gives the root 0 and the quotient
static int cubStub(double b,double c,double d,double*x,const double e){ double*g=(double*)x; g[0]=b; g[1]=c; g[2]=d; return 33; }
CONTRACT(cubdisp, "solve_cubic_real (four coefficients)", "normalised coefficients are solved as a cubic; degenerate cubics return exactly the roots of the lower-degree factor and zero") { if(__v_symbolic()) __v_replace((void*)(int(*)(double,double,double,double*,const double))&solve_cubic_real<double>,(void*)&cubStub); double P[4]={coef("P0"),coef("P1"),coef("P2"),coef("P3")},x[4]={5,5,5,77}; REQUIRES(P[3]!=0||P[2]!=0||P[1]!=0); if(P[3]==0||P[0]==0||!__v_symbolic()){ REQUIRES(P[3]==0||P[0]==0); int n=solve_cubic_real(P,x); ENSURES(n<=3,"at most three"); ENSURES(x[3]==77,"frame"); exactly(P,3,x,n,"every real root is returned"); } else { int n=solve_cubic_real(P,x); ENSURES(n==33,"solved as a cubic"); ENSURES_EQ(x[0]*P[3],P[2],"b"); ENSURES_EQ(x[1]*P[3],P[1],"c"); ENSURES_EQ(x[2]*P[3],P[0],"d"); } }
CONTRACT(disc, "cubic_discriminant", "the discriminant of a(x-u)(x-v)(x-w) is a^4 times the squared differences of the roots") { double a=__v_real("a"),u=__v_real("u"),v=__v_real("v"),w=__v_real("w"); double P[4]={-a*u*v*w,a*(u*v+u*w+v*w),-a*(u+v+w),a}; double q=(u-v)*(u-w)*(v-w); ENSURES_EQ(cubic_discriminant(P),a*a*a*a*q*q,"discriminant"); }
