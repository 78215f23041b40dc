// Contracts for libm functions used by Cardano's formulas (only installed when a contract is discharged symbolically; the native replay
// uses the real libm): pow(x,1/3) is the non-negative cube root of x>=0, acos inverts cos on [0,pi], cos((a+2k*pi)/3) by the triple-angle
// and addition formulas.  A hint names the value; that it satisfies the defining equation is an obligation.
#pragma once
#include <complex>
#include <cmath>
static double g_cb[4]; static int g_ncb=0; static double g_th,g_C,g_S; static int g_ang=0;
static void cbrtHint(double s){ g_cb[g_ncb++]=s; }
static double cbrtStub(double x){ for(int i=0;i<g_ncb;i++){ double s=g_cb[i]; if(__v_branch(x==s*s*s)) { return s; } if(__v_branch(x==-(s*s*s))) return -s; } __v_assert(false,"cube root of an unexpected value"); return 0; }
static double powStub(double x,double y){ if(y>0.33333333333333&&y<0.33333333333334){ __v_assert(x>=0,"pow is applied to a non-negative value"); return cbrtStub(x); } if(y==0.5) return std::sqrt(x); if(y==2) return x*x; if(y==3) return x*x*x; __v_assert(false,"pow with an unexpected exponent"); return 0; }
// three-root case: theta = 3a with cos(a)=C in (1/2,1), i.e. theta in (0,pi)
static void angle(double C){ g_C=C; g_S=std::sqrt(3-3*C*C); /* sqrt(3) sin(a) */ g_th=__v_real("theta"); g_ang=1; }
static double cosThird(int k){ return k==0?g_C:k==1?-g_C/2-g_S/2:-g_C/2+g_S/2; }
static double acosStub(double u){ __v_assert(u>=-1&&u<=1,"acos is applied to a cosine"); __v_assert(__v_eqd(u,4*g_C*g_C*g_C-3*g_C),"argument of acos is the cosine of three times the angle"); return g_th; }
static double cosStub(double x){ const double P=3.14159265358979323846; for(int k=0;k<3;k++){ double d=x-(g_th+2*k*P)/3.0; if(__v_branch(d<1e-9&&d>-1e-9)) return cosThird(k); } __v_assert(false,"cosine of an unexpected angle"); return 0; }
static void installTrig(){ if(!__v_symbolic()) return; __v_replace((void*)(double(*)(double,double))&pow,(void*)&powStub); __v_replace((void*)(double(*)(double))&acos,(void*)&acosStub); __v_replace((void*)(double(*)(double))&cos,(void*)&cosStub); __v_replace((void*)(double(*)(double))&cbrt,(void*)&cbrtStub); }
static void lemmaCubes(double s,double t){ __v_assert(s*s*s>t*t*t,"lemma: cubes are ordered like their roots"); }
static void lemmaCos(double m,double C){ __v_assert(4*C*C*C-3*C>-1&&4*C*C*C-3*C<1,"lemma: range of the triple-angle formula"); __v_assert(m*m*m>0,"lemma: positive cube"); }
// complex_sqrt: the principal square root of a real number
static std::complex<double> csqrtStub(const std::complex<double> z){ __v_assert(z.imag()==0,"complex square root of a real number"); double a=z.real(); if(__v_branch(a>=0)) return std::complex<double>(std::sqrt(a),0); return std::complex<double>(0,std::sqrt(-a)); }
