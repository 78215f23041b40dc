// small helpers shared by the contract files (specification side only)
#pragma once
#include "vharness.h"
#include <vector>
#include <cmath>
#include <limits>
template<class T,int n> struct MatIn { T a[n]; };
static inline void reals(double* p,int n,const char* nm){ for(int i=0;i<n;i++) p[i]=__v_real(nm); }
static inline double sq(double x){return x*x;}
// specification determinant by Laplace expansion (independent of the code under contract)
static inline double sdet2(double a,double b,double c,double d){ return a*d-b*c; }
static inline double sdet3(const double*m){ return m[0]*sdet2(m[4],m[5],m[7],m[8])-m[1]*sdet2(m[3],m[5],m[6],m[8])+m[2]*sdet2(m[3],m[4],m[6],m[7]); }
static inline double sdet4(const double*m){ double s=0; for(int c=0;c<4;c++){ double k[9]; int q=0; for(int i=1;i<4;i++) for(int j=0;j<4;j++) if(j!=c) k[q++]=m[4*i+j]; s+= (c%2?-1:1)*m[c]*sdet3(k);} return s; }
// named obligation for entry (i,j): all entries of one claim share a name
static inline void eqv(const double*a,const double*b,int n,const char*name){ for(int i=0;i<n;i++) ENSURES_EQ(a[i],b[i],name); }
