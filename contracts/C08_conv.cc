// Property C08: smoothing kernels are normalised Gaussians and convolutions equal the weighted sums they denote.
#include "std_all.h"
#define private public
#define protected public
#include <ftk/config.hh>
#include <ftk/ndarray.hh>
#include <ftk/ndarray/conv.hh>
#include "vals.h"
using namespace ftk; typedef std::vector<size_t> VS; typedef ndarray<double> A;
// exp is a positive function of its argument (nothing else is assumed); every argument it was asked for is remembered
struct Exp { double x,y; }; static Exp memo[256]; static int nmemo;
extern "C" __attribute__((noinline)) double stub_exp(double x){ for(int i=0;i<nmemo;i++) if(memo[i].x==x) return memo[i].y; double y=__v_real("exp"); __v_assume(y>0); memo[nmemo].x=x; memo[nmemo].y=y; nmemo++; return y; }
static void setup(){ nmemo=0; if(__v_symbolic()) __v_replace((void*)(double(*)(double))exp,(void*)stub_exp); }
static double expo(double x){ return __v_symbolic()?stub_exp(x):exp(x); }
static A arr(const VS&d){ A a; a.reshape(d); for(size_t i=0;i<a.nelem();i++) a[i]=__v_real("v"); return a; }
static double sigma(){ double s=__v_real("sigma"); REQUIRES(s>0.125&&s<8); return s; }
static double g(double sg,double i,double n,double j=0,double m=1,double k=0,double l=1){ double x=i-(n-1)*0.5,y=j-(m-1)*0.5,z=k-(l-1)*0.5; return expo(-(x*x+y*y+z*z)/(2*sg*sg)); }

BOUNDED(kernel1,"gaussian_kernel","entries are the Gaussian at the distance from the center, positive and scaled to sum 1 (exp: any positive function)","sizes 1..7, all sigma in (1/8,8)") { setup(); long n=__v_split(__v_int("n",1,7)); double sg=sigma(); auto k=gaussian_kernel<double>(sg,n); ENSURES((long)k.size()==n,"size"); double s=0,q=0; std::vector<double> w(n); for(long i=0;i<n;i++){ w[i]=g(sg,i,n); q+=w[i]; } for(long i=0;i<n;i++){ s+=k[i]; ENSURES(k[i]>0,"positive"); ENSURES_EQ(k[i]*q,w[i],"Gaussian weight"); ENSURES_EQ(k[i],k[n-1-i],"symmetric"); } ENSURES_EQ(s,1.0,"sums to one"); }
BOUNDED(kernel2,"gaussian_kernel2D","entries are the Gaussian at the distance from the center, positive and scaled to sum 1 (exp: any positive function)","sizes 1..4 per direction, all sigma in (1/8,8)") { setup(); long n=__v_split(__v_int("n",1,4)),m=__v_split(__v_int("m",1,4)); double sg=sigma(); A k=gaussian_kernel2D<double>(sg,n,m); ENSURES(k.nd()==2&&(long)k.dim(0)==n&&(long)k.dim(1)==m,"shape"); double s=0,q=0; for(long j=0;j<m;j++) for(long i=0;i<n;i++) q+=g(sg,i,n,j,m); for(long j=0;j<m;j++) for(long i=0;i<n;i++){ s+=k(i,j); ENSURES(k(i,j)>0,"positive"); ENSURES_EQ(k(i,j)*q,g(sg,i,n,j,m),"Gaussian weight"); } ENSURES_EQ(s,1.0,"sums to one"); }
BOUNDED(kernel3,"gaussian_kernel3D","entries are the Gaussian at the distance from the center, positive and scaled to sum 1 (exp: any positive function)","sizes 1..3 per direction, all sigma in (1/8,8)") { setup(); long n=__v_split(__v_int("n",1,3)),m=__v_split(__v_int("m",1,3)),l=__v_split(__v_int("l",1,3)); double sg=sigma(); A k=gaussian_kernel3D<double>(sg,n,m,l); ENSURES(k.nd()==3&&(long)k.dim(0)==n&&(long)k.dim(1)==m&&(long)k.dim(2)==l,"shape"); double s=0,q=0; for(long z=0;z<l;z++) for(long j=0;j<m;j++) for(long i=0;i<n;i++) q+=g(sg,i,n,j,m,z,l); for(long z=0;z<l;z++) for(long j=0;j<m;j++) for(long i=0;i<n;i++){ s+=k(i,j,z); ENSURES(k(i,j,z)>0,"positive"); ENSURES_EQ(k(i,j,z)*q,g(sg,i,n,j,m,z,l),"Gaussian weight"); } ENSURES_EQ(s,1.0,"sums to one"); }

static double at0(A&a,long x,long y,long z=0){ if(x<0||y<0||z<0||x>=(long)a.dim(0)||y>=(long)a.dim(1)) return 0; if(a.nd()==3) return z<(long)a.dim(2)?a(x,y,z):0.0; return a(x,y); }
static void check2(A&d,A&k,long p,const A&r){ long w=d.dim(0)+2*p-k.dim(0)+1,h=d.dim(1)+2*p-k.dim(1)+1; ENSURES(r.nd()==2&&(long)r.dim(0)==w&&(long)r.dim(1)==h,"shape of the result"); double n=(double)(k.dim(0)*k.dim(1)); for(long y=0;y<h;y++) for(long x=0;x<w;x++){ double s=0; for(long j=0;j<(long)k.dim(1);j++) for(long i=0;i<(long)k.dim(0);i++) s+=at0(d,x+i-p,y+j-p)*k(i,j); ENSURES_EQ(r(x,y)*n,s,"weighted sum over the window, zero outside the domain, over the kernel size"); } }
static void check3(A&d,A&k,long p,const A&r){ long e[3]; for(int i=0;i<3;i++) e[i]=d.dim(i)+2*p-k.dim(i)+1; ENSURES(r.nd()==3&&(long)r.dim(0)==e[0]&&(long)r.dim(1)==e[1]&&(long)r.dim(2)==e[2],"shape of the result"); double n=(double)k.nelem(); for(long z=0;z<e[2];z++) for(long y=0;y<e[1];y++) for(long x=0;x<e[0];x++){ double s=0; for(long l=0;l<(long)k.dim(2);l++) for(long j=0;j<(long)k.dim(1);j++) for(long i=0;i<(long)k.dim(0);i++) s+=at0(d,x+i-p,y+j-p,z+l-p)*k(i,j,l); ENSURES_EQ(r(x,y,z)*n,s,"weighted sum over the window, zero outside the domain, over the kernel size"); } }
static void exts(int nd,VS&d,VS&k,int dm,int dM,int km,int kM,long p){ for(int i=0;i<nd;i++){ d.push_back(__v_split(__v_int("dim",dm,dM))); k.push_back(__v_split(__v_int("kdim",km,kM))); REQUIRES((long)k[i]<=(long)d[i]+2*p); } }
BOUNDED(conv2,"conv2D","every result element is the kernel-weighted sum of its window divided by the kernel size","data extents 2..4, kernel extents 1..3, padding 0..2, all values") { long p=__v_split(__v_int("padding",0,2)); VS d,k; exts(2,d,k,2,4,1,3,p); A a=arr(d),b=arr(k); check2(a,b,p,conv2D(a,b,(size_t)p)); }
BOUNDED(conv3,"conv3D","every result element is the kernel-weighted sum of its window divided by the kernel size","data extents 2..3, kernel extents 1..2, padding 0..1, all values") { long p=__v_split(__v_int("padding",0,1)); VS d,k; exts(3,d,k,2,3,1,2,p); A a=arr(d),b=arr(k); check3(a,b,p,conv3D(a,b,(size_t)p)); }
BOUNDED(convdefault,"conv2D conv3D (default padding)","without padding only complete windows contribute","data extents 2..3, kernel extents 2") { VS d,k; exts(2,d,k,2,3,2,2,0); A a=arr(d),b=arr(k); check2(a,b,0,conv2D(a,b)); VS e(d),l(k); e.push_back(3); l.push_back(2); A c=arr(e),f=arr(l); check3(c,f,0,conv3D(c,f)); }
static void convg(bool three,bool any){ setup(); long p=__v_split(__v_int("padding",0,1)); double sg=sigma(); VS d,k; exts(three?3:2,d,k,3,3,1,three?2:3,p); if(any) for(auto&x:k) REQUIRES(x==k[0]); A a=arr(d); A r; if(any) r=conv_gaussian<double>(a,sg,k[0],p); else if(three) r=conv3D_gaussian<double>(a,sg,k[0],k[1],k[2],p); else r=conv2D_gaussian<double>(a,sg,k[0],k[1],p); A b=three?gaussian_kernel3D<double>(sg,k[0],k[1],k[2]):gaussian_kernel2D<double>(sg,k[0],k[1]); if(three) check3(a,b,p,r); else check2(a,b,p,r); }
BOUNDED(conv2g,"conv2D_gaussian","convolution with the 2D Gaussian kernel of that size","data 3x3, kernel extents 1..3, padding 0..1") { convg(false,false); }
BOUNDED(conv3g,"conv3D_gaussian","convolution with the 3D Gaussian kernel of that size","data 3x3x3, kernel extents 1..2, padding 0..1") { convg(true,false); }
BOUNDED(convany2,"conv_gaussian (2D)","dispatches on the dimension of the data","data 3x3, kernel 1..3, padding 0..1") { convg(false,true); }
BOUNDED(convany3,"conv_gaussian (3D)","dispatches on the dimension of the data","data 3x3x3, kernel 1..2, padding 0..1") { convg(true,true); }
