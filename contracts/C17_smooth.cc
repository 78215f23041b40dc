// Property C17: Gaussian smoothing on triangular and tetrahedral meshes.
#include "std_all.h"
#define private public
#define protected public
#include <ftk/config.hh>
#include <ftk/mesh/simplicial_unstructured_2d_mesh.hh>
#include <ftk/mesh/simplicial_unstructured_3d_mesh.hh>
#include "vals.h"
using namespace ftk; typedef simplicial_unstructured_2d_mesh<int,double> M2; typedef simplicial_unstructured_3d_mesh<int,double> M3; typedef ndarray<double> A;
// exp is a positive function of its argument (nothing else is assumed)
struct Exp { double x,y; }; static Exp memo[64]; static int nmemo;
extern "C" __attribute__((noinline)) double stub_exp(double x){ for(int i=0;i<nmemo;i++) if(memo[i].x==x) return memo[i].y; double y=__v_real("exp"); __v_assume(y>0); memo[nmemo].x=x; memo[nmemo].y=y; nmemo++; return y; }
static double expo(double x){ return __v_symbolic()?stub_exp(x):exp(x); }
// parallel_for calls f exactly once with each index below n (its contract, C02)
static void stub_pf(size_t n,std::function<void(size_t)> f,int,int,bool){ for(size_t i=0;i<n;i++) f(n-1-i); }
static unsigned stub_hc(){ return 4; }
static void setup(){ nmemo=0; if(__v_symbolic()) __v_replace((void*)&std::thread::hardware_concurrency,(void*)&stub_hc); if(__v_symbolic()) __v_replace((void*)(double(*)(double))exp,(void*)stub_exp); __v_replace((void*)(void(*)(size_t,std::function<void(size_t)>,int,int,bool))&object::parallel_for,(void*)&stub_pf); }
static double rr(const char*n){ return __v_real(n); }
template <class M> static void kern(M&m,int n){ m.smoothing_kernel.resize(n); for(int i=0;i<n;i++){ int k=__v_split(__v_int("k",0,n)); for(int j=0;j<k;j++) m.smoothing_kernel[i].push_back(std::make_tuple((i+j)%n,rr("w"))); } }
template <class M,int D> static void check(const M&m,const std::vector<double>&x,int n,double sg,const A&f,const A&s,const A&g,const A&J){ ENSURES((int)s.nelem()==n&&g.dim(0)==D&&(int)g.dim(1)==n&&J.dim(0)==D&&J.dim(1)==D&&(int)J.dim(2)==n,"shapes"); double s2=sg*sg; for(int i=0;i<n;i++){ double v=0,gr[D]={0},h[D][D]; for(int a=0;a<D;a++) for(int b=0;b<D;b++) h[a][b]=0; for(auto&t:m.smoothing_kernel[i]){ int k=std::get<0>(t); double w=f[k]*std::get<1>(t),d[D]; for(int a=0;a<D;a++) d[a]=x[D*k+a]-x[D*i+a]; v+=w; for(int a=0;a<D;a++){ gr[a]+=w*d[a]; for(int b=0;b<D;b++) h[a][b]+=w*(d[a]*d[b]-(a==b?s2:0)); } } ENSURES_EQ(s[i],v,"smoothed value"); for(int a=0;a<D;a++){ ENSURES_EQ(g(a,i)*s2,gr[a],"gradient of the smoothed field"); for(int b=0;b<D;b++) ENSURES_EQ(J(a,b,i)*s2*s2,h[a][b],"second derivative of the smoothed field"); } } }
static std::vector<double> xs(int n){ std::vector<double> x; for(int i=0;i<n;i++) x.push_back(rr("x")); return x; }
static A field(int n){ A f; f.reshape((size_t)n); for(int i=0;i<n;i++) f[i]=rr("f"); return f; }
BOUNDED(smooth2,"simplicial_unstructured_2d_mesh::smooth_scalar_gradient_jacobian smooth_scalar","kernel-weighted sum and its exact first and second derivatives","3 vertices, kernels of 0..3 entries; coordinates, weights, values, sigma symbolic") { setup(); auto x=xs(6); M2 m(x,{0,1,2}); kern(m,3); m.sigma=rr("sigma"); REQUIRES(m.sigma>0); A f=field(3),s,g,J; m.smooth_scalar_gradient_jacobian(f,s,g,J); check<M2,2>(m,x,3,m.sigma,f,s,g,J); A t=m.smooth_scalar(f); for(int i=0;i<3;i++) ENSURES_EQ(t[i],s[i],"smooth_scalar agrees"); }
BOUNDED(smooth3,"simplicial_unstructured_3d_mesh::smooth_scalar_gradient_jacobian","kernel-weighted sum and its exact first and second derivatives","4 vertices, kernels of 0..2 entries; coordinates, weights, values, sigma symbolic") { setup(); auto x=xs(12); M3 m(x,{0,1,2,3}); m.smoothing_kernel.resize(4); for(int i=0;i<4;i++){ int k=__v_split(__v_int("k",0,2)); for(int j=0;j<k;j++) m.smoothing_kernel[i].push_back(std::make_tuple((i+1+j)%4,rr("w"))); } double sg=rr("sigma"); REQUIRES(sg>0); A f=field(4),s,g,J; m.smooth_scalar_gradient_jacobian(f,sg,s,g,J); check<M3,3>(m,x,4,sg,f,s,g,J); }
// kernel: the vertices reachable through vertices closer than 3 sigma, with Gaussian weights
template <class M,int D> static void kernel(M&m,const std::vector<double>&x,int n,double sg,const std::vector<std::set<int>>&nb){ double lim=9*sg*sg; ENSURES((int)m.smoothing_kernel.size()==n,"one kernel per vertex"); for(int i=0;i<n;i++){ auto d2=[&](int j){ double s=0; for(int a=0;a<D;a++) s+=(x[D*i+a]-x[D*j+a])*(x[D*i+a]-x[D*j+a]); return s; }; std::set<int> r={i}; for(int it=0;it<n;it++) for(int j=0;j<n;j++) if(!r.count(j)){ bool adj=false; for(int k:nb[j]) if(r.count(k)) adj=true; if(adj&&d2(j)<lim) r.insert(j); } std::set<int> got; for(auto&t:m.smoothing_kernel[i]) got.insert(std::get<0>(t)); ENSURES(got==r&&m.smoothing_kernel[i].size()==r.size(),"vertices connected within three sigma, once each"); for(auto&t:m.smoothing_kernel[i]){ double d=d2(std::get<0>(t)),w=std::get<1>(t); ENSURES_EQ(w*(sg*std::sqrt(2.0*M_PI)),expo(-d/(2*sg*sg)),"Gaussian of the distance"); } } }
BOUNDED(kernel2,"simplicial_unstructured_2d_mesh::build_smoothing_kernel bfs vector_dist_2norm_2","Gaussian weights on exactly the vertices connected within three sigma","path of 2 triangles on 4 vertices; sigma symbolic") { setup(); double q=rr("sigma"); REQUIRES(q>0&&q<100); std::vector<double> x={0,0, 0,15, 0,-15, 8,0}; M2 m(x,{0,1,2,1,2,3}); m.build_smoothing_kernel(q); ENSURES_EQ(m.get_smoothing_kernel_size(),q,"sigma kept"); kernel<M2,2>(m,x,4,q,{{1,2},{0,2,3},{0,1,3},{1,2}}); }
BOUNDED(kernel3,"simplicial_unstructured_3d_mesh::build_smoothing_kernel bfs vector_dist_2norm_3","Gaussian weights on exactly the vertices connected within three sigma","2 tetrahedra on 5 vertices; sigma symbolic") { setup(); double q=rr("sigma"); REQUIRES(q>0&&q<100); std::vector<double> x={0,0,0, 44,0,0, 0,117,0, 0,0,240, -44,0,0}; M3 m(x,{0,1,2,3,0,2,3,4}); m.build_smoothing_kernel(q); kernel<M3,3>(m,x,5,q,{{1,2,3,4},{0,2,3},{0,1,3,4},{0,1,2,4},{0,2,3}}); }
