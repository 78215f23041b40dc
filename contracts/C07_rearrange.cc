// Property C07: slicing, sub-arrays, transposition, stacking and (de)serialisation move every element to exactly its place.
#include "std_all.h"
#define private public
#define protected public
#include <ftk/config.hh>
#include <ftk/ndarray.hh>
#include <ftk/external/diy/serialization.hpp>
#include "vals.h"
using namespace ftk; typedef std::vector<size_t> VS; typedef ndarray<double> A;
// @time 200
static const long BIG=1l<<60;
static long mx(int nd){ return nd==1?(1l<<30):nd==2?(1l<<20):nd==3?(1l<<16):(1l<<13); }
static VS shape(int nd){ VS d(nd); for(int i=0;i<nd;i++) d[i]=__v_int("dim",1,mx(nd)); return d; }
static void place(int nd,VS&d,VS&x){ d.resize(nd); x.resize(nd); for(int i=0;i<nd;i++){ x[i]=__v_int("x",0,mx(nd)); d[i]=x[i]+1+__v_int("slack",0,mx(nd)); } }
static long total(const VS&d){ long n=1; for(size_t i=0;i<d.size();i++) n*=(long)d[i]; return n; }
static long lin(const VS&d,const VS&x){ long n=1,acc=0; for(size_t i=0;i<d.size();i++){ acc+=(long)x[i]*n; n*=(long)d[i]; ENSURES(acc<=n-1,"lemma: partial index below partial product"); } return acc; }
static const double* arb(A&a,const VS&d,const char*nm="A"){ a.reshape(d); long n=total(d); const double*x=(const double*)__v_array(nm,n,8,1,0,0); memcpy(a.data(),x,n*8); return x; }
static void same_shape(const ndarray_base&a,const VS&d){ ENSURES(a.nd()==d.size()&&a.shape().size()==d.size(),"number of dimensions"); for(size_t i=0;i<d.size();i++) ENSURES(a.dim(i)==d[i],"extent"); ENSURES((long)a.nelem()==total(d)&&(long)a.size()==total(d),"number of elements"); }

// time slices
template<int nd> static void slicetime(){ VS d,x; place(nd,d,x); A a; const double*src=arb(a,d); A b=a.slice_time(x[nd-1]); VS e(d.begin(),d.end()-1),y(x.begin(),x.end()-1); same_shape(b,e); long k=lin(d,x); long q=lin(e,y); ENSURES_EQ(b[q],src[k],"element of the slice is the element at that time"); ENSURES_EQ(b.at(y),src[k],"by coordinates"); long z=__v_int("z",0,BIG); REQUIRES(z<total(d)); ENSURES_EQ(a[z],src[z],"source unchanged"); }
CONTRACT(slicetime2, "ndarray::slice_time(t) (2D)", "slice_time(t) is the array of the elements at time t") { slicetime<2>(); }
CONTRACT(slicetime3, "ndarray::slice_time(t) (3D)", "slice_time(t) is the array of the elements at time t") { slicetime<3>(); }
CONTRACT(slicetime4, "ndarray::slice_time(t) (4D)", "slice_time(t) is the array of the elements at time t") { slicetime<4>(); }
BOUNDED(slicetimes, "ndarray::slice_time()", "one slice per timestep, in order", "1..3 timesteps, spatial shape arbitrary") { VS d=shape(3); d[2]=__v_split(__v_int("nt",1,3)); A a; const double*src=arb(a,d); auto v=a.slice_time(); ENSURES(v.size()==d[2],"one slice per timestep"); long m=(long)d[0]*(long)d[1]; long k=__v_int("k",0,BIG); REQUIRES(k<m); for(size_t t=0;t<d[2];t++){ same_shape(v[t],VS{d[0],d[1]}); ENSURES_EQ(v[t][k],src[k+(long)t*m],"element"); } }

// slice and subarray: one arbitrary element of an arbitrary box
template<int nd> static void boxes(VS&d,VS&st,VS&sz,VS&x){ d.resize(nd); st=sz=x=d; for(int i=0;i<nd;i++){ st[i]=__v_int("start",0,mx(nd)/2); x[i]=__v_int("x",0,mx(nd)/4); sz[i]=x[i]+1+__v_int("slackin",0,mx(nd)/4); d[i]=st[i]+sz[i]+__v_int("slackout",0,mx(nd)/4); } }
template<int nd> static void sub(){ VS d,st,sz,x; boxes<nd>(d,st,sz,x); A a; const double*src=arb(a,d); VS g(nd); for(int i=0;i<nd;i++) g[i]=st[i]+x[i]; long k=lin(d,g),q=lin(sz,x); A b=a.slice(st,sz),c=a.subarray(lattice(st,sz)); same_shape(b,sz); same_shape(c,sz); ENSURES_EQ(b[q],src[k],"slice element"); ENSURES_EQ(c[q],src[k],"subarray element"); }
CONTRACT(sub1, "ndarray::slice subarray (1D)", "element x of the box is element start+x of the array") { sub<1>(); }
CONTRACT(sub2, "ndarray::slice subarray (2D)", "element x of the box is element start+x of the array") { sub<2>(); }
CONTRACT(sub3, "ndarray::slice subarray (3D)", "element x of the box is element start+x of the array") { sub<3>(); }

// transposition
CONTRACT(transpose1, "ndarray::get_transpose transpose (1D)", "a 1D array is its own transpose") { VS d=shape(1); A a; const double*x=arb(a,d); long k=__v_int("k",0,BIG); REQUIRES(k<(long)d[0]); A b=a.get_transpose(); same_shape(b,d); ENSURES_EQ(b[k],x[k],"element"); }
CONTRACT(transpose2, "ndarray::get_transpose transpose (2D)", "element (i,j) of the array is element (j,i) of its transpose") { VS d=shape(2); A a; const double*x=arb(a,d); long i=__v_int("i",0,BIG),j=__v_int("j",0,BIG); REQUIRES(i<(long)d[0]&&j<(long)d[1]); A b=a.get_transpose(); same_shape(b,VS{d[1],d[0]}); ENSURES_EQ(b(j,i),x[i+j*(long)d[0]],"element"); }
static void tr(int nd,int m){ VS d(nd); for(int i=0;i<nd;i++) d[i]=__v_split(__v_int("dim",1,m)); A a; a.reshape(d); long n=total(d); std::vector<double> v(n); for(long i=0;i<n;i++) a[i]=v[i]=__v_real("v"); A b=a.get_transpose(); VS e(d.rbegin(),d.rend()); same_shape(b,e); for(long k=0;k<n;k++){ VS x(nd); long r=k; for(int i=0;i<nd;i++){ x[i]=r%d[i]; r/=d[i]; } VS y(x.rbegin(),x.rend()); ENSURES_EQ(b.at(y),v[k],"element"); } a.transpose(); same_shape(a,e); for(long k=0;k<n;k++) ENSURES_EQ(a[k],b[k],"in place"); }
BOUNDED(transpose2b, "ndarray::get_transpose transpose (2D)", "indices of every element are reversed", "extents 1..4") { tr(2,4); }
BOUNDED(transpose3b, "ndarray::get_transpose transpose (3D)", "indices of every element are reversed", "extents 1..3") { tr(3,3); }
BOUNDED(transpose4b, "ndarray::get_transpose transpose (4D)", "indices of every element are reversed", "extents 1..3") { tr(4,3); }

// merging arrays
template<int m> static void merge(){ VS d=shape(2); std::vector<A> v(m); const double*src[m]; for(int i=0;i<m;i++) src[i]=arb(v[i],d,"A"); long n=total(d),k=__v_int("k",0,BIG); REQUIRES(k<n); A c=A::concat(v),s=A::stack(v); same_shape(c,VS{(size_t)m,d[0],d[1]}); same_shape(s,VS{d[0],d[1],(size_t)m}); for(int i=0;i<m;i++){ ENSURES_EQ(c[i+k*m],src[i][k],"concat: component i of element k"); ENSURES_EQ(s[k+i*n],src[i][k],"stack: element k of array i"); } }
CONTRACT(merge1, "ndarray::concat stack (1 array)", "concat interleaves components first, stack appends a last dimension") { merge<1>(); }
CONTRACT(merge2, "ndarray::concat stack (2 arrays)", "concat interleaves components first, stack appends a last dimension") { merge<2>(); }
CONTRACT(merge3, "ndarray::concat stack (3 arrays)", "concat interleaves components first, stack appends a last dimension") { merge<3>(); }

// multicomponent sub-arrays
BOUNDED(submulti, "ndarray::subarray (multicomponent)", "a spatial box of a vector field keeps all components of its points", "2 or 3 components, 2D extents 1..3, every box") { size_t nc=__v_split(__v_int("nc",2,3)); VS d(2),st(2),sz(2); for(int i=0;i<2;i++){ d[i]=__v_split(__v_int("dim",1,3)); st[i]=__v_split(__v_int("start",0,d[i]-1)); sz[i]=__v_split(__v_int("size",1,d[i]-st[i])); } A a; a.reshape(VS{nc,d[0],d[1]}); for(size_t i=0;i<a.nelem();i++) a[i]=__v_real("v"); a.set_multicomponents(1); A b=a.subarray(lattice(st,sz)); same_shape(b,VS{nc,sz[0],sz[1]}); ENSURES(b.multicomponents()==1,"flag"); for(size_t c=0;c<nc;c++) for(size_t i=0;i<sz[0];i++) for(size_t j=0;j<sz[1];j++) ENSURES_EQ(b(c,i,j),a(c,i+st[0],j+st[1]),"element"); }
BOUNDED(submatrix, "ndarray::subarray (tensor field)", "a spatial box of a 2x2 tensor field keeps all components", "2D extents 2..3, every box of 2 starts") { VS d(2),st(2),sz(2); for(int i=0;i<2;i++){ d[i]=__v_split(__v_int("dim",2,3)); st[i]=__v_split(__v_int("start",0,1)); sz[i]=d[i]-st[i]; } A a; a.reshape(VS{2,3,d[0],d[1]}); for(size_t i=0;i<a.nelem();i++) a[i]=__v_real("v"); a.set_multicomponents(2); A b=a.subarray(lattice(st,sz)); same_shape(b,VS{2,3,sz[0],sz[1]}); for(size_t c=0;c<2;c++) for(size_t e=0;e<3;e++) for(size_t i=0;i<sz[0];i++) for(size_t j=0;j<sz[1];j++) ENSURES_EQ(b(c,e,i,j),a(c,e,i+st[0],j+st[1]),"element"); }

// serialisation
BOUNDED(serial, "diy::Serialization<ndarray>::save load", "a loaded array has the shape, strides, flags and elements of the saved one", "1D-3D extents 1..3") { int nd=__v_split(__v_int("nd",1,3)); VS d(nd); for(int i=0;i<nd;i++) d[i]=__v_split(__v_int("dim",1,3)); A a; a.reshape(d); for(size_t i=0;i<a.nelem();i++) a[i]=__v_real("v"); long mc=__v_int("ncd",0,2); bool tv=__v_split(__v_int("tv",0,1)); a.set_multicomponents(mc); a.set_has_time(tv); diy::MemoryBuffer bb; diy::save(bb,a); bb.reset(); A b; diy::load(bb,b); same_shape(b,d); for(size_t i=0;i<a.nelem();i++) ENSURES_EQ(b[i],a[i],"element"); for(int i=0;i<nd;i++) ENSURES(b.s[i]==a.s[i],"stride"); ENSURES((long)b.multicomponents()==mc&&b.has_time()==tv,"flags"); }

// raw binary files: fread/fwrite are assumed to transfer size*count bytes in order
static long io_count; static const void*io_ptr; static size_t io_size; static double*io_file; 
extern "C" __attribute__((noinline)) size_t stub_fread(void*p,size_t s,size_t n,FILE*){ io_count=(long)n; io_size=s; io_ptr=p; memcpy(p,io_file,s*n); return n; }
extern "C" __attribute__((noinline)) size_t stub_fwrite(const void*p,size_t s,size_t n,FILE*){ io_count=(long)n; io_size=s; io_ptr=p; return n; }
CONTRACT(binary, "ndarray::read_binary_file to_binary_file (FILE*)", "all elements, in linear order, are transferred in one piece (assuming fread/fwrite transfer size*count bytes)") { __v_replace((void*)fread,(void*)stub_fread); __v_replace((void*)fwrite,(void*)stub_fwrite); VS d=shape(3); A a; a.reshape(d); long n=total(d); io_file=(double*)__v_array("F",n,8,1,0,0); a.read_binary_file((FILE*)nullptr); ENSURES(io_count==n&&io_size==8&&io_ptr==a.data(),"reads the whole array"); long k=__v_int("k",0,BIG); REQUIRES(k<n); ENSURES_EQ(a[k],io_file[k],"element"); same_shape(a,d); a.to_binary_file((FILE*)nullptr); ENSURES(io_count==n&&io_size==8&&io_ptr==a.data(),"writes the whole array"); ENSURES_EQ(a[k],io_file[k],"writing leaves the array unchanged"); }
