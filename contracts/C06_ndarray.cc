// Property C06: n-dimensional arrays store and return every element at the position its index denotes.
#include "std_all.h"
#define private public
#define protected public
#include <ftk/config.hh>
#include <ftk/ndarray.hh>
#include "vals.h"
using namespace ftk; typedef std::vector<size_t> VS; typedef std::vector<int> VI; typedef ndarray<double> A;
// @time 120
static const long BIG=1l<<60;
static long mx(int nd){ return nd==1?(1l<<40):nd==2?(1l<<24):nd==3?(1l<<18):nd==4?(1l<<13):(1l<<7); }
static VS shape(int nd){ VS d(nd); for(int i=0;i<nd;i++) d[i]=__v_int("dim",1,mx(nd)); return d; }
static long total(const VS&d){ long n=1; for(size_t i=0;i<d.size();i++) n*=(long)d[i]; return n; }
// an arbitrary shape together with an arbitrary position inside it: every pair x < d is x and d = x+1+e with e >= 0
static void place(int nd,VS&d,VS&x){ d.resize(nd); x.resize(nd); for(int i=0;i<nd;i++){ x[i]=__v_int("x",0,mx(nd)); d[i]=x[i]+1+__v_int("slack",0,mx(nd)); } }
// an arbitrary position, as a linear index, with the fact that it is inside (specification side)
static long lin(const VS&d,const VS&x){ long n=1,acc=0; for(size_t i=0;i<d.size();i++){ acc+=(long)x[i]*n; n*=(long)d[i]; ENSURES(acc<=n-1,"lemma: partial index below partial product"); } return acc; }
static const double* arb(A&a,const VS&d,const char*nm="A"){ a.reshape(d); long n=total(d); const double*x=(const double*)__v_array(nm,n,8,1,0,0); memcpy(a.data(),x,n*8); return x; }
static long pos(long n,const char*nm="k"){ long k=__v_int(nm,0,BIG); REQUIRES(k<n); return k; }
static void same_shape(const ndarray_base&a,const VS&d){ ENSURES(a.nd()==d.size()&&a.shape().size()==d.size(),"number of dimensions"); for(size_t i=0;i<d.size();i++) ENSURES(a.dim(i)==d[i]&&a.shape(i)==d[i]&&a.shape()[i]==d[i],"extent"); }

template<int nd> static void layout(){ VS d,x; place(nd,d,x); A a; const double*src=arb(a,d); long n=total(d); same_shape(a,d); ENSURES((long)a.nelem()==n&&(long)a.size()==n,"nelem is the product of the extents"); ENSURES(!a.empty(),"not empty"); ENSURES(a.multicomponents()==0&&!a.has_time()&&a.ncomponents()==1,"plain array");
  long k=lin(d,x); VI xi(nd); size_t xp[nd]; for(int i=0;i<nd;i++){ xi[i]=(int)x[i]; xp[i]=x[i]; }
  ENSURES((long)a.index(x)==k&&(long)a.index(xp)==k,"index is first-dimension-fastest"); if(nd>1) ENSURES((long)a.index(xi)==k,"index from int coordinates");
  ENSURES(k<n,"index below nelem"); ENSURES_EQ(a.at(x),src[k],"at(vector)"); ENSURES_EQ(a.at(xp),src[k],"at(pointer)"); if(nd>1) ENSURES_EQ(a.at(xi),src[k],"at(int vector)"); ENSURES_EQ(a(x),src[k],"operator()(vector)"); ENSURES_EQ(a[k],src[k],"operator[]"); ENSURES_EQ(a.data()[k],src[k],"data()"); ENSURES_EQ(a.std_vector()[k],src[k],"std_vector()");
  const A&c=a; ENSURES_EQ(c.at(x),src[k],"const at"); ENSURES_EQ(c[k],src[k],"const operator[]"); ENSURES_EQ(c(x),src[k],"const operator()(vector)"); 
  double v=__v_real("v"); a.at(x)=v; ENSURES_EQ(a[k],v,"write then read"); long q=pos(n,"q"); REQUIRES(q!=k); ENSURES_EQ(a[q],src[q],"a write changes no other element"); }
CONTRACT(layout1, "ndarray::reshape index at operator() operator[] nelem size data (1D)", "an element is stored at sum x_i*prod_{j<i}dim_j; all accessors agree; a write changes nothing else") { layout<1>(); }
CONTRACT(layout2, "ndarray::reshape index at operator() operator[] nelem size data (2D)", "an element is stored at sum x_i*prod_{j<i}dim_j; all accessors agree; a write changes nothing else") { layout<2>(); }
CONTRACT(layout3, "ndarray::reshape index at operator() operator[] nelem size data (3D)", "an element is stored at sum x_i*prod_{j<i}dim_j; all accessors agree; a write changes nothing else") { layout<3>(); }
CONTRACT(layout4, "ndarray::reshape index at operator() operator[] nelem size data (4D)", "an element is stored at sum x_i*prod_{j<i}dim_j; all accessors agree; a write changes nothing else") { layout<4>(); }
CONTRACT(layout5, "ndarray::reshape index at operator() operator[] nelem size data (5D)", "an element is stored at sum x_i*prod_{j<i}dim_j; all accessors agree; a write changes nothing else") { layout<5>(); }

// scalar-argument accessors of every arity
#define ACC(nd,ARGS) { VS d,x; place(nd,d,x); A a; const double*src=arb(a,d); long k=lin(d,x); const A&c=a; ENSURES_EQ(a.at ARGS,src[k],"at(i...)"); ENSURES_EQ(a ARGS,src[k],"operator()(i...)"); ENSURES_EQ(c.at ARGS,src[k],"const at(i...)"); ENSURES_EQ(c ARGS,src[k],"const operator()(i...)"); ENSURES_EQ(a.get ARGS,src[k],"get(i...)"); double v=__v_real("v"); a ARGS=v; ENSURES_EQ(a[k],v,"write through operator()"); a.at ARGS=v+1; ENSURES_EQ(a[k],v+1,"write through at"); }
CONTRACT(acc1, "ndarray::at operator() get (1 index)", "scalar index accessors reach the element index() denotes") ACC(1,(x[0]))
CONTRACT(acc2, "ndarray::at operator() get (2 indices)", "scalar index accessors reach the element index() denotes") ACC(2,(x[0],x[1]))
CONTRACT(acc3, "ndarray::at operator() get (3 indices)", "scalar index accessors reach the element index() denotes") ACC(3,(x[0],x[1],x[2]))
CONTRACT(acc4, "ndarray::at operator() get (4 indices)", "scalar index accessors reach the element index() denotes") ACC(4,(x[0],x[1],x[2],x[3]))
CONTRACT(acc5, "ndarray::at operator() get (5 indices)", "scalar index accessors reach the element index() denotes") ACC(5,(x[0],x[1],x[2],x[3],x[4]))
CONTRACT(acc6, "ndarray::at operator() get (6 indices)", "scalar index accessors reach the element index() denotes") ACC(6,(x[0],x[1],x[2],x[3],x[4],x[5]))
CONTRACT(acc7, "ndarray::at operator() get (7 indices)", "scalar index accessors reach the element index() denotes") ACC(7,(x[0],x[1],x[2],x[3],x[4],x[5],x[6]))

// index <-> coordinates
template<int nd> static void fromindex(){ VS d,x; place(nd,d,x); if(nd==1) REQUIRES(x[0]<(1l<<31)-1); A a; a.reshape(d); long k=lin(d,x); lattice l=a.get_lattice(); for(int i=0;i<nd;i++) ENSURES(l.start(i)==0&&l.size(i)==d[i],"lattice of the array"); VS y=a.from_index<size_t>(a.index(x)); ENSURES(y.size()==nd,"dimensions"); for(int i=0;i<nd;i++) ENSURES(y[i]==x[i],"from_index(index(x)) = x (so distinct coordinates have distinct positions)"); (void)k; }
CONTRACT(fromindex1, "ndarray_base::from_index index get_lattice (1D)", "from_index inverts index") { fromindex<1>(); }
CONTRACT(fromindex2, "ndarray_base::from_index index get_lattice (2D)", "from_index inverts index") { fromindex<2>(); }
CONTRACT(fromindex3, "ndarray_base::from_index index get_lattice (3D)", "from_index inverts index") { fromindex<3>(); }
CONTRACT(fromindex4, "ndarray_base::from_index index get_lattice (4D)", "from_index inverts index") { fromindex<4>(); }

// reshape: every overload gives the same shape; contents in linear order are kept, new elements are zero
CONTRACT(reshapes, "ndarray::reshape (all overloads), constructors", "all reshape overloads and constructors give the same shape") {
  VS d(3); for(int i=0;i<3;i++) d[i]=__v_int("dim",1,1000); long n=total(d); VI di(3); size_t ds[3]; int dn[3]; for(int i=0;i<3;i++){ di[i]=d[i]; ds[i]=d[i]; dn[i]=d[i]; }
  A a,b,c,e,f,g; a.reshape(d); b.reshape(d[0],d[1],d[2]); ((ndarray_base&)c).reshape(di); ((ndarray_base&)e).reshape((size_t)3,ds); f.reshape(3,dn); ndarray<float> h; h.reshape(d); g.reshape(h); A q(d),r(lattice(VS{5,6,7},d)); A w; ((ndarray_base&)w).reshape((const ndarray_base&)a);
  const A*all[]={&a,&b,&c,&e,&f,&g,&q,&r,&w}; for(auto*z:all){ same_shape(*z,d); ENSURES((long)z->nelem()==n&&(long)z->size()==n,"nelem"); ENSURES(z->s[0]==1&&z->s[1]==d[0]&&z->s[2]==d[0]*d[1],"strides"); } same_shape(h,d); ENSURES((long)h.nelem()==n,"nelem");
  long k=pos(n); ENSURES_EQ(a[k],0,"new elements are zero"); double v=__v_real("v"); A s(d,v); ENSURES_EQ(s[k],v,"constructor fill"); same_shape(s,d); a.reshape(d,v); ENSURES_EQ(a[k],v,"reshape fill"); }
CONTRACT(arities, "ndarray::reshape(n0..n6)", "reshape with 1..7 extents") { VS d(7); for(int i=0;i<7;i++) d[i]=__v_int("dim",1,200); 
  #define AR(n,...) { A a; a.reshape(__VA_ARGS__); VS e(d.begin(),d.begin()+n); same_shape(a,e); ENSURES((long)a.nelem()==total(e),"nelem"); long st=1; for(int i=0;i<n;i++){ ENSURES((long)a.s[i]==st,"stride"); st*=(long)d[i]; } }
  AR(1,d[0]) AR(2,d[0],d[1]) AR(3,d[0],d[1],d[2]) AR(4,d[0],d[1],d[2],d[3]) AR(5,d[0],d[1],d[2],d[3],d[4]) AR(6,d[0],d[1],d[2],d[3],d[4],d[5]) AR(7,d[0],d[1],d[2],d[3],d[4],d[5],d[6]) }
CONTRACT(refold, "ndarray::reshape", "reshaping to the same number of elements keeps them in linear order; strides follow the new shape") { VS d=shape(2); A a; const double*x=arb(a,d); a.reshape(VS{d[1],d[0]}); long n=total(d); long k=pos(n); ENSURES((long)a.nelem()==n,"nelem"); ENSURES_EQ(a[k],x[k],"contents kept"); ENSURES(a.s[1]==d[1],"stride"); a.reshape(VS{(size_t)n}); ENSURES_EQ(a[k],x[k],"contents kept"); ENSURES(a.nd()==1,"1D"); }
CONTRACT(grow, "ndarray::reshape", "growing keeps the old elements and zeroes the new ones; shrinking keeps the first elements") { VS d=shape(1); A a; const double*x=arb(a,d); long n=d[0],m=__v_int("m",1,1l<<40); a.reshape((size_t)m); ENSURES((long)a.nelem()==m&&(long)a.size()==m,"nelem"); long k=pos(m); ENSURES_EQ(a[k],k<n?x[k]:0.0,"contents"); }
CONTRACT(bigshape, "ndarray::reshape nelem index", "element counts and positions beyond 2^31 are exact") { VS d{(size_t)__v_int("dim",1,1l<<31),(size_t)__v_int("dim",1,1l<<20)}; A a; a.reshape(d); long n=total(d); ENSURES((long)a.nelem()==n,"nelem"); long i=__v_int("i",0,1l<<31),j=__v_int("j",0,1l<<20); REQUIRES(i<(long)d[0]&&j<(long)d[1]); ENSURES((long)a.index(VS{(size_t)i,(size_t)j})==i+j*(long)d[0],"index"); }
CONTRACT(reset, "ndarray::reset", "reset empties the array and clears its flags") { VS d=shape(2); A a; arb(a,d); a.set_multicomponents(1); a.set_has_time(true); a.reset(); ENSURES(a.empty()&&a.size()==0&&a.nelem()==0&&a.nd()==0,"empty"); ENSURES(a.multicomponents()==0&&!a.has_time(),"flags"); a.reshape(d); ENSURES((long)a.nelem()==total(d),"reusable"); long k=pos(total(d)); ENSURES_EQ(a[k],0,"fresh elements are zero"); }

// copies
CONTRACT(copies, "ndarray copy constructor operator= swap", "copies have the same shape, flags and elements and are independent; swap exchanges everything") { VS d=shape(2); A a; const double*x=arb(a,d); long n=total(d); long mc=__v_int("ncd",0,1); bool tv=__v_bool("tv"); a.set_multicomponents(mc); a.set_has_time(tv); A b(a),c; c=a; long k=pos(n); 
  for(A*z:{&b,&c}){ same_shape(*z,d); ENSURES_EQ((*z)[k],x[k],"element"); ENSURES((long)z->multicomponents()==mc&&z->has_time()==tv,"flags"); ENSURES(z->s[1]==d[0]&&z->s[0]==1,"strides"); } b[k]=x[k]+1; ENSURES_EQ(a[k],x[k],"independent"); ENSURES_EQ(c[k],x[k],"independent");
  VS e=shape(1); A w; const double*y=arb(w,e,"B"); w.swap(a); same_shape(w,d); same_shape(a,e); ENSURES_EQ(w[k],x[k],"swapped"); long q=pos(e[0],"q"); ENSURES_EQ(a[q],y[q],"swapped"); ENSURES((long)w.multicomponents()==mc&&w.has_time()==tv&&a.multicomponents()==0&&!a.has_time(),"flags swapped"); ENSURES(w.s[1]==d[0]&&a.s.size()==1,"strides swapped"); }
CONTRACT(convert, "ndarray::from_array(ndarray<T1>) converting constructor", "conversion keeps shape, flags and every element") { VS d=shape(3); ndarray<int> a; a.reshape(d); long n=total(d); const int*x=(const int*)__v_array("I",n,4,0,-1000000,1000000); memcpy(a.data(),x,n*4); long mc=__v_int("ncd",0,2); bool tv=__v_bool("tv"); a.set_multicomponents(mc); a.set_has_time(tv); A b(a),c; c=a; long k=pos(n); for(A*z:{&b,&c}){ same_shape(*z,d); ENSURES_EQ((*z)[k],(double)x[k],"element"); ENSURES((long)z->multicomponents()==mc&&z->has_time()==tv,"flags"); ENSURES(z->s[1]==d[0]&&z->s[2]==d[0]*d[1],"strides"); } }
CONTRACT(fromptr, "ndarray(const T*,shape) from_array(ptr,shape)", "elements are taken in linear order") { VS d,p; place(3,d,p); long n=total(d); const double*x=(const double*)__v_array("A",n,8,1,0,0); A a(x,d),b; b.from_array(x,d); long k=lin(d,p); same_shape(a,d); same_shape(b,d); ENSURES_EQ(a(p[0],p[1],p[2]),x[k],"constructor"); ENSURES_EQ(b.at(p),x[k],"from_array"); }
CONTRACT(fromvec, "ndarray::copy_vector to_vector fill(vector)", "vectors are copied element by element") { long n=__v_int("n",1,1l<<40); const double*x=(const double*)__v_array("A",n,8,1,0,0); std::vector<double> v(x,x+n); A a,b; a.copy_vector(v); long k=pos(n); same_shape(a,VS{(size_t)n}); ENSURES_EQ(a[k],x[k],"copy_vector"); std::vector<double> o; a.to_vector(o); ENSURES((long)o.size()==n,"to_vector size"); ENSURES_EQ(o[k],x[k],"to_vector"); b.reshape(VS{(size_t)n}); b.fill(v); ENSURES_EQ(b[k],x[k],"fill(vector)"); ENSURES((long)b.nelem()==n,"nelem"); }
BOUNDED(fromvec2, "ndarray::from_vector copy(first,last)", "the first min(nelem, length) elements are taken, the rest is kept; copy makes a 1D array of the range", "n,m<=4") { long n=__v_split(__v_int("n",1,4)),m=__v_split(__v_int("m",0,4)); std::vector<double> v(m); for(auto&e:v) e=__v_real("v"); A a; a.reshape(VS{(size_t)n},7.0); a.from_vector(v); for(long i=0;i<n;i++) ENSURES_EQ(a[i],i<m?v[i]:7.0,"element"); ENSURES((long)a.nelem()==n,"shape kept"); if(m>0){ A b; b.reshape(3,3); b.copy(v.begin(),v.end()); ENSURES(b.nd()==1&&(long)b.nelem()==m&&(long)b.size()==m,"shape of copy"); for(long i=0;i<m;i++) ENSURES_EQ(b[i],v[i],"copied"); } }
CONTRACT(multi, "ndarray_base::make_multicomponents ncomponents set_multicomponents", "making an array multicomponent prepends one dimension of extent 1 and keeps all elements") { VS d,p; place(3,d,p); A a; const double*x=arb(a,d); a.make_multicomponents(); VS e{1,d[0],d[1],d[2]}; same_shape(a,e); ENSURES(a.multicomponents()==1&&a.ncomponents()==1,"one component"); ENSURES((long)a.nelem()==total(d),"nelem"); long k=lin(d,p); ENSURES_EQ(a((size_t)0,p[0],p[1],p[2]),x[k],"element"); a.reshape(d); a.set_multicomponents(2); ENSURES(a.ncomponents()==d[0]*d[1],"components are the product of the leading extents"); a.set_multicomponents(0); ENSURES(a.ncomponents()==1,"scalar"); a.set_multicomponents(); ENSURES(a.ncomponents()==d[0],"default is one component dimension"); a.set_has_time(true); ENSURES(a.has_time(),"time flag"); }

// element-wise arithmetic
template<int nd> static void arith(){ VS d=shape(nd); A a,b; const double*x=arb(a,d,"A"),*y=arb(b,d,"B"); long n=total(d),k=pos(n); double r=__v_real("r"); A c=a+b; same_shape(c,d); ENSURES_EQ(c[k],x[k]+y[k],"a+b"); A u=a-b; same_shape(u,d); ENSURES_EQ(u[k],x[k]-y[k],"a-b"); A m=a*r; same_shape(m,d); ENSURES_EQ(m[k],x[k]*r,"a*r"); A m2=r*a; ENSURES_EQ(m2[k],x[k]*r,"r*a"); 
  a+=b; ENSURES_EQ(a[k],x[k]+y[k],"a+=b"); ENSURES_EQ(b[k],y[k],"operand unchanged"); A w(b); w-=a; ENSURES_EQ(w[k],-x[k],"w-=a"); same_shape(w,d); A z; z-=b; same_shape(z,d); ENSURES_EQ(z[k],-y[k],"an empty array -= b is -b"); b*=r; ENSURES_EQ(b[k],y[k]*r,"b*=r"); same_shape(a,d); same_shape(b,d); REQUIRES(r!=0); A q=a/r; same_shape(q,d); ENSURES_EQ(q[k],(x[k]+y[k])/r,"a/r"); b/=r; ENSURES_EQ(b[k],y[k],"b/=r"); A e; e+=q; same_shape(e,d); ENSURES_EQ(e[k],q[k],"an empty array += b is b"); }
CONTRACT(arith1, "ndarray operator+ operator- operator+= operator-= operator* operator*= operator/ operator/= (1D)", "element-wise arithmetic on every element") { arith<1>(); }
CONTRACT(arith3, "ndarray operator+ operator- operator+= operator-= operator* operator*= operator/ operator/= (3D)", "element-wise arithmetic on every element") { arith<3>(); }
CONTRACT(filling, "ndarray::fill clamp", "fill sets every element; clamp limits every element to the range and returns the array") { VS d=shape(2); A a; const double*x=arb(a,d); long n=total(d),k=pos(n); double lo=__v_real("lo"),hi=__v_real("hi"),v=__v_real("v"); REQUIRES(lo<=hi); A&r=a.clamp(lo,hi); ENSURES(&r==&a,"returns itself"); ENSURES_EQ(a[k],x[k]<lo?lo:x[k]>hi?hi:x[k],"clamped"); same_shape(a,d); a.fill(v); ENSURES_EQ(a[k],v,"filled"); same_shape(a,d); }
BOUNDED(reduce, "ndarray::min_max maxabs resolution", "min_max gives the least and largest element, maxabs the largest magnitude, resolution the least non-zero magnitude", "n<=5") { long n=__v_split(__v_int("n",1,5)); A a; a.reshape((size_t)n); double x[5]; for(int i=0;i<n;i++){ x[i]=__v_real("x"); REQUIRES(x[i]>-1e6&&x[i]<1e6); a[i]=x[i]; } auto mm=a.min_max(); double lo=std::get<0>(mm),hi=std::get<1>(mm); double ma=a.maxabs(),re=a.resolution(); bool lin_=false,hin=false,min_=false,rin=false,nz=false; for(int i=0;i<n;i++){ double m=x[i]<0?-x[i]:x[i]; ENSURES(lo<=x[i]&&x[i]<=hi,"bounds"); ENSURES(m<=ma,"maxabs bounds"); if(x[i]!=0){ nz=true; ENSURES(re<=m,"resolution bounds"); } lin_|=lo==x[i]; hin|=hi==x[i]; min_|=ma==m; rin|=re==m; } ENSURES(lin_&&hin&&min_,"attained"); if(nz) ENSURES(rin,"resolution attained"); }
BOUNDED(equality, "ndarray operator==", "arrays are equal iff their shapes and all elements are", "shapes 1x4, 2x2, 4x1, 2x3; integers") { auto mk=[](int sh,const char*nm){ ndarray<int> a; if(sh==0) a.reshape(1,4); else if(sh==1) a.reshape(2,2); else if(sh==2) a.reshape(4,1); else a.reshape(2,3); for(size_t i=0;i<a.nelem();i++) a[i]=__v_int(nm,0,3); return a; }; int p=__v_split(__v_int("shA",0,3)),q=__v_split(__v_int("shB",0,3)); auto a=mk(p,"a"),b=mk(q,"b"); bool eq=p==q; if(eq) for(size_t i=0;i<a.nelem();i++) eq=eq&&a[i]==b[i]; ENSURES((a==b)==eq,"equality"); }
CONTRACT(types, "ndarray::type elem_size", "element type codes and sizes") { ENSURES(ndarray<double>().type()==NDARRAY_TYPE_DOUBLE&&ndarray<float>().type()==NDARRAY_TYPE_FLOAT&&ndarray<int>().type()==NDARRAY_TYPE_INT,"type codes"); ENSURES(ndarray<double>().elem_size()==8&&ndarray<float>().elem_size()==4&&ndarray<char>().elem_size()==1,"element size"); ENSURES(A().empty()&&A().nelem()==0,"default is empty"); }
