// Contract of check_simplex of the regular critical point trackers (specification shared by 2D and 3D; N = spatial dimension).
// The spatial zero test, inverse interpolation and classification are replaced by their contracts (C01, C11, C14).
#pragma once
using namespace ftk; typedef simplicial_regular_mesh_element E; typedef std::vector<int> VI; typedef std::vector<size_t> VS;
struct T : public TRACKER {
  T(diy::mpi::communicator c):tracker(c),TRACKER(c){}
  using TRACKER::check_simplex; using TRACKER::put_critical_points; using critical_point_tracker::trace_critical_points_offline; using critical_point_tracker_regular::discrete_critical_points; using regular_tracker::m; using regular_tracker::local_array_domain; using regular_tracker::array_domain; using regular_tracker::local_domain; using regular_tracker::domain; using regular_tracker::mode_phys_coords;
  using tracker::current_timestep; typedef field_data_snapshot_t S; using critical_point_tracker::field_data_snapshots; using critical_point_tracker::vector_field_scaling_factor; using critical_point_tracker::vector_field_resolution; using critical_point_tracker::update_vector_field_scaling_factor;
};
struct A : public T { int n=0; A(diy::mpi::communicator c):tracker(c),T(c){} void update_timestep(){ n++; ENSURES(field_data_snapshots.size()>0,"data of the current timestep is there"); } }; // counts the steps of advance_timestep
static unsigned ncores(){ return 1; }
static T*g;
extern "C" void H_setup(){ if(__v_symbolic()) __v_replace((void*)(unsigned(*)())&std::thread::hardware_concurrency,(void*)&ncores); diy::mpi::communicator c; g=new A(c); }
// ghost state: what the replaced callees must be asked, and what they answer
static long gV[N+1][N]; static int gI[N+1]; static bool gasked,gans,gin,gsym; static double gv[N+1][N],gmu[N+1],gJ[N][N]; static unsigned gtype;
static bool robust(const int64_t V[N+1][N],const int I[N+1]){ bool used[N+1]={false}; for(int i=0;i<=N;i++){ bool hit=false; for(int k=0;k<=N;k++) if(!used[k]&&I[i]==gI[k]){ used[k]=hit=true; bool same=true; for(int c=0;c<N;c++) same&=V[i][c]==gV[k][c]; ENSURES(same,"zero test: the quantised field value of the vertex"); break; } ENSURES(hit,"zero test: vertices are identified by their index in the space-time lattice"); } gasked=true; return gans; }
static bool inv(const double V[N+1][N],double mu[N+1],double*cond,double){ for(int i=0;i<=N;i++) for(int c=0;c<N;c++) ENSURES_EQ(V[i][c],gv[i][c],"inverse interpolation: field value of the vertex"); for(int i=0;i<=N;i++) mu[i]=gmu[i]; if(cond) *cond=1; return gin; }
static int gpos; static int pos2(const int64_t V[3][2],const int I[3]){ bool was=gasked; robust((const int64_t(*)[N])V,I); gasked=was; return gpos; }
static unsigned ctype(double J[N][N],bool sym){ ENSURES(sym==gsym,"symmetric as configured"); for(int i=0;i<N;i++) for(int j=0;j<N;j++) ENSURES_EQ(J[i][j],gJ[i][j],"classified by the Jacobian at the zero"); return gtype; }
static const long BIG=N==2?1l<<9:1l<<6;
static const double* arr(ndarray<double>&a,const VS&d,const char*nm){ a.reshape(d); long n=1; for(auto x:d) n*=(long)x; const double*x=(const double*)__v_array(nm,n,8,1,0,0); memcpy(a.data(),x,n*8); return x; }
static VS pre(VS a,const VS&b){ a.insert(a.end(),b.begin(),b.end()); return a; }
enum { SCAL=1, JAC=2, OUT=4, DEG=8 };
static void run(int mode,int opt,int lo,int hi){ T&t=*g; bool scal=opt&SCAL,jac=opt&JAC,out=opt&OUT,deg=opt&DEG; bool sym=__v_bool("symmetric"); gsym=sym; gtype=__v_int("point type",0,255); gans=out||__v_branch(__v_bool("zero test says yes")); gasked=false;
  __v_replace((void*)(bool(*)(const double[N+1][N],double[N+1],double*,double))&INVERSE,(void*)&inv); __v_replace((void*)(bool(*)(const int64_t[N+1][N],const int[N+1]))&ROBUST,(void*)&robust); __v_replace((void*)(unsigned(*)(double[N][N],bool))&CPTYPE,(void*)&ctype); if(deg){ gpos=__v_branch(__v_bool("orientation"))?1:-1; __v_replace((void*)(int(*)(const int64_t[3][2],const int[3]))&positive2<int64_t>,(void*)&pos2); g->set_enable_computing_degrees(true); }
  auto fr=[&](const char*nm,long l,long h){ return out?(l<0?-1:1):__v_int(nm,l,h); }; long tm=fr("timestep",0,BIG); int ty=__v_split(__v_int("cell type",lo,hi)); long a0[N],o[N],w[N],lb[N],n[N]; VI L(N+1),U(N+1),C(N+1); VS st(N),sz(N);
  for(int i=0;i<N;i++){ a0[i]=mode==REGULAR_COORDS_SIMPLE||mode==REGULAR_COORDS_BOUNDS?fr("array start",-BIG,BIG):0; o[i]=fr("offset in the array",0,BIG); w[i]=o[i]+2+__v_int("slack",0,BIG); lb[i]=a0[i]+o[i]-fr("offset in the mesh",0,BIG); n[i]=a0[i]+o[i]-lb[i]+2+fr("mesh slack",0,BIG); L[i]=lb[i]; U[i]=lb[i]+n[i]-1; C[i]=a0[i]+o[i]; st[i]=a0[i]; sz[i]=w[i]; } L[N]=0; U[N]=tm+1; C[N]=tm;
  t.m.set_lb_ub(L,U); t.local_array_domain=lattice(st,sz); t.current_timestep=tm; t.vector_field_scaling_factor=__v_int("factor",1,1l<<21); 
  t.set_scalar_field_source(scal?SOURCE_GIVEN:SOURCE_NONE); t.set_jacobian_field_source(jac?SOURCE_GIVEN:SOURCE_NONE); t.set_vector_field_source(SOURCE_GIVEN); t.set_jacobian_symmetric(sym);
  const double*V[2],*J[2],*S[2]; for(int k=0;k<2;k++){ t.field_data_snapshots.emplace_back(); auto&s=t.field_data_snapshots.back(); V[k]=arr(s.vector,pre(VS{N},sz),k?"v1":"v0"); if(scal) S[k]=arr(s.scalar,sz,k?"s1":"s0"); if(jac) J[k]=arr(s.jacobian,pre(VS{N,N},sz),k?"j1":"j0"); }
  long b0[N],bs[N]; double bc[2*N]; const double*rc[N],*ec=nullptr; int nec=0; t.mode_phys_coords=REGULAR_COORDS_SIMPLE;
  if(mode==REGULAR_COORDS_BOUNDS){ VS x(N),y(N); for(int i=0;i<N;i++){ b0[i]=C[i]-__v_int("offset in the domain",0,BIG); bs[i]=C[i]-b0[i]+2+__v_int("domain slack",0,BIG); x[i]=b0[i]; y[i]=bs[i]; } t.array_domain=lattice(x,y); std::vector<double> b(2*N); for(int i=0;i<2*N;i++) b[i]=bc[i]=__v_real("bound"); t.set_coords_bounds(b); }
  if(mode==REGULAR_COORDS_RECTILINEAR){ std::vector<ndarray<double>> r(N); for(int i=0;i<N;i++) rc[i]=arr(r[i],VS{sz[i]},"axis"); t.set_coords_rectilinear(r); }
  if(mode==REGULAR_COORDS_EXPLICIT){ nec=N==2?__v_split(__v_int("components",2,3)):3; ndarray<double> x; ec=arr(x,pre(VS{(size_t)nec},sz),"xyz"); t.set_coords_explicit(x); }
  E e(C,N,ty); feature_point_t cp; auto vs=e.vertices(t.m); double v[N+1][N],X[N+1][4],sv[N+1],jv[N+1][N*N]; 
  for(int i=0;i<=N;i++){ long k=0,f=1,id=0,fi=1; for(int c=0;c<N;c++){ k+=f*(vs[i][c]-a0[c]); f*=w[c]; id+=fi*(vs[i][c]-lb[c]); fi*=n[c]; } int q=vs[i][N]-tm; gI[i]=id+fi*vs[i][N]; for(int c=0;c<N;c++){ v[i][c]=V[q][c+N*k]; gV[i][c]=v[i][c]*t.vector_field_scaling_factor; gv[i][c]=v[i][c]; } if(scal) sv[i]=S[q][k]; if(jac) for(int c=0;c<N*N;c++) jv[i][c]=J[q][c+N*N*k];
    X[i][2]=0; X[i][3]=vs[i][N]; for(int c=0;c<N;c++){ if(mode==REGULAR_COORDS_SIMPLE) X[i][c]=vs[i][c]; if(mode==REGULAR_COORDS_BOUNDS) X[i][c]=bc[2*c]+(bc[2*c+1]-bc[2*c])*(vs[i][c]-b0[c])/(bs[c]-1); if(mode==REGULAR_COORDS_RECTILINEAR) X[i][c]=rc[c][vs[i][c]]; } if(mode==REGULAR_COORDS_EXPLICIT) for(int c=0;c<nec;c++) X[i][c]=ec[c+nec*k]; }
  double mu[N+1],s=0; for(int i=0;i<N;i++) s+=mu[i]=__v_real("mu"); mu[N]=1-s; for(int i=0;i<=N;i++) gmu[i]=mu[i]; gin=true;
  if(out){ gin=false; double z=0; for(int i=0;i<=N;i++){ mu[i]=__v_branch(mu[i]<=0)?0:__v_branch(mu[i]>=1)?1:mu[i]; z+=mu[i]; } REQUIRES(z>0); for(int i=0;i<=N;i++) mu[i]/=z; } else for(int i=0;i<=N;i++){ REQUIRES(mu[i]>0); REQUIRES(mu[i]<1); }
  auto at=[&](auto f){ double r=0; for(int i=0;i<=N;i++) r+=mu[i]*f(i); return r; };
  for(int r=0;r<N;r++) for(int c=0;c<N;c++) gJ[r][c]=jac?at([&](int i){ return jv[i][TRANS?c+N*r:r+N*c]; }):0; if(SYMM) gJ[0][1]=gJ[1][0]=0.5*(gJ[0][1]+gJ[1][0]);
  bool r=t.check_simplex(e,cp); ENSURES(gasked,"the robust zero test decides"); ENSURES(r==gans,"a point is reported iff the cell contains a zero"); if(!r) return;
  for(int c=0;c<3;c++) ENSURES_EQ(cp.x[c],at([&](int i){ return X[i][c]; }),"position of the zero"); ENSURES_EQ(cp.t,at([&](int i){ return X[i][3]; }),"time of the zero"); if(scal) ENSURES_EQ(cp.scalar[0],at([&](int i){ return sv[i]; }),"scalar value at the zero"); 
  ENSURES(cp.timestep==tm,"timestep"); ENSURES(cp.tag==e.to_integer(t.m),"tag is the id of the cell"); bool flat=true; for(int i=0;i<=N;i++) flat&=vs[i][N]==vs[0][N]; ENSURES(cp.ordinal==flat,"ordinal iff within one timestep");
  if(!deg) ENSURES(cp.type==gtype,"type by its Jacobian"); else { long A=(long)(vs[1][0]-vs[0][0])*(vs[2][1]-vs[0][1])-(long)(vs[2][0]-vs[0][0])*(vs[1][1]-vs[0][1]); ENSURES((int)cp.type==(!flat?0:A*gpos<0?1:2),"type by the degree: one label where the field reverses the orientation of the cell, the other where it keeps it, 0 between timesteps"); } }
// ---- one timestep: every cell of the timestep (and, with two snapshots, of the interval) is visited, exactly the reported points that pass the filter are stored under their cell
static int ncalls[3]; static feature_point_t gcp[2]; static const E*ge[2]; static bool gyes[2]; static T*gt; static bool gadv;
static bool chk(T*self,const E&e,feature_point_t&cp){ ENSURES(self==gt,"tracker"); for(int k=0;k<2;k++) if(e.type==ge[k]->type){ if(gyes[k]) cp=gcp[k]; return gyes[k]; } ENSURES(false,"a visited cell"); return false; }
static void efor(const simplicial_regular_mesh*m,int d,const lattice&l,int scope,const std::function<void(E)>&f,int,int,bool){ ENSURES(m==&gt->m&&d==N,"cells of the space-time mesh"); ENSURES(scope==ELEMENT_SCOPE_ORDINAL||scope==ELEMENT_SCOPE_INTERVAL,"scope"); bool ok=l.nd()==N+1; for(int i=0;i<N;i++) ok&=l.start(i)==gt->local_domain.start(i)&&l.size(i)==gt->local_domain.size(i); ok&=(long)l.start(N)==gt->current_timestep&&l.size(N)==1; ENSURES(ok,"exactly the local domain at the current timestep"); ncalls[scope]++; f(*ge[scope==ELEMENT_SCOPE_ORDINAL?0:1]); }
static std::chrono::high_resolution_clock::time_point now0(){ return {}; }
static void noscale(critical_point_tracker*,int,int){}
template<class F> static void* mfp(F f){ void*p; static_assert(sizeof f>=sizeof p,""); memcpy(&p,&f,sizeof p); return p; }
static void update(){ T&t=*g; gt=g; VS st(N),sz(N); for(int i=0;i<N;i++){ st[i]=__v_int("start",0,BIG); sz[i]=__v_int("size",1,BIG); } t.local_domain=lattice(st,sz); t.current_timestep=__v_int("timestep",0,BIG); bool two=__v_branch(__v_bool("two snapshots")); for(int i=0;i<1+two;i++) t.field_data_snapshots.emplace_back(); bool flt=__v_branch(__v_bool("filter")); unsigned mask=flt?(N==3?2:1+__v_split(__v_int("mask",0,1))):0; if(flt) t.set_type_filter(mask);
  VI c0(N+1),c1(N+1); for(int i=0;i<=N;i++){ c0[i]=__v_int("c0",0,BIG); c1[i]=__v_int("c1",0,BIG); } E e0(c0,N,0),e1(c1,N,1); ge[0]=&e0; ge[1]=&e1; for(int k=0;k<2;k++){ gyes[k]=__v_branch(__v_bool("reported")); gcp[k]=feature_point_t(); gcp[k].type=flt?1+__v_split(__v_int("point type",0,N==3?1:2)):1; gcp[k].tag=__v_int("tag",0,1000); gcp[k].t=__v_real("t"); gcp[k].ordinal=k==0; } ncalls[1]=ncalls[2]=ncalls[0]=0;
  __v_replace(mfp((bool(T::*)(const E&,feature_point_t&))&T::check_simplex),(void*)&chk); __v_replace(mfp((void(simplicial_regular_mesh::*)(int,const lattice&,int,std::function<void(E)>,int,int,bool)const)&simplicial_regular_mesh::element_for),(void*)&efor); if(__v_symbolic()){ __v_replace((void*)&std::chrono::high_resolution_clock::now,(void*)&now0); __v_replace(mfp((void(critical_point_tracker::*)(int,int))&T::update_vector_field_scaling_factor),(void*)&noscale); }
  t.TRACKER::update_timestep(); ENSURES(ncalls[ELEMENT_SCOPE_ORDINAL]==1&&ncalls[ELEMENT_SCOPE_INTERVAL]==(two?1:0),"cells of the timestep once, cells up to the next timestep once if it is there"); size_t n=0; for(int k=0;k<1+two;k++){ bool keep=gyes[k]&&(!flt||(mask&gcp[k].type)); auto it=t.discrete_critical_points.find(*ge[k]); ENSURES((it!=t.discrete_critical_points.end())==keep,"stored iff reported and of a requested type"); if(keep){ n++; ENSURES(it->second.tag==gcp[k].tag&&it->second.type==gcp[k].type&&it->second.ordinal==gcp[k].ordinal,"as reported"); ENSURES_EQ(it->second.t,gcp[k].t,"as reported"); } } ENSURES(t.discrete_critical_points.size()==n,"nothing else is stored"); }
// ---- set-up and stepping
static void init(){ T&t=*g; VS st(N),sz(N),as(N),az(N); for(int i=0;i<N;i++){ st[i]=__v_int("start",0,BIG); sz[i]=__v_int("size",1,BIG); as[i]=__v_int("array start",0,BIG); az[i]=__v_int("array size",1,BIG); } t.set_domain(lattice(st,sz)); t.set_array_domain(lattice(as,az)); int t0=__v_int("first",0,BIG),t1=t0+__v_int("steps",0,BIG); t.set_start_timestep(t0); t.set_end_timestep(t1); t.initialize();
  for(int i=0;i<N;i++){ ENSURES(t.m.lb(i)==(int)st[i]&&t.m.ub(i)==(int)(st[i]+sz[i]-1),"the mesh spans the domain"); ENSURES(t.local_domain.start(i)==st[i]&&t.local_domain.size(i)==sz[i],"one process works on the whole domain"); ENSURES(t.local_array_domain.start(i)==as[i]&&t.local_array_domain.size(i)==az[i],"arrays cover the array domain"); } ENSURES(t.m.lb(N)==t0&&t.m.ub(N)==t1,"the mesh spans the timesteps"); }
static void advance(){ A*a=(A*)g; int k=__v_split(__v_int("snapshots",1,3)),t0=__v_int("t0",0,BIG); a->set_current_timestep(t0); for(int i=0;i<k;i++){ ndarray<double> x; x.reshape({1}); x[0]=i; a->critical_point_tracker::push_scalar_field_snapshot(x); } for(int i=1;i<=k;i++){ bool more=a->advance_timestep(); ENSURES(a->n==i,"updated once per step"); ENSURES(a->get_current_timestep()==t0+i,"timestep advances by one"); ENSURES(more==(i<k),"true iff data remains"); if(more) ENSURES_EQ(a->field_data_snapshots[0].scalar[0],(double)i,"the next snapshot comes first"); } }

// ---- pushing a snapshot: given data are kept, derived data come from the derivative operators (contract: C15)
static ndarray<double> tagged(double x){ ndarray<double> a; a.reshape({1}); a[0]=x; return a; }
static ndarray<double> grad1(const ndarray<double>&s){ return tagged(s[0]+100); }
static ndarray<double> jacs(const ndarray<double>&v){ return tagged(v[0]+1000); }
static ndarray<double> jacv(const ndarray<double>&v){ return tagged(v[0]+2000); }
static ndarray<double> jac3(const ndarray<double>&v,int b){ ENSURES(b==2,"boundary"); return tagged(v[0]+1000); }
static void push(){ T&t=*g; bool sc=__v_branch(__v_bool("scalar")),dv=sc&&__v_branch(__v_bool("vector derived")),dj=__v_branch(__v_bool("jacobian derived")); int k0=__v_split(__v_int("queued",0,2));
  t.set_scalar_field_source(sc?SOURCE_GIVEN:SOURCE_NONE); t.set_vector_field_source(dv?SOURCE_DERIVED:SOURCE_GIVEN); t.set_jacobian_field_source(dj?SOURCE_DERIVED:SOURCE_NONE); REPL_DERIV
  for(int i=0;i<k0;i++){ t.field_data_snapshots.emplace_back(); t.field_data_snapshots.back().scalar=tagged(-1-i); } double x=__v_real("x"); if(sc) t.push_scalar_field_snapshot(tagged(x)); else t.push_vector_field_snapshot(tagged(x));
  ENSURES((int)t.field_data_snapshots.size()==k0+1,"queued"); for(int i=0;i<k0;i++) ENSURES_EQ(t.field_data_snapshots[i].scalar[0],(double)(-1-i),"earlier snapshots stay in front"); auto&s=t.field_data_snapshots.back();
  auto is=[&](ndarray<double>&a,bool have,double v){ if(have){ ENSURES(a.size()==1,"present"); ENSURES_EQ(a[0],v,"the right data"); } else ENSURES(a.size()==0,"absent"); };
  is(s.scalar,sc,x); is(s.vector,!sc||dv,sc?x+100:x); is(s.jacobian,dj&&(!sc||dv),sc?x+100+1000:x+(N==2?2000:1000)); }
// ---- finalisation: points are joined when their cells are faces of a common cell; put/get
typedef std::vector<feature_curve_t> VC; typedef std::function<std::set<E>(E)> FN; static int goff;
static VC toff(critical_point_tracker*self,std::map<E,feature_point_t>&d,FN f){ goff++; ENSURES(self==(critical_point_tracker*)gt&&&d==&gt->discrete_critical_points,"all stored points"); std::set<E> S=f(*ge[0]),W; for(const auto&c:ge[0]->side_of(gt->m)) for(const auto&s:c.sides(gt->m)) W.insert(s); ENSURES(S==W,"neighbours of a cell: faces of the cells that contain it"); return VC(); }
static void fin(){ T&t=*g; gt=g; t.m.set_lb_ub(VI(N+1,0),VI(N+1,3)); int ty=__v_split(__v_int("cell type",0,N==2?11:2)); E e(VI(N+1,1),N,ty); ge[0]=&e; bool str=__v_branch(__v_bool("streaming")); t.set_enable_streaming_trajectories(str); goff=0; __v_replace(mfp((VC(critical_point_tracker::*)(std::map<E,feature_point_t>&,FN))&T::template trace_critical_points_offline<E>),(void*)&toff); t.finalize(); ENSURES(goff==(str?0:1),"traced once, unless already traced while streaming"); }
static void store(){ T&t=*g; VI L(N+1),U(N+1),C(N+1); for(int i=0;i<=N;i++){ L[i]=0; U[i]=4; C[i]=__v_split(__v_int("corner",0,1)); } t.m.set_lb_ub(L,U); int ty=__v_split(__v_int("cell type",0,1)); E e(C,N,ty),e2(C,N,ty+1); std::vector<feature_point_t> in(2),out; for(int i=0;i<2;i++){ in[i].tag=(i?e2:e).to_integer(t.m); in[i].t=__v_real("t"); in[i].type=__v_int("type",0,9); } t.put_critical_points(in);
  ENSURES(t.discrete_critical_points.size()==2,"one point per cell"); for(int i=0;i<2;i++){ auto it=t.discrete_critical_points.find(i?e2:e); ENSURES(it!=t.discrete_critical_points.end(),"filed under the cell its tag denotes"); ENSURES_EQ(it->second.t,in[i].t,"as given"); ENSURES(it->second.type==in[i].type,"as given"); }
  out=t.get_critical_points(); ENSURES(out.size()==2,"all points are returned"); bool sw=out[0].tag!=in[0].tag; for(int i=0;i<2;i++){ auto&o=out[sw?1-i:i]; ENSURES(o.tag==in[i].tag&&o.type==in[i].type,"as stored"); ENSURES_EQ(o.t,in[i].t,"as stored"); } }
