// Property C05: domain decomposition.  For every lattice (arbitrary offset and extent) the parts are disjoint, cover the lattice and
// lie inside it; ghost extents are the cores grown by the ghost width and clamped to the lattice.
#include "std_all.h"
#define private public
#define protected public
#include <ftk/config.hh>
#include <iostream>
#include <algorithm>
#include <ftk/mesh/lattice_partitioner.hh>
#undef private
#undef protected
#include "vals.h"
using namespace ftk; typedef std::vector<size_t> VS;
static const long MX=1l<<20;
// arbitrary lattice and an arbitrary point; every point of the lattice lies in exactly one core
static void check_cores(const lattice&l,const lattice_partitioner&P,size_t np,int nd,const VS&st,const VS&sz){
  if(P.np()==0) return; // refused: extent smaller than the number of cuts
  ENSURES(P.np()==np,"as many parts as requested");
  VS x(nd); bool in=true; for(int i=0;i<nd;i++){ x[i]=__v_int("x",0,2*MX+2); if(x[i]<st[i]||x[i]>=st[i]+sz[i]) in=false; }
  long cnt=0; for(size_t p=0;p<P.np();p++){ const lattice&c=P.get_core(p); bool inc=true; for(int i=0;i<nd;i++) { if(x[i]<c.start(i)||x[i]>=c.start(i)+c.size(i)) inc=false; ENSURES(c.size(i)>=1,"nonempty core"); ENSURES(c.start(i)>=l.start(i)&&c.start(i)+c.size(i)<=l.start(i)+l.size(i),"core inside the lattice"); } if(__v_branch(inc)) cnt++; }
  ENSURES(cnt==(in?1:0),"every lattice point in exactly one core, no other point in any"); }
static void arbl(int nd,VS&st,VS&sz,lattice&l,long need){ st.resize(nd); sz.resize(nd); for(int i=0;i<nd;i++){ st[i]=__v_int("start",0,MX); sz[i]=__v_int("size",1,MX); if(need) REQUIRES((long)sz[i]>=need); } l.reshape(st,sz); }
template<int nd> static void cores(int np,long need){ VS st,sz; lattice l; arbl(nd,st,sz,l,need); lattice_partitioner P(l); P.partition(np); if(need) ENSURES(P.np()==(size_t)np,"partition succeeds when every extent admits the cuts"); check_cores(l,P,np,nd,st,sz); }
#define BND "any extents and offsets (1..2^20); the number of parts is enumerated"
BOUNDED(cores1, "lattice_partitioner::partition prime_factorization lattice::reshape (1D)", "parts tile the lattice exactly", BND ": 1..9, 12") { for(int np: {1,2,3,4,5,6,7,8,9,12}) if(__v_branch(__v_bool("np"))) { cores<1>(np,np); return; } cores<1>(16,16); }
BOUNDED(cores2, "lattice_partitioner::partition prime_factorization lattice::reshape (2D)", "parts tile the lattice exactly", BND ": 1..8") { for(int np: {1,2,3,4,5,6,7}) if(__v_branch(__v_bool("np"))) { cores<2>(np,np); return; } cores<2>(8,8); }
BOUNDED(cores3, "lattice_partitioner::partition prime_factorization lattice::reshape (3D)", "parts tile the lattice exactly", BND ": 1,2,3,4,6,8") { for(int np: {1,2,3,4,6}) if(__v_branch(__v_bool("np"))) { cores<3>(np,np); return; } cores<3>(8,8); }
BOUNDED(small2, "lattice_partitioner::partition (2D, extents possibly smaller than the cuts)", "either refused or the parts tile the lattice exactly", BND ": 2,4,6") { for(int np: {2,4}) if(__v_branch(__v_bool("np"))) { cores<2>(np,0); return; } cores<2>(6,0); }
BOUNDED(given2, "lattice_partitioner::partition(np, given) (2D)", "requested cuts per dimension are honoured and the parts tile the lattice", BND ": 6 = 2x3, 3x2, 6x1, 1x6, 0x2, 3x0") {
  size_t g[6][2]={{2,3},{3,2},{6,1},{1,6},{0,2},{3,0}}; int k=__v_split(__v_int("cfg",0,5)); VS st,sz; lattice l; arbl(2,st,sz,l,6); lattice_partitioner P(l); VS given={g[k][0],g[k][1]}; P.partition(6,given); ENSURES(P.np()==6,"succeeds");
  check_cores(l,P,6,2,st,sz); size_t gx=g[k][0]?g[k][0]:3,gy=g[k][1]?g[k][1]:2; long sx=0,sy=0; // number of distinct starts per dimension = cuts
  for(int d=0;d<2;d++){ long distinct=0; for(size_t p=0;p<P.np();p++){ bool nw=true; for(size_t q=0;q<p;q++) if(__v_branch(P.get_core(q).start(d)==P.get_core(p).start(d))) nw=false; if(nw) distinct++; } ENSURES(distinct==(long)(d==0?gx:gy),"cuts per dimension"); } }
BOUNDED(given3, "lattice_partitioner::partition(np, given) (3D)", "requested cuts per dimension are honoured; the parts form a grid", BND ": 12 or 18 with some of the three numbers of cuts prescribed (9 combinations)") {
  size_t g[9][4]={{12,2,3,0},{12,0,2,3},{12,2,0,3},{12,3,0,0},{12,0,3,0},{12,0,0,2},{18,2,3,3},{18,3,2,0},{18,1,0,2}}; int k=__v_split(__v_int("cfg",0,8)); VS st,sz; lattice l; arbl(3,st,sz,l,18); lattice_partitioner P(l); VS given={g[k][1],g[k][2],g[k][3]}; P.partition(g[k][0],given); ENSURES(P.np()==g[k][0],"succeeds");
  long prod=1;
  for(int d=0;d<3;d++){ long distinct=0; for(size_t p=0;p<P.np();p++){ bool nw=true; for(size_t q=0;q<p;q++) if(__v_branch(P.get_core(q).start(d)==P.get_core(p).start(d))) nw=false; if(nw) distinct++; } if(given[d]) ENSURES(distinct==(long)given[d],"cuts per dimension"); prod*=distinct; } ENSURES(prod==(long)P.np(),"a grid of parts"); }
BOUNDED(given_bad, "lattice_partitioner::partition(np, given)", "inconsistent requests are refused", "np=6 with cuts 4x0 and 2x2") { VS st,sz; lattice l; arbl(2,st,sz,l,8); { lattice_partitioner P(l); P.partition(6,VS{4,0}); ENSURES(P.np()==0,"6 not divisible by 4"); } { lattice_partitioner P(l); P.partition(6,VS{2,2}); ENSURES(P.np()==0,"2x2 is not 6"); } }
static size_t mx(size_t a,size_t b){return a>b?a:b;} static size_t mn(size_t a,size_t b){return a<b?a:b;}
template<int nd> static void ghost(){ VS st,sz; lattice l; arbl(nd,st,sz,l,0); lattice_partitioner P(l); VS cs(nd),cz(nd),gl(nd),gh(nd); for(int i=0;i<nd;i++){ cs[i]=__v_int("cstart",0,2*MX); cz[i]=__v_int("csize",1,MX); REQUIRES(cs[i]>=st[i]&&cs[i]+cz[i]<=st[i]+sz[i]); gl[i]=__v_int("glow",0,MX); gh[i]=__v_int("ghigh",0,MX); }
  lattice core(cs,cz); lattice e=P.add_ghost(core,gl,gh); for(int i=0;i<nd;i++){ long lo=(long)cs[i]-(long)gl[i]; if(lo<(long)st[i]) lo=st[i]; long hi=(long)(cs[i]+cz[i]+gh[i]); if(hi>(long)(st[i]+sz[i])) hi=st[i]+sz[i]; ENSURES((long)e.start(i)==lo,"extent starts at max(lattice start, core start - ghost)"); ENSURES((long)(e.start(i)+e.size(i))==hi,"extent ends at min(lattice end, core end + ghost)"); }
  lattice e0=P.add_ghost(core,VS(),VS()); for(int i=0;i<nd;i++) ENSURES(e0.start(i)==cs[i]&&e0.size(i)==cz[i],"no ghost"); }
CONTRACT(ghost1, "lattice_partitioner::add_ghost (1D)", "extent = core grown by the ghost widths, clamped to the lattice") { ghost<1>(); }
CONTRACT(ghost2, "lattice_partitioner::add_ghost (2D)", "extent = core grown by the ghost widths, clamped to the lattice") { ghost<2>(); }
CONTRACT(ghost3, "lattice_partitioner::add_ghost (3D)", "extent = core grown by the ghost widths, clamped to the lattice") { ghost<3>(); }
CONTRACT(ghost_time, "lattice_partitioner::add_ghost lattice::nd_cuttable", "the unlimited time dimension is never grown or cut") { VS st,sz; lattice l; arbl(3,st,sz,l,0); sz[2]=2147483647; st[2]=0; l.reshape(st,sz); lattice_partitioner P(l); VS cs(st),cz(sz); cz[0]=__v_int("csize",1,MX); REQUIRES(cz[0]<=sz[0]); lattice e=P.add_ghost(lattice(cs,cz),VS{1,1,1},VS{2,2,2}); ENSURES(e.start(2)==0&&e.size(2)==2147483647,"time untouched"); ENSURES(e.start(0)==st[0]&&(long)(e.start(0)+e.size(0))==(long)mn(st[0]+cz[0]+2,st[0]+sz[0]),"space grown"); }
BOUNDED(pghost, "lattice_partitioner::partition(np,given,ghost) and (np,given,low,high)", "every core gets its clamped ghost extent, in the same order", BND ": 4") { int nd=2; VS st,sz; lattice l; arbl(2,st,sz,l,4); VS gl={(size_t)__v_int("gl0",0,MX),(size_t)__v_int("gl1",0,MX)},gh={(size_t)__v_int("gh0",0,MX),(size_t)__v_int("gh1",0,MX)}; bool one=__v_branch(__v_bool("same")); lattice_partitioner P(l); if(one){ gh=gl; P.partition(4,VS{},gl); } else P.partition(4,VS{},gl,gh); ENSURES(P.np()==4&&P.extents.size()==4,"an extent per core");
  for(int p=0;p<4;p++){ const lattice&c=P.get_core(p),&e=P.get_ext(p); for(int i=0;i<nd;i++){ long lo=(long)c.start(i)-(long)gl[i]; if(lo<(long)st[i]) lo=st[i]; long hi=(long)(c.start(i)+c.size(i)+gh[i]); if(hi>(long)(st[i]+sz[i])) hi=st[i]+sz[i]; ENSURES((long)e.start(i)==lo&&(long)(e.start(i)+e.size(i))==hi,"clamped extent"); } } }
BOUNDED(timecut, "lattice_partitioner::partition with an unlimited time dimension", "time is never cut", BND ": 4") { VS st,sz; lattice l; arbl(3,st,sz,l,4); sz[2]=2147483647; st[2]=0; l.reshape(st,sz); lattice_partitioner P(l); P.partition(4); ENSURES(P.np()==4,"np"); for(int p=0;p<4;p++) ENSURES(P.get_core(p).start(2)==0&&P.get_core(p).size(2)==2147483647,"time uncut"); }
BOUNDED(factor, "lattice_partitioner::prime_factorization", "prime factors in non-increasing order whose product is n", "n = 2..130") { for(size_t n=2;n<=130;n++){ auto f=lattice_partitioner::prime_factorization<size_t>(n); size_t p=1; for(size_t i=0;i<f.size();i++){ p*=f[i]; bool prime=f[i]>=2; for(size_t d=2;d*d<=f[i];d++) if(f[i]%d==0) prime=false; ENSURES(prime,"prime"); if(i) ENSURES(f[i]<=f[i-1],"non-increasing"); } ENSURES(p==n,"product"); } }
