// Property C04: lattice points and linear indices are in bijection, bounds and containment agree.
#include <ftk/config.hh>
#include <ftk/mesh/lattice.hh>
#include "vals.h"
using namespace ftk; typedef std::vector<size_t> VS; typedef std::vector<int> VI;
static const long MX=1l<<20;
// an arbitrary lattice of dimension nd with at least one point per dimension
static lattice arb(int nd,VS&st,VS&sz,long mx=MX){ st.resize(nd); sz.resize(nd); for(int i=0;i<nd;i++){ st[i]=__v_int("start",0,mx); sz[i]=__v_int("size",1,mx); } return lattice(st,sz); }
template<int nd> static void roundtrip(){ VS st,sz; long mx=nd<=3?MX:(1l<<15); lattice l=arb(nd,st,sz,mx); VI x(nd); for(int i=0;i<nd;i++){ long c=__v_int("x",0,mx); REQUIRES(c<(long)sz[i]); x[i]=c+st[i]; }
  uint64_t k=l.to_integer<uint64_t>(x); long n=1,acc=0; for(int i=0;i<nd;i++){ long m=n*(long)sz[i]; ENSURES(n>=1,"lemma: partial product positive"); acc+=(x[i]-(long)st[i])*n; ENSURES(acc<=m-1,"lemma: partial index below partial product"); n=m; } ENSURES((long)k>=0&&(long)k<n,"index in [0,n)"); ENSURES((long)l.n()==n,"n is the product of the sizes");
  VI y=l.from_integer<uint64_t>(k); for(int i=0;i<nd;i++) ENSURES(y[i]==x[i],"from_integer(to_integer(x)) = x"); }
template<int nd> static void roundtrip2(){ VS st,sz; long mx=nd<=3?MX:(1l<<15); lattice l=arb(nd,st,sz,mx); long n=1; for(int i=0;i<nd;i++) n*=(long)sz[i]; long k=__v_int("k",0,1l<<60); REQUIRES(k<n);
  VI x=l.from_integer<uint64_t>(k); VS xs(nd); for(int i=0;i<nd;i++){ ENSURES(x[i]>=(long)st[i]&&x[i]<(long)(st[i]+sz[i]),"coordinates inside the lattice"); xs[i]=x[i]; }
  ENSURES(l.contains(xs),"contains"); ENSURES((long)l.to_integer<uint64_t>(x)==k,"to_integer(from_integer(k)) = k"); }
CONTRACT(rt1, "lattice::reshape lattice::to_integer lattice::from_integer lattice::n (1D)", "coordinates -> index -> coordinates is the identity; indices fill [0,n)") { roundtrip<1>(); }
CONTRACT(rt2, "lattice::reshape lattice::to_integer lattice::from_integer lattice::n (2D)", "coordinates -> index -> coordinates is the identity; indices fill [0,n)") { roundtrip<2>(); }
CONTRACT(rt3, "lattice::reshape lattice::to_integer lattice::from_integer lattice::n (3D)", "coordinates -> index -> coordinates is the identity; indices fill [0,n)") { roundtrip<3>(); }
CONTRACT(rt4, "lattice::reshape lattice::to_integer lattice::from_integer lattice::n (4D)", "coordinates -> index -> coordinates is the identity; indices fill [0,n)") { roundtrip<4>(); }
CONTRACT(ri1, "lattice::from_integer lattice::to_integer lattice::contains (1D)", "index -> coordinates -> index is the identity and stays inside") { roundtrip2<1>(); }
CONTRACT(ri2, "lattice::from_integer lattice::to_integer lattice::contains (2D)", "index -> coordinates -> index is the identity and stays inside") { roundtrip2<2>(); }
CONTRACT(ri3, "lattice::from_integer lattice::to_integer lattice::contains (3D)", "index -> coordinates -> index is the identity and stays inside") { roundtrip2<3>(); }
CONTRACT(ri4, "lattice::from_integer lattice::to_integer lattice::contains (4D)", "index -> coordinates -> index is the identity and stays inside") { roundtrip2<4>(); }
template<int nd> static void bounds(){ VS st,sz; lattice l=arb(nd,st,sz); VS x(nd); bool in=true; for(int i=0;i<nd;i++){ x[i]=__v_int("x",0,4*MX); if(x[i]<st[i]||x[i]>st[i]+sz[i]-1) in=false; }
  ENSURES(l.contains(x)==in,"contains iff within [start, start+size) in every dimension"); ENSURES(l.nd()==nd,"nd");
  VS lb=l.lower_bounds(),ub=l.upper_bounds(); for(int i=0;i<nd;i++){ ENSURES(lb[i]==st[i]&&l.lower_bound(i)==st[i]&&l.start(i)==st[i],"lower bound"); ENSURES(ub[i]==st[i]+sz[i]-1&&l.upper_bound(i)==ub[i],"upper bound"); ENSURES(l.size(i)==sz[i]&&l.sizes()[i]==sz[i]&&l.starts()[i]==st[i],"size"); }
  lattice a(sz); int dims[nd]; VI si(nd),zi(nd); for(int i=0;i<nd;i++){ dims[i]=sz[i]; zi[i]=sz[i]; si[i]=st[i]; } lattice b(nd,dims),c,d; c.reshape(zi); d.reshape(si,zi);
  for(int i=0;i<nd;i++){ ENSURES(a.size(i)==sz[i]&&a.start(i)==0&&b.size(i)==sz[i]&&b.start(i)==0&&c.size(i)==sz[i]&&c.start(i)==0&&d.size(i)==sz[i]&&d.start(i)==st[i],"constructors and reshape agree"); ENSURES(a.n()==l.n()&&b.n()==l.n()&&c.n()==l.n()&&d.n()==l.n(),"n"); } }
CONTRACT(bounds1, "lattice::contains lower_bound upper_bound lower_bounds upper_bounds constructors reshape (1D)", "bounds, containment and constructors agree") { bounds<1>(); }
CONTRACT(bounds2, "lattice::contains lower_bound upper_bound lower_bounds upper_bounds constructors reshape (2D)", "bounds, containment and constructors agree") { bounds<2>(); }
CONTRACT(bounds3, "lattice::contains lower_bound upper_bound lower_bounds upper_bounds constructors reshape (3D)", "bounds, containment and constructors agree") { bounds<3>(); }
CONTRACT(bounds4, "lattice::contains lower_bound upper_bound lower_bounds upper_bounds constructors reshape (4D)", "bounds, containment and constructors agree") { bounds<4>(); }
CONTRACT(unlimited, "lattice::unlimited_time nd_cuttable", "the last dimension is unlimited iff its size is the largest int, and then not cuttable") { VS st(3),sz(3); for(int i=0;i<3;i++){ st[i]=0; sz[i]=__v_int("size",1,2147483647); } lattice l(st,sz); ENSURES(l.unlimited_time()==(sz[2]==2147483647),"unlimited"); ENSURES(l.nd_cuttable()==(sz[2]==2147483647?2:3),"cuttable"); }
CONTRACT(diy, "lattice(diy::DiscreteBounds) lattice::to_diy_bounds", "inclusive bounds round trip") { VS st,sz; lattice l=arb(3,st,sz); diy::DiscreteBounds b=l.to_diy_bounds(); for(int i=0;i<3;i++) ENSURES(b.min[i]==(long)st[i]&&b.max[i]==(long)(st[i]+sz[i])-1,"inclusive bounds"); lattice m(b); for(int i=0;i<3;i++) ENSURES(m.start(i)==st[i]&&m.size(i)==sz[i],"round trip"); ENSURES(m.n()==l.n(),"n"); }
