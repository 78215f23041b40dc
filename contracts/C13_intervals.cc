// Property C13: interval arithmetic denotes set operations, inequality solvers return exactly the solution set, fixed point numbers compute on their scaled integers.
#include "std_all.h"
#define private public
#define protected public
#include <ftk/config.hh>
#include <map>
#include <ftk/numeric/basic_interval.hh>
#include <ftk/numeric/disjoint_intervals.hh>
#include <ftk/numeric/linear_inequality_solver.hh>
#include <ftk/numeric/cubic_inequality_solver.hh>
#include <ftk/numeric/fixed_point.hh>
#include "vals.h"
using namespace ftk;
typedef basic_interval<double> I1; typedef disjoint_intervals<double> DI; typedef basic_interval<long> L1;
// an arbitrary interval: each end finite or infinite, open or closed; in() is its meaning
struct Iv { bool li,ui,lo,uo; double l,u; };
static Iv iv(const char*n,bool flags=true,bool infs=true){ Iv v; v.li=infs&&__v_split(__v_int("lowinf",0,1)); v.ui=infs&&__v_split(__v_int("upinf",0,1)); v.lo=flags&&!v.li?__v_split(__v_int("lopen",0,1)):0; v.uo=flags&&!v.ui?__v_split(__v_int("uopen",0,1)):0; v.l=v.li?0:__v_real(n); v.u=v.ui?0:__v_real(n); return v; }
static I1 mk(const Iv&v){ I1 i(v.l,v.u); if(v.li) i.set_lower_inf(); if(v.ui) i.set_upper_inf(); if(v.lo) i.set_lower_open(); if(v.uo) i.set_upper_open(); return i; }
static bool in(const Iv&v,double x){ return (v.li||(v.lo?x>v.l:x>=v.l))&&(v.ui||(v.uo?x<v.u:x<=v.u)); }
static bool none(const Iv&v){ return !v.li&&!v.ui&&(v.l>v.u||(v.l==v.u&&(v.lo||v.uo))); }
static bool inI(const I1&i,double x){ return (i.lower_unbounded()||(i.lower_open()?x>i.lower():x>=i.lower()))&&(i.upper_unbounded()||(i.upper_open()?x<i.upper():x<=i.upper())); }

CONTRACT(meaning,"basic_interval contains empty lower upper lower_open upper_open (un)bounded","an interval contains exactly the numbers between its ends, ends included iff closed") { Iv v=iv("end"); I1 i=mk(v); double x=__v_real("x"); ENSURES(i.contains(x)==in(v,x),"contains"); ENSURES(i.empty()==none(v),"empty"); ENSURES(i.lower_unbounded()==v.li&&i.upper_unbounded()==v.ui&&i.lower_bounded()==!v.li&&i.upper_bounded()==!v.ui,"bounded"); ENSURES(i.lower_open()==(v.li||v.lo)&&i.upper_open()==(v.ui||v.uo)&&i.lower_closed()==!(v.li||v.lo)&&i.upper_closed()==!(v.ui||v.uo),"open"); ENSURES(i.complete()==(v.li&&v.ui),"complete"); if(!v.li) ENSURES(i.lower()==v.l,"lower"); if(!v.ui) ENSURES(i.upper()==v.u,"upper"); ENSURES(i.singleton()==(!v.li&&!v.ui&&!v.lo&&!v.uo&&v.l==v.u),"singleton"); }
CONTRACT(special,"basic_interval set_to_empty set_to_complete set_to_singleton empty_interval complete_interval hull","the special sets are what their names say, whatever the interval was before") { Iv v=iv("end"); double x=__v_real("x"),c=__v_real("c"); I1 a=mk(v),b=a,s=a; a.set_to_empty(); ENSURES(a.empty()&&!a.contains(x)&&!a.singleton()&&!a.complete(),"empty"); b.set_to_complete(); ENSURES(b.contains(x)&&b.complete()&&!b.empty(),"complete"); s.set_to_singleton(c); ENSURES(s.contains(x)==(x==c)&&s.singleton()&&!s.empty(),"singleton"); ENSURES(I1().empty()&&I1::empty_interval().empty()&&I1::complete_interval().complete()&&I1(c).singleton()&&I1(c).contains(c),"constructors"); I1 h=mk(v).hull(); Iv w=v; w.lo=w.uo=0; ENSURES(h.contains(x)==in(w,x),"hull is the closure"); }
CONTRACT(setters,"basic_interval set_lower set_upper set_open set_closed","the ends are set independently") { Iv v=iv("end"); I1 i=mk(v); double a=__v_real("a"),b=__v_real("b"),x=__v_real("x"); I1 j=i; j.set_lower(a); Iv w=v; w.li=0; w.l=a; if(v.li) w.lo=0; ENSURES(inI(j,x)==in(w,x),"set_lower"); j=i; j.set_upper(b); w=v; w.ui=0; w.u=b; if(v.ui) w.uo=0; ENSURES(inI(j,x)==in(w,x),"set_upper"); j=i; j.set_open(); w=v; w.lo=w.uo=1; ENSURES(inI(j,x)==in(w,x),"set_open"); j=i; j.set_closed(); w=v; w.lo=w.uo=0; ENSURES(inI(j,x)==in(w,x),"set_closed"); }
CONTRACT(sample,"basic_interval::sample","the sample of a nonempty interval lies in it") { Iv v=iv("end"); REQUIRES(!none(v)); I1 i=mk(v); ENSURES(in(v,i.sample()),"in the interval"); }
CONTRACT(intersect1,"basic_interval::intersect, intersect","membership in both") { Iv a=iv("a"),b=iv("b"); REQUIRES(!none(a)&&!none(b)); double x=__v_real("x"); I1 i=mk(a),j=mk(b),k=intersect(i,j); bool want=in(a,x)&&in(b,x); ENSURES(inI(k,x)==want&&k.contains(x)==want,"intersection"); if(want) ENSURES(!k.empty()&&i.overlaps(j)&&j.overlaps(i),"overlapping"); i.intersect(j); ENSURES(inI(i,x)==want,"in place"); }
CONTRACT(overlaps,"basic_interval::overlaps","two nonempty intervals overlap iff they share a number") { Iv a=iv("a"),b=iv("b"); REQUIRES(!none(a)&&!none(b)); bool r=mk(a).overlaps(mk(b)); double x=a.li?b.li?0:b.l:b.li?a.l:a.l<b.l?b.l:a.l, y=a.ui?b.ui?0:b.u:b.ui?a.u:a.u<b.u?a.u:b.u; bool li=a.li&&b.li,ui=a.ui&&b.ui; double w=li?(ui?0:y-1):ui?x+1:(x+y)/2; ENSURES(r==(in(a,w)&&in(b,w)),"a common number exists iff the middle of the overlap is one"); double z=__v_real("z"); if(!r) ENSURES(!(in(a,z)&&in(b,z)),"no common number"); }
CONTRACT(join1,"basic_interval::join","the union when that is an interval; otherwise refused and unchanged") { Iv a=iv("a"),b=iv("b"); REQUIRES(!none(a)&&!none(b)); double x=__v_real("x"); I1 i=mk(a); bool r=i.join(mk(b)); if(r) ENSURES(inI(i,x)==(in(a,x)||in(b,x)),"union"); else { ENSURES(inI(i,x)==in(a,x),"unchanged"); ENSURES(!(in(a,x)&&in(b,x)),"refused only if disjoint"); } }
CONTRACT(joinfn,"join","overlapping intervals are joined, disjoint ones give the empty interval") { Iv a=iv("a"),b=iv("b"); REQUIRES(!none(a)&&!none(b)); double x=__v_real("x"); I1 i=mk(a),j=mk(b),k=join(i,j); if(i.overlaps(j)) ENSURES(inI(k,x)==(in(a,x)||in(b,x)),"union"); else ENSURES(k.empty(),"empty"); }
CONTRACT(ints,"basic_interval<long> set_lower_inf set_upper_inf lower_inf upper_inf","integer intervals: unbounded below or above, finite end kept") { long a=__v_int("a",-1000000,1000000),b=__v_int("b",-1000000,1000000),x=__v_int("x",-2000000,2000000); L1 i(a,b); i.set_lower_inf(); ENSURES(i.lower_unbounded()&&i.upper()==b&&i.contains(x)==(x<=b),"no lower end"); L1 j(a,b); j.set_upper_inf(); ENSURES(j.upper_unbounded()&&j.lower()==a&&j.contains(x)==(x>=a),"no upper end"); L1 k(a,b); ENSURES(k.contains(x)==(a<=x&&x<=b)&&k.empty()==(a>b),"finite"); ENSURES(L1::complete_interval().contains(x)&&!L1().contains(x),"special"); }

// unions of intervals
template<int n> static void unions(Iv*v,DI&d){ for(int i=0;i<n;i++){ v[i]=iv("end",n<3); d.join(mk(v[i])); } }
static bool disjointSorted(const DI&d){ bool ok=true; const I1*p=nullptr; for(auto&i:d.subintervals()){ if(i.empty()) ok=false; if(p&&!(p->upper()<i.lower()||(p->upper()==i.lower()&&p->upper_open()&&i.lower_open()))) ok=false; p=&i; } return ok; }
BOUNDED(union2,"disjoint_intervals::join contains","the union of what was joined, as separated nonempty subintervals","2 intervals, all ends") { Iv v[2]; DI d; unions<2>(v,d); double x=__v_real("x"); ENSURES(d.contains(x)==(in(v[0],x)||in(v[1],x)),"union"); ENSURES(disjointSorted(d),"separated"); ENSURES(d.empty()==(none(v[0])&&none(v[1])),"empty"); }
BOUNDED(union3,"disjoint_intervals::join contains","the union of what was joined, as separated nonempty subintervals","3 closed intervals, all ends") { Iv v[3]; DI d; unions<3>(v,d); double x=__v_real("x"); ENSURES(d.contains(x)==(in(v[0],x)||in(v[1],x)||in(v[2],x)),"union"); ENSURES(disjointSorted(d),"separated"); }
BOUNDED(diint1,"disjoint_intervals::intersect (interval)","membership in both","2 separated intervals (inner ends open or closed) with any interval") { double e[4]; for(auto&z:e) z=__v_real("e"); REQUIRES(e[0]<=e[1]&&e[1]<e[2]&&e[2]<=e[3]); Iv v[2]={{0,0,0,0,e[0],e[1]},{0,0,0,0,e[2],e[3]}}; if(e[0]<e[1]) v[0].uo=__v_split(__v_int("uopen",0,1)); if(e[2]<e[3]) v[1].lo=__v_split(__v_int("lopen",0,1)); DI d; d.join(mk(v[0])); d.join(mk(v[1])); Iv w=iv("w"); REQUIRES(!none(w)); double x=__v_real("x"); d.intersect(mk(w)); ENSURES(d.contains(x)==((in(v[0],x)||in(v[1],x))&&in(w,x)),"intersection"); ENSURES(disjointSorted(d),"separated"); }
BOUNDED(diint2,"disjoint_intervals::intersect (union)","membership in both","2 with 2 finite closed intervals, all ends") { double e[8]; for(auto&z:e) z=__v_real("e"); REQUIRES(e[0]<=e[1]&&e[1]<e[2]&&e[2]<=e[3]&&e[4]<=e[5]&&e[5]<e[6]&&e[6]<=e[7]); DI a,b; a.join(e[0],e[1]); a.join(e[2],e[3]); b.join(e[4],e[5]); b.join(e[6],e[7]); double x=__v_real("x"); a.intersect(b); ENSURES(a.contains(x)==(((e[0]<=x&&x<=e[1])||(e[2]<=x&&x<=e[3]))&&((e[4]<=x&&x<=e[5])||(e[6]<=x&&x<=e[7]))),"intersection"); ENSURES(disjointSorted(a),"separated"); }
CONTRACT(dispecial,"disjoint_intervals constructors set_to_empty set_to_complete complete singleton overlaps intersect(l,u)","the special sets are what their names say") { double l=__v_real("l"),u=__v_real("u"),x=__v_real("x"); REQUIRES(l<=u); DI a(l,u),s(l),e,c=DI::complete_interval(); ENSURES(a.contains(x)==(l<=x&&x<=u)&&s.contains(x)==(x==l)&&s.singleton()&&!e.contains(x)&&e.empty()&&DI::empty_interval().empty()&&c.contains(x)&&c.complete()&&!a.complete()&&!c.empty(),"constructors"); double p=__v_real("p"),q=__v_real("q"); REQUIRES(p<=q); ENSURES(a.overlaps(I1(p,q))==(p<=u&&l<=q),"overlaps"); c.intersect(l,u); ENSURES(c.contains(x)==(l<=x&&x<=u),"complete set intersected"); a.set_to_complete(); ENSURES(a.complete()&&a.contains(x),"set_to_complete"); a.set_to_empty(); ENSURES(a.empty()&&!a.contains(x),"set_to_empty"); }

// inequalities
CONTRACT(lin,"solve_linear_inequality","exactly the numbers with a*x+b >= 0 (a zero or above the tolerance)") { double a=__v_real("a"),b=__v_real("b"),x=__v_real("x"); double eps=std::numeric_limits<double>::epsilon(); REQUIRES(a==0||a>=eps||a<=-eps); I1 i=solve_linear_inequality(a,b); ENSURES(i.contains(x)==(a*x+b>=0),"solution set"); }

// the cubic root solver is replaced by its contract (C12): it returns exactly the distinct real roots, in any order (zero possibly repeated)
static double rootv[3]; static int rootn;
__attribute__((noinline)) static int rootStub(const double*,double*x,const double){ for(int i=0;i<rootn;i++) x[i]=rootv[i]; return rootn; }
static void scale(double*P,double a){ for(int i=0;i<4;i++) P[i]*=a; }
static void cubics(int shape,int again=0){ // 0: const, 1: one root, 2: two roots (or a double one), 3: three roots; the remaining factor has no real root
  double a=__v_real("a"); REQUIRES(a!=0); double P[4]={1,0,0,0}; rootn=shape%10; for(int i=0;i<rootn;i++) rootv[i]=__v_real("root"); double y=__v_real("y"); double q=1,Q[4];
  for(int i=0;i<rootn;i++){ for(int j=0;j<4;j++) Q[j]=P[j]*-rootv[i]+(j?P[j-1]:0.0); for(int j=0;j<4;j++) P[j]=Q[j]; q=q*(y-rootv[i]); }
  for(int m=0;m<again;m++){ for(int j=0;j<4;j++) Q[j]=P[j]*-rootv[0]+(j?P[j-1]:0.0); for(int j=0;j<4;j++) P[j]=Q[j]; q=q*(y-rootv[0]); }
  if(shape>=10){ double h=__v_real("h"),k=__v_real("k"); REQUIRES(k>0); for(int j=0;j<4;j++) Q[j]=P[j]*(h*h+k)+(j?P[j-1]*-2*h:0.0)+(j>1?P[j-2]:0.0); for(int j=0;j<4;j++) P[j]=Q[j]; q=q*((y-h)*(y-h)+k); }
  scale(P,a); q*=a; if(__v_symbolic()) __v_replace((void*)(int(*)(const double*,double*,const double))&solve_cubic_real<double>,(void*)&rootStub);
  DI I=solve_cubic_inequality_real(P); bool c=I.contains(y); if(c) ENSURES(q>=0,"every contained number solves P(x) >= 0"); else ENSURES(q<=0,"every solution of P(x) > 0 is contained"); }
CONTRACT(cubic0,"solve_cubic_inequality_real (constant)","the solution set") { cubics(0); }
CONTRACT(cubic1,"solve_cubic_inequality_real (linear)","the closure of the solution set") { cubics(1); }
CONTRACT(cubic2,"solve_cubic_inequality_real (quadratic, real roots)","the closure of the solution set") { cubics(2); }
CONTRACT(cubic3,"solve_cubic_inequality_real (three real roots)","the closure of the solution set") { cubics(3); }
CONTRACT(cubicd1,"solve_cubic_inequality_real (double root only)","nothing but the root for a negative, everything for a positive leading coefficient") { cubics(1,1); }
CONTRACT(cubict1,"solve_cubic_inequality_real (triple root)","the closure of the solution set") { cubics(1,2); }
CONTRACT(cubicd2,"solve_cubic_inequality_real (double and simple root)","the closure of the solution set") { cubics(2,1); }
CONTRACT(cubic10,"solve_cubic_inequality_real (quadratic, no real root)","the solution set") { cubics(10); }
CONTRACT(cubic11,"solve_cubic_inequality_real (one real root)","the closure of the solution set") { cubics(11); }

// fixed point
template<int F> static void fixedp(){ typedef fixed_point<long long,F> X; long a=__v_int("a",-1000000,1000000),b=__v_int("b",-1000000,1000000); X p,q; p.num=a; q.num=b; ENSURES((p+q).integer()==a+b&&(p-q).integer()==a-b&&(-p).integer()==-a,"sum, difference, negation"); ENSURES((p<q)==(a<b)&&(p<=q)==(a<=b)&&(p==q)==(a==b)&&(p>q)==(a>b)&&(p>=q)==(a>=b),"order"); X r=p; ++r; ENSURES(r.integer()==a+F,"++ adds one"); --r; --r; ENSURES(r.integer()==a-F,"-- subtracts one"); ENSURES((!p)==(a==0),"not"); X z; ENSURES(z.integer()==0,"zero"); X c(p); ENSURES(c.integer()==a,"copy"); c=q; ENSURES(c.integer()==b,"assignment"); ENSURES_EQ(p.to_double()*F,(double)a,"value"); }
CONTRACT(fixed1,"fixed_point (default factor)","sums, order and conversion act on the scaled integers") { fixedp<FTK_FP_PRECISION>(); }
CONTRACT(fixed2,"fixed_point (factor 1024)","sums, order and conversion act on the scaled integers") { fixedp<1024>(); }
template<int F> static void fixedm(){ typedef fixed_point<long long,F> X; long a=__v_int("a",0,1000000),b=__v_int("b",1,1000000); X p,q; p.num=a; q.num=b; long m=(p*q).integer(),d=(p/q).integer(); ENSURES(m*F<=a*b&&a*b<(m+1)*F,"product rounded to the scale"); ENSURES(d*b<=a*F&&a*F<(d+1)*b,"quotient rounded to the scale"); }
CONTRACT(fixedmul,"fixed_point * / (default factor)","product and quotient of non-negative numbers, truncated to the scale") { fixedm<FTK_FP_PRECISION>(); }
CONTRACT(fixedmul2,"fixed_point * / (factor 1024)","product and quotient of non-negative numbers, truncated to the scale") { fixedm<1024>(); }
CONTRACT(fixedint,"fixed_point (from integers) to_int","an integer is represented exactly and converted back") { long a=__v_int("a",-100000,100000); fixed_point<> p((long)a),q; q=a; ENSURES(p.integer()==a*FTK_FP_PRECISION&&p.to_int()==a&&q==p,"integer"); }
