// Property C01: exact, symbolically perturbed orientation and containment predicates.
#include <ftk/config.hh>
#include <cstdio>
#include <ftk/numeric/critical_point_test.hh>
#include "vals.h"
using namespace ftk;
typedef long long L;

// ---- specification: sign of det [X | 1] after the perturbation X_ij + e(i,j), e(0,d-1) >> e(0,d-2) >> ... >> e(n-1,0),
// each e larger than every product of smaller ones.  Terms are visited from the largest monomial to the smallest; the
// coefficient of a monomial is the signed minor left after removing the rows/columns of its factors.
template<int D> struct Spec { static const int N=D+1;
  static L minor(const L X[][D],int rows,int cols){ // determinant of [X|1] restricted to the row / column masks (Laplace on first row)
    int r=-1; for(int i=0;i<N;i++) if(rows>>i&1){ r=i; break; } if(r<0) return 1; L s=0; int sg=1; for(int c=0;c<N;c++) if(cols>>c&1){ s+= sg*(c==D?L(1):X[r][c])*minor(X,rows&~(1<<r),cols&~(1<<c)); sg=-sg; } return s; }
  static int permsign(int used[],int rows,int cols){ // sign of the permutation matrix part: rows i->used[i], remaining rows/cols in order
    int p[N]; int cc[N],k=0; for(int c=0;c<N;c++) if(cols>>c&1) cc[k++]=c; k=0; for(int i=0;i<N;i++) p[i]= (rows>>i&1)? cc[k++] : used[i]; int s=1; for(int i=0;i<N;i++) for(int j=i+1;j<N;j++) if(p[i]>p[j]) s=-s; return s; }
  static int sgn(const L X[][D]){
    // bit b of the monomial number: b=0 is the largest epsilon e(0,D-1), b=1 e(0,D-2), ..., b=D e(1,D-1) ...
    for(int m=0;m<(1<<(N*D));m++){ int used[N]; int rows=(1<<N)-1,cols=(1<<N)-1; bool ok=true; for(int i=0;i<N;i++) used[i]=-1;
      for(int b=0;b<N*D&&ok;b++) if(m>>b&1){ int i=b/D,j=D-1-b%D; if(!(rows>>i&1)||!(cols>>j&1)) ok=false; rows&=~(1<<i); cols&=~(1<<j); used[i]=j; }
      if(!ok) continue; L c=permsign(used,rows,cols)*minor(X,rows,cols); if(c>0) return 1; if(c<0) return -1; }
    return 0; } };

template<int D> static void in(L X[][D],L B){ for(int i=0;i<=D;i++) for(int j=0;j<D;j++) X[i][j]=__v_int("x",-B,B); }

CONTRACT(det2, "robust_sign_det2 det2 sign", "equals the perturbed sign, never 0, equals the exact sign when the determinant is nonzero") {
  __v_check_overflow(1);  L X[2]; X[0]=__v_int("x",-(1l<<60),1l<<60); X[1]=__v_int("x",-(1l<<60),1l<<60); int r=robust_sign_det2(X); L Y[2][1]={{X[0]},{X[1]}};
  ENSURES(r==Spec<1>::sgn(Y),"perturbed-sign"); ENSURES(r==1||r==-1,"nonzero"); if(X[0]>X[1]) ENSURES(r==1,"exact+"); if(X[0]<X[1]) ENSURES(r==-1,"exact-");
}
CONTRACT(det3, "robust_sign_det3 det3 sign", "equals the perturbed sign, never 0, equals the exact sign when the determinant is nonzero") {
  __v_check_overflow(1);  L X[3][2]; in<2>(X,1l<<29); int r=robust_sign_det3(X); ENSURES(r==1||r==-1,"nonzero"); 
  L d=Spec<2>::minor(X,7,7); if(d>0) ENSURES(r==1,"exact+"); if(d<0) ENSURES(r==-1,"exact-"); ENSURES(r==Spec<2>::sgn(X),"perturbed-sign");
}
CONTRACT(det4, "robust_sign_det4 det4 det3 sign", "equals the perturbed sign, never 0, equals the exact sign when the determinant is nonzero") {
  __v_check_overflow(1);  L X[4][3]; in<3>(X,1l<<18); int r=robust_sign_det4(X); ENSURES(r==1||r==-1,"nonzero"); 
  L d=Spec<3>::minor(X,15,15); if(d>0) ENSURES(r==1,"exact+"); if(d<0) ENSURES(r==-1,"exact-"); ENSURES(r==Spec<3>::sgn(X),"perturbed-sign");
}

// ---- orientation of a simplex given with global vertex ids: sort by id, perturbed sign, times the sorting parity
static int g_ret; static L g_X[4][3]; static int g_calls;
static int stub2(const L X[2]){ g_calls++; for(int i=0;i<2;i++) g_X[i][0]=X[i]; return g_ret; }
static int stub3(const L X[3][2]){ g_calls++; for(int i=0;i<3;i++) for(int j=0;j<2;j++) g_X[i][j]=X[i][j]; return g_ret; }
static int stub4(const L X[4][3]){ g_calls++; for(int i=0;i<4;i++) for(int j=0;j<3;j++) g_X[i][j]=X[i][j]; return g_ret; }
template<int D> static void oriented(int(*pos)(const L*,const int*)){
  L X[D+1][D]; in<D>(X,D==1?1l<<60:D==2?1l<<29:1l<<18); int id[D+1]; for(int i=0;i<=D;i++){ id[i]=__v_int("id",-1,2147483647); for(int j=0;j<i;j++) REQUIRES(id[i]!=id[j]); }
  int s=0; int rank[D+1]; for(int i=0;i<=D;i++){ rank[i]=0; for(int j=0;j<=D;j++) if(__v_branch(id[j]<id[i])) rank[i]++; } for(int i=0;i<=D;i++) for(int j=i+1;j<=D;j++) if(rank[i]>rank[j]) s++;
  L Y[D+1][D]; for(int i=0;i<=D;i++) for(int j=0;j<D;j++) Y[rank[i]][j]=X[i][j];
  g_ret=__v_bool("sign")?1:-1; g_calls=0; int d=__v_symbolic()?g_ret:Spec<D>::sgn(Y); int r=pos(&X[0][0],id);
  ENSURES(r==(s%2?-d:d),"orientation = parity of the id order * sign of the id-sorted simplex");
  if(__v_symbolic()){ ENSURES(g_calls==1,"one sign evaluation"); for(int i=0;i<=D;i++) for(int j=0;j<D;j++) ENSURES(g_X[i][j]==Y[i][j],"sign evaluated on the id-sorted vertices"); }
}
#define POS(k,T,ar,dim) { if(__v_symbolic()) __v_replace((void*)(int(*)(T))robust_sign_det##ar<L>,(void*)stub##ar); oriented<k>([](const L*x,const int*i){ return positive##k<L>((T)x,i); }); }
CONTRACT(pos1, "positive1 nswaps_bubble_sort<2> swap_helper against the contract of robust_sign_det2", "orientation alternates with vertex order and depends only on the id-sorted simplex") POS(1,const L*,2,1)
typedef const L (*P2)[2]; typedef const L (*P3)[3];
CONTRACT(pos2, "positive2 nswaps_bubble_sort<3> against the contract of robust_sign_det3", "orientation alternates with vertex order and depends only on the id-sorted simplex") POS(2,P2,3,2)
CONTRACT(pos3, "positive3 nswaps_bubble_sort<4> against the contract of robust_sign_det4", "orientation alternates with vertex order and depends only on the id-sorted simplex") POS(3,P3,4,3)

// ---- containment: the point lies in the simplex iff replacing any one vertex by the point keeps the orientation
template<int D> static int spec_pos(const L X[][D],const int*id){ int s=0; L Y[D+1][D]; for(int i=0;i<=D;i++){ int r=0; for(int j=0;j<=D;j++) if(id[j]<id[i]) r++; for(int j=0;j<D;j++) Y[r][j]=X[i][j]; for(int j=i+1;j<=D;j++) if(id[i]>id[j]) s++; } int d=Spec<D>::sgn(Y); return s%2?-d:d; }
static const int MAXQ=8; static int q_n,q_ret[MAXQ],q_id[MAXQ][4]; static L q_X[MAXQ][4][3];
static int rec(const L*X,const int*id,int D){ int k=q_n++; if(k>=MAXQ) return 1; for(int i=0;i<=D;i++){ q_id[k][i]=id[i]; for(int j=0;j<D;j++) q_X[k][i][j]=X[i*D+j]; } return q_ret[k]=__v_bool("orientation")?1:-1; }
static int stubp1(const L X[2],const int id[2]){ return rec(X,id,1); }
static int stubp2(const L X[3][2],const int id[3]){ return rec(&X[0][0],id,2); }
static int stubp3(const L X[4][3],const int id[4]){ return rec(&X[0][0],id,3); }
// every orientation query must be about the simplex itself or the simplex with exactly one vertex replaced by the point;
// the verdict must be the conjunction "all replaced orientations equal the simplex orientation", whatever the order of the queries
template<int D> static void contains(bool(*in_)(const L*,const int*,const L*,int),bool atZero){
  L X[D+1][D],x[D]; in<D>(X,D==1?1l<<60:D==2?1l<<29:1l<<18); for(int j=0;j<D;j++) x[j]=atZero?0:__v_int("p",-(1l<<18),1l<<18); int id[D+1]; for(int i=0;i<=D;i++){ id[i]=__v_int("id",0,2147483647); for(int j=0;j<i;j++) REQUIRES(id[i]!=id[j]); } int ix=-1; if(!atZero){ ix=__v_int("ix",-1,2147483647); for(int j=0;j<=D;j++) REQUIRES(id[j]!=ix); }
  q_n=0; bool r=in_(&X[0][0],id,x,ix);
  if(!__v_symbolic()){ bool e=true; int s=spec_pos<D>(X,id); for(int i=0;i<=D;i++){ L Y[D+1][D]; int id2[D+1]; for(int a=0;a<=D;a++){ id2[a]=a==i?ix:id[a]; for(int j=0;j<D;j++) Y[a][j]=a==i?x[j]:X[a][j]; } if(spec_pos<D>(Y,id2)!=s) e=false; } ENSURES(r==e,"verdict"); return; }
  int sv=0; bool have[D+1]; int val[D+1]; bool hs=false; for(int i=0;i<=D;i++) have[i]=false;
  for(int k=0;k<q_n;k++){ int which=-2; // -1: the simplex, i: vertex i replaced
    for(int c=-1;c<=D;c++){ bool same=true; for(int a=0;a<=D;a++){ if(!__v_branch(q_id[k][a]==(a==c?ix:id[a]))) { same=false; break; } } if(same) which=c; }
    ENSURES(which>=-1,"query is the simplex or a one-vertex replacement"); if(which<-1) return;
    for(int a=0;a<=D;a++) for(int j=0;j<D;j++) ENSURES(q_X[k][a][j]==(a==which?x[j]:X[a][j]),"query coordinates");
    if(which==-1){ hs=true; sv=q_ret[k]; } else { have[which]=true; val[which]=q_ret[k]; } }
  ENSURES(hs,"simplex orientation evaluated"); bool all=true,some=false; for(int i=0;i<=D;i++){ if(!have[i]) all=false; else if(__v_branch(val[i]!=sv)) some=true; }
  if(r) ENSURES(all&&!some,"inside only if all orientations agree"); else ENSURES(some,"outside only if one orientation disagrees"); }
#define REPL(k,T) if(__v_symbolic()) __v_replace((void*)(int(*)(T,const int*))positive##k<L>,(void*)stubp##k);
CONTRACT(simplex1, "robust_point_in_simplex1 against the contract of positive1", "inside iff replacing each vertex by the point preserves orientation") { REPL(1,const L*) contains<1>([](const L*X,const int*i,const L*x,int ix){ return robust_point_in_simplex1<L>(X,i,x[0],ix); },false); }
CONTRACT(simplex2, "robust_point_in_simplex2 against the contract of positive2", "inside iff replacing each vertex by the point preserves orientation") { REPL(2,P2) contains<2>([](const L*X,const int*i,const L*x,int ix){ return robust_point_in_simplex2<L>((P2)X,i,x,ix); },false); }
CONTRACT(simplex3, "robust_point_in_simplex3 against the contract of positive3", "inside iff replacing each vertex by the point preserves orientation") { REPL(3,P3) contains<3>([](const L*X,const int*i,const L*x,int ix){ return robust_point_in_simplex3<L>((P3)X,i,x,ix); },false); }
CONTRACT(cp1, "robust_critical_point_in_simplex1 robust_point_in_simplex1", "the zero vector with id -1 is tested") { REPL(1,const L*) contains<1>([](const L*X,const int*i,const L*x,int ix){ return robust_critical_point_in_simplex1<L,int>(X,i); },true); }
CONTRACT(cp2, "robust_critical_point_in_simplex2 robust_point_in_simplex2", "the zero vector with id -1 is tested") { REPL(2,P2) contains<2>([](const L*X,const int*i,const L*x,int ix){ return robust_critical_point_in_simplex2<L,int>((P2)X,i); },true); }
CONTRACT(cp3, "robust_critical_point_in_simplex3 robust_point_in_simplex3", "the zero vector with id -1 is tested") { REPL(3,P3) contains<3>([](const L*X,const int*i,const L*x,int ix){ return robust_critical_point_in_simplex3<L,int>((P3)X,i); },true); }

// ---- end to end on the real code (no callee contracts)
CONTRACT(edge_xor, "robust_critical_point_in_simplex1 end to end", "an edge split at an interior id: the zero lies in an even number of the three edges of any three samples (no zero lost or duplicated)") {
  L v[3]; int id[3]={1,4,9}; for(int i=0;i<3;i++) v[i]=__v_int("v",-(1l<<60),1l<<60); int n=0;
  for(int a=0;a<3;a++) for(int b=a+1;b<3;b++){ L e[2]={v[a],v[b]}; int k[2]={id[a],id[b]}; if(robust_critical_point_in_simplex1(e,k)) n++; } ENSURES(n%2==0,"even");
}
CONTRACT(edge_perm, "robust_critical_point_in_simplex1 end to end", "the verdict does not depend on vertex order") {
  L v[2]; int id[2]; for(int i=0;i<2;i++){ v[i]=__v_int("v",-(1l<<60),1l<<60); id[i]=__v_int("id",0,1<<30); } REQUIRES(id[0]!=id[1]); L w[2]={v[1],v[0]}; int jd[2]={id[1],id[0]}; ENSURES(robust_critical_point_in_simplex1(v,id)==robust_critical_point_in_simplex1(w,jd),"order independent");
}
CONTRACT(nondegenerate2, "robust_critical_point_in_simplex2 end to end", "on nondegenerate data the verdict is exact containment: all three sub-determinants have the sign of the triangle") {
  L V[3][2]; in<2>(V,1l<<29); int id[3]={3,8,5}; L d[4]; for(int k=0;k<4;k++){ L Y[3][2]; for(int a=0;a<3;a++) for(int j=0;j<2;j++) Y[a][j]=a==k?0:V[a][j]; d[k]=Spec<2>::minor(Y,7,7); REQUIRES(d[k]!=0); }
  bool e=(d[0]>0)==(d[3]>0)&&(d[1]>0)==(d[3]>0)&&(d[2]>0)==(d[3]>0); ENSURES(robust_critical_point_in_simplex2(V,id)==e,"exact containment");
}
CONTRACT(smaller, "robust_smaller", "perturbed coordinate order: strict total order consistent with the values") {
  int i=__v_int("i",0,1000),j=__v_int("j",0,3),k=__v_int("k",0,1000),l=__v_int("l",0,3); L a=__v_int("a",-(1l<<60),1l<<60),b=__v_int("b",-(1l<<60),1l<<60); REQUIRES(i!=k||j!=l);
  bool ab=robust_smaller<L>(i,j,k,l,a,b),ba=robust_smaller<L>(k,l,i,j,b,a); ENSURES(ab!=ba,"exactly one of a<b, b<a"); if(a<b) ENSURES(ab,"consistent with the values"); if(a==b&&i<k) ENSURES(!ab,"smaller id carries the larger perturbation");
}
