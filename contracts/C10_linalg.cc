// Property C10: fixed-size linear algebra kernels satisfy their algebraic definitions for every real input.
#include <ftk/config.hh>
#include <ftk/numeric/transpose.hh>
#include <ftk/numeric/matrix_multiplication.hh>
#include <ftk/numeric/matrix_addition.hh>
#include <ftk/numeric/matrix_inverse.hh>
#include <ftk/numeric/cross_product.hh>
#include <ftk/numeric/inner_product.hh>
#include <ftk/numeric/vector_dot_product.hh>
#include <ftk/numeric/vector_assignment.hh>
#include <ftk/numeric/vector_norm.hh>
#include <ftk/numeric/vector_normalization.hh>
#include <ftk/numeric/det.hh>
#include <ftk/numeric/trace.hh>
#include <ftk/numeric/adjugate.hh>
#include <ftk/numeric/characteristic_polynomial.hh>
#include <ftk/numeric/linear_solver1.hh>
#include <ftk/numeric/linear_solver.hh>
#include <ftk/numeric/matrix_norm.hh>
#include <ftk/numeric/cond.hh>
#include <ftk/numeric/matrix_decomposition.hh>
#include <ftk/numeric/eye.hh>
#include <ftk/numeric/quaternion.hh>
#include "vals.h"
using namespace ftk;
typedef double D;

CONTRACT(det, "det2(A) det2(a,b,c,d) det3 det4", "determinants equal the Laplace expansion, hence are multiplicative and alternating") {
  D A[2][2]; reals(&A[0][0],4,"A"); ENSURES_EQ(det2(A), sdet2(A[0][0],A[0][1],A[1][0],A[1][1]), "det2");
  ENSURES_EQ(det2(A[0][0],A[0][1],A[1][0],A[1][1]), sdet2(A[0][0],A[0][1],A[1][0],A[1][1]), "det2-scalars");
  D B[3][3]; reals(&B[0][0],9,"B"); ENSURES_EQ(det3(B), sdet3(&B[0][0]), "det3");
  D C[4][4]; reals(&C[0][0],16,"C"); ENSURES_EQ(det4(C), sdet4(&C[0][0]), "det4");
}
CONTRACT(det_int, "det2 det3 det4 over integers", "integer determinants are exact") {
  long A[2][2],B[3][3]; for(int i=0;i<4;i++) (&A[0][0])[i]=__v_int("a",-1000000,1000000); for(int i=0;i<9;i++) (&B[0][0])[i]=__v_int("b",-100000,100000);
  ENSURES(det2(A)==A[0][0]*A[1][1]-A[0][1]*A[1][0],"det2-int");
  ENSURES(det3(B)==B[0][0]*(B[1][1]*B[2][2]-B[1][2]*B[2][1])-B[0][1]*(B[1][0]*B[2][2]-B[1][2]*B[2][0])+B[0][2]*(B[1][0]*B[2][1]-B[1][1]*B[2][0]),"det3-int");
}
CONTRACT(inv2, "matrix_inverse2x2", "A*inv = I and the determinant is returned, for every A with det != 0") {
  D A[2][2],I[2][2]; reals(&A[0][0],4,"A"); D d=sdet2(A[0][0],A[0][1],A[1][0],A[1][1]); REQUIRES(d!=0);
  D r=matrix_inverse2x2(A,I); ENSURES_EQ(r,d,"returns-det");
  for(int i=0;i<2;i++)for(int j=0;j<2;j++){ D s=0,t=0; for(int k=0;k<2;k++){ s+=A[i][k]*I[k][j]; t+=I[i][k]*A[k][j]; } ENSURES_EQ(s,i==j?1.:0.,"A*inv=I"); ENSURES_EQ(t,i==j?1.:0.,"inv*A=I"); }
}
CONTRACT(inv3, "matrix_inverse3x3", "A*inv = I and the determinant is returned, for every A with det != 0") {
  D A[3][3],I[3][3]; reals(&A[0][0],9,"A"); D d=sdet3(&A[0][0]); REQUIRES(d!=0);
  D r=matrix_inverse3x3(A,I); ENSURES_EQ(r,d,"returns-det");
  for(int i=0;i<3;i++)for(int j=0;j<3;j++){ D s=0; for(int k=0;k<3;k++) s+=A[i][k]*I[k][j]; ENSURES_EQ(s,i==j?1.:0.,"A*inv=I"); }
}
CONTRACT(inv4, "matrix_inverse4", "A*inv = I and the determinant is returned, for every A with det != 0") {
  D A[16],I[16]; reals(A,16,"A"); D d=sdet4(A); REQUIRES(d!=0);
  D r=matrix_inverse4(A,I); ENSURES_EQ(r,d,"returns-det");
  for(int i=0;i<4;i++)for(int j=0;j<4;j++){ D s=0; for(int k=0;k<4;k++) s+=A[4*i+k]*I[4*k+j]; ENSURES_EQ(s,i==j?1.:0.,"A*inv=I"); }
}
CONTRACT(adj, "adjugate2 adjugate3", "A*adj(A) = det(A) I for every A") {
  { D A[2][2],J[2][2]; reals(&A[0][0],4,"A"); adjugate2(A,J); D d=sdet2(A[0][0],A[0][1],A[1][0],A[1][1]); for(int i=0;i<2;i++)for(int j=0;j<2;j++){ D s=0; for(int k=0;k<2;k++) s+=A[i][k]*J[k][j]; ENSURES_EQ(s,i==j?d:0.,"A*adj=det*I (2x2)"); } }
  { D A[3][3],J[3][3]; reals(&A[0][0],9,"A"); adjugate3(A,J); D d=sdet3(&A[0][0]); for(int i=0;i<3;i++)for(int j=0;j<3;j++){ D s=0; for(int k=0;k<3;k++) s+=A[i][k]*J[k][j]; ENSURES_EQ(s,i==j?d:0.,"A*adj=det*I (3x3)"); } }
}
CONTRACT(trace, "trace<n> trace2 trace3", "sum of the diagonal") {
  D A[2][2],B[3][3],C[4][4]; reals(&A[0][0],4,"A"); reals(&B[0][0],9,"B"); reals(&C[0][0],16,"C");
  ENSURES_EQ(trace2(A),A[0][0]+A[1][1],"trace2"); ENSURES_EQ(trace3(B),B[0][0]+B[1][1]+B[2][2],"trace3"); D t=trace<D,4>(C); ENSURES_EQ(t,C[0][0]+C[1][1]+C[2][2]+C[3][3],"trace<4>");
}
template<int M,int K,int N> static void spec_mm(const D*A,const D*B,const D*C,const char*nm){ for(int i=0;i<M;i++)for(int j=0;j<N;j++){ D s=0; for(int k=0;k<K;k++) s+=A[i*K+k]*B[k*N+j]; ENSURES_EQ(C[i*N+j],s,nm); } }
CONTRACT(matmul, "matrix_matrix_multiplication matrix2x2_matrix2x2 matrix2x2_matrix2x3 matrix3x3_matrix3x3(both) matrix3x3_matrix3x4 matrix2x3_matrix3x2 matrix3x4_matrix4x3 matrix3x4_matrix4x2 matrix3x3_scalar", "every product entry is the row-column inner product") {
  D a[16],b[16]; reals(a,16,"A"); reals(b,16,"B"); 
  { D C[2][2]; matrix2x2_matrix2x2_multiplication((D(*)[2])a,(D(*)[2])b,C); spec_mm<2,2,2>(a,b,&C[0][0],"2x2*2x2"); }
  { D C[2][3]; matrix2x2_matrix2x3_multiplication((D(*)[2])a,(D(*)[3])b,C); spec_mm<2,2,3>(a,b,&C[0][0],"2x2*2x3"); }
  { D C[3][3]; matrix3x3_matrix3x3_multiplication((D(*)[3])a,(D(*)[3])b,C); spec_mm<3,3,3>(a,b,&C[0][0],"3x3*3x3"); }
  { D C[9]; matrix3x3_matrix3x3_multiplication((const D*)a,(const D*)b,C); spec_mm<3,3,3>(a,b,C,"3x3*3x3-flat"); }
  { D C[3][4]; matrix3x3_matrix3x4_multiplication((D(*)[3])a,(D(*)[4])b,C); spec_mm<3,3,4>(a,b,&C[0][0],"3x3*3x4"); }
  { D C[2][2]; matrix2x3_matrix3x2_multiplication((D(*)[3])a,(D(*)[2])b,C); spec_mm<2,3,2>(a,b,&C[0][0],"2x3*3x2"); }
  { D C[3][3]; matrix3x4_matrix4x3_multiplication((D(*)[4])a,(D(*)[3])b,C); spec_mm<3,4,3>(a,b,&C[0][0],"3x4*4x3"); }
  { D C[4][4]; matrix_matrix_multiplication<D,4,4,4>((D(*)[4])a,(D(*)[4])b,C); spec_mm<4,4,4>(a,b,&C[0][0],"4x4*4x4"); }
  { D C[9],s=__v_real("s"); matrix3x3_scalar_multiplication(a,s,C); for(int i=0;i<9;i++) ENSURES_EQ(C[i],a[i]*s,"3x3*scalar"); }
}
CONTRACT(matvec, "matrix2x2_vector2 matrix2x3_vector3 matrix3x3_vector3(both)", "matrix-vector products") {
  D a[16],b[16]; reals(a,16,"A"); reals(b,4,"b");
  { D x[2]; matrix2x2_vector2_multiplication((D(*)[2])a,b,x); spec_mm<2,2,1>(a,b,x,"2x2*v"); }
  { D x[2]; matrix2x3_vector3_multiplication((D(*)[3])a,b,x); spec_mm<2,3,1>(a,b,x,"2x3*v"); }
  { D x[3]; matrix3x3_vector3_multiplication((D(*)[3])a,b,x); spec_mm<3,3,1>(a,b,x,"3x3*v"); }
  { D x[3]; matrix3x3_vector3_multiplication((const D*)a,b,x); spec_mm<3,3,1>(a,b,x,"3x3*v-flat"); }
}
CONTRACT(addsub, "matrix_addition matrix_subtraction matrix_addition3x3 matrix_subtraction3x3", "entrywise sum and difference") {
  D A[3][3],B[3][3],C[3][3]; reals(&A[0][0],9,"A"); reals(&B[0][0],9,"B"); 
  matrix_addition3x3(A,B,C); for(int i=0;i<3;i++)for(int j=0;j<3;j++) ENSURES_EQ(C[i][j],A[i][j]+B[i][j],"add");
  matrix_subtraction3x3(A,B,C); for(int i=0;i<3;i++)for(int j=0;j<3;j++) ENSURES_EQ(C[i][j],A[i][j]-B[i][j],"sub");
  D P[2][3],Q[2][3],R[2][3]; reals(&P[0][0],6,"P"); reals(&Q[0][0],6,"Q"); matrix_addition<D,2,3>(P,Q,R); for(int i=0;i<2;i++)for(int j=0;j<3;j++) ENSURES_EQ(R[i][j],P[i][j]+Q[i][j],"add-2x3"); matrix_subtraction<D,2,3>(P,Q,R); for(int i=0;i<2;i++)for(int j=0;j<3;j++) ENSURES_EQ(R[i][j],P[i][j]-Q[i][j],"sub-2x3");
}
template<int m,int n> static void spec_tr(const D*A,const D*B,const char*nm){ for(int i=0;i<m;i++)for(int j=0;j<n;j++) ENSURES_EQ(B[j*m+i],A[i*n+j],nm); }
CONTRACT(transposes, "transpose<m,n> transpose<n> transpose2x2 transpose3x3 transpose4x4 transpose3x2 transpose2x3 transpose4x3", "B[j][i] = A[i][j]") {
  D a[16],b[16]; reals(a,16,"A");
  transpose<D,3,4>((D(*)[4])a,(D(*)[3])b); spec_tr<3,4>(a,b,"transpose<3,4>");
  for(int i=0;i<16;i++) b[i]=a[i]; transpose<D,4>((D(*)[4])b); spec_tr<4,4>(a,b,"transpose<4>");
  transpose2x2((D(*)[2])a,(D(*)[2])b); spec_tr<2,2>(a,b,"transpose2x2");
  for(int i=0;i<16;i++) b[i]=a[i]; transpose2x2(b); spec_tr<2,2>(a,b,"transpose2x2-inplace");
  for(int i=0;i<16;i++) b[i]=a[i]; transpose3x3(b); spec_tr<3,3>(a,b,"transpose3x3-inplace");
  transpose3x3((const D*)a,b); spec_tr<3,3>(a,b,"transpose3x3-flat");
  for(int i=0;i<16;i++) b[i]=a[i]; transpose3x3((D(*)[3])b); spec_tr<3,3>(a,b,"transpose3x3-inplace2");
  transpose3x3((D(*)[3])a,(D(*)[3])b); spec_tr<3,3>(a,b,"transpose3x3");
  for(int i=0;i<16;i++) b[i]=a[i]; transpose4x4(b); spec_tr<4,4>(a,b,"transpose4x4");
  transpose3x2((D(*)[2])a,(D(*)[3])b); spec_tr<3,2>(a,b,"transpose3x2");
  transpose2x3((D(*)[3])a,(D(*)[2])b); spec_tr<2,3>(a,b,"transpose2x3");
  transpose4x3((D(*)[3])a,(D(*)[4])b); spec_tr<4,3>(a,b,"transpose4x3");
}
CONTRACT(products, "cross_product cross_product2 inner_product2/3 vector_dot_product2/3", "cross product is the determinant form (orthogonal to both factors); inner products are sums of products") {
  D u[3],v[3],w[3],c[3]; reals(u,3,"u"); reals(v,3,"v"); reals(w,3,"w"); cross_product(u,v,c);
  D m[9]={w[0],w[1],w[2],u[0],u[1],u[2],v[0],v[1],v[2]}; ENSURES_EQ(w[0]*c[0]+w[1]*c[1]+w[2]*c[2],sdet3(m),"triple-product"); 
  ENSURES_EQ(cross_product2(u,v),u[0]*v[1]-u[1]*v[0],"cross2");
  ENSURES_EQ(inner_product2(u,v),u[0]*v[0]+u[1]*v[1],"inner2"); ENSURES_EQ(inner_product3(u,v),u[0]*v[0]+u[1]*v[1]+u[2]*v[2],"inner3");
  ENSURES_EQ(vector_dot_product2(u,v),u[0]*v[0]+u[1]*v[1],"dot2"); ENSURES_EQ(vector_dot_product3(u,v),u[0]*v[0]+u[1]*v[1]+u[2]*v[2],"dot3");
}
CONTRACT(assign, "vector_assign3(3 forms) vector_assign_scalar_multiplication3 vector_assign_addition3 vector_assign_subtraction3 vector_assign_weighted_addition3", "linear combinations") {
  D w[3],v[3],x[3],a=__v_real("a"),b=__v_real("b"); reals(w,3,"w"); reals(v,3,"v");
  vector_assign3(x,a); for(int i=0;i<3;i++) ENSURES_EQ(x[i],a,"assign-scalar");
  vector_assign3(x,w[0],w[1],w[2]); for(int i=0;i<3;i++) ENSURES_EQ(x[i],w[i],"assign-components");
  vector_assign3(x,(const D*)v); for(int i=0;i<3;i++) ENSURES_EQ(x[i],v[i],"assign-vector");
  vector_assign_scalar_multiplication3(x,a,w); for(int i=0;i<3;i++) ENSURES_EQ(x[i],a*w[i],"assign-scaled");
  vector_assign_addition3(x,w,v); for(int i=0;i<3;i++) ENSURES_EQ(x[i],w[i]+v[i],"assign-sum");
  vector_assign_subtraction3(x,w,v); for(int i=0;i<3;i++) ENSURES_EQ(x[i],w[i]-v[i],"assign-difference");
  vector_assign_weighted_addition3(x,a,w,b,v); for(int i=0;i<3;i++) ENSURES_EQ(x[i],a*w[i]+b*v[i],"assign-weighted");
}
CONTRACT(norms, "vector_2norm<n> vector_2norm_2/3/4 vector_dist_2norm_2/3 vector_2norm2 vector_dist_2norm2", "norms are non-negative and square to the sum of squares") {
  D v[4],w[4]; reals(v,4,"v"); reals(w,4,"w"); D s2=sq(v[0])+sq(v[1]),s3=s2+sq(v[2]),s4=s3+sq(v[3]);
  D n=vector_2norm<3,D>(v); ENSURES(n>=0,"nonneg"); ENSURES_EQ(n*n,s3,"norm<3>^2");
  n=vector_2norm_2(v); ENSURES(n>=0,"nonneg"); ENSURES_EQ(n*n,s2,"norm_2^2"); n=vector_2norm_3(v); ENSURES(n>=0,"nonneg"); ENSURES_EQ(n*n,s3,"norm_3^2"); n=vector_2norm_4(v); ENSURES(n>=0,"nonneg"); ENSURES_EQ(n*n,s4,"norm_4^2");
  n=vector_dist_2norm_2(v,w); ENSURES(n>=0,"nonneg"); ENSURES_EQ(n*n,sq(v[0]-w[0])+sq(v[1]-w[1]),"dist_2^2"); n=vector_dist_2norm_3(v,w); ENSURES(n>=0,"nonneg"); ENSURES_EQ(n*n,sq(v[0]-w[0])+sq(v[1]-w[1])+sq(v[2]-w[2]),"dist_3^2");
  ENSURES_EQ((vector_2norm2<4,D>(v)),s4,"norm2<4>"); ENSURES_EQ((vector_dist_2norm2<3,D>(v,w)),sq(v[0]-w[0])+sq(v[1]-w[1])+sq(v[2]-w[2]),"dist2<3>");
}
CONTRACT(normalize, "vector_normalization2<n> vector_normalization2_2/3/4", "result has unit length, norm*result is the input, norm returned") {
  D v[4],w[4]; reals(v,4,"v"); REQUIRES(v[0]!=0||v[1]!=0);
  { D r=vector_normalization2<3,D>(v,w); ENSURES(r>0,"norm positive"); for(int i=0;i<3;i++) ENSURES_EQ(r*w[i],v[i],"norm*w=v"); ENSURES_EQ(r*r,sq(v[0])+sq(v[1])+sq(v[2]),"norm"); }
  { D r=vector_normalization2_3(v,w); for(int i=0;i<3;i++) ENSURES_EQ(r*w[i],v[i],"norm*w=v (3)"); ENSURES_EQ(r*r,sq(v[0])+sq(v[1])+sq(v[2]),"norm (3)"); }
  { vector_normalization2_2(v,w); D r=vector_2norm_2(v); for(int i=0;i<2;i++) ENSURES_EQ(r*w[i],v[i],"norm*w=v (2)"); }
  { for(int i=0;i<4;i++) w[i]=v[i]; D r=vector_normalization2_4(w); for(int i=0;i<4;i++) ENSURES_EQ(r*w[i],v[i],"norm*w=v (4)"); ENSURES_EQ(r*r,sq(v[0])+sq(v[1])+sq(v[2])+sq(v[3]),"norm (4)"); }
}
CONTRACT(charpoly2, "characteristic_polynomial_2x2 (3 overloads)", "P(x) = det(A - xI), det(A - xB) for every x") {
  D A[2][2],B[2][2],P[3],x=__v_real("x"); reals(&A[0][0],4,"A"); reals(&B[0][0],4,"B");
  characteristic_polynomial_2x2(A,P); ENSURES_EQ(P[0]+P[1]*x+P[2]*x*x, sdet2(A[0][0]-x,A[0][1],A[1][0],A[1][1]-x), "det(A-xI)");
  characteristic_polynomial_2x2(A,B,P); ENSURES_EQ(P[0]+P[1]*x+P[2]*x*x, sdet2(A[0][0]-x*B[0][0],A[0][1]-x*B[0][1],A[1][0]-x*B[1][0],A[1][1]-x*B[1][1]), "det(A-xB)");
  characteristic_polynomial_2x2(A[0][0],A[0][1],A[1][0],A[1][1],B[0][0],B[0][1],B[1][0],B[1][1],P); ENSURES_EQ(P[0]+P[1]*x+P[2]*x*x, sdet2(A[0][0]-x*B[0][0],A[0][1]-x*B[0][1],A[1][0]-x*B[1][0],A[1][1]-x*B[1][1]), "det(A-xB) scalars");
}
CONTRACT(charpoly3, "characteristic_polynomial_3x3 (2 overloads)", "P(x) = det(xI - A), det(A - xB) for every x") {
  D A[3][3],B[3][3],P[4],x=__v_real("x"); reals(&A[0][0],9,"A"); reals(&B[0][0],9,"B"); D m[9];
  characteristic_polynomial_3x3(A,P); for(int i=0;i<9;i++) m[i]=(i%4==0?x:0)-(&A[0][0])[i]; ENSURES_EQ(P[0]+P[1]*x+P[2]*x*x+P[3]*x*x*x, sdet3(m), "det(xI-A)");
  characteristic_polynomial_3x3(A,B,P); for(int i=0;i<9;i++) m[i]=(&A[0][0])[i]-x*(&B[0][0])[i]; ENSURES_EQ(P[0]+P[1]*x+P[2]*x*x+P[3]*x*x*x, sdet3(m), "det(A-xB)");
}
CONTRACT(solve, "solve_linear2x2 solve_linear3x3", "A x = b and the determinant is returned, for every A with det != 0") {
  { D A[2][2],b[2],x[2]; reals(&A[0][0],4,"A"); reals(b,2,"b"); D d=sdet2(A[0][0],A[0][1],A[1][0],A[1][1]); REQUIRES(d!=0); D r=solve_linear2x2(A,b,x); ENSURES_EQ(r,d,"det2"); for(int i=0;i<2;i++) ENSURES_EQ(A[i][0]*x[0]+A[i][1]*x[1],b[i],"Ax=b (2)"); }
  { D A[3][3],b[3],x[3]; reals(&A[0][0],9,"A"); reals(b,3,"b"); D d=sdet3(&A[0][0]); REQUIRES(d!=0); D r=solve_linear3x3(A,b,x); ENSURES_EQ(r,d,"det3"); for(int i=0;i<3;i++) ENSURES_EQ(A[i][0]*x[0]+A[i][1]*x[1]+A[i][2]*x[2],b[i],"Ax=b (3)"); }
}
// normal equations A^T A x = A^T b
static D stub_cond2(const D (*)[2]){ return 1; } static D stub_cond3(const D (*)[3]){ return 1; }
CONTRACT(lsq32, "solve_least_square3x2 solve_least_square3x2_2 (condition number abstracted)", "the solution satisfies the normal equations for every full-rank A") {
  __v_replace((void*)(D(*)(const D(*)[2]))cond_real2x2<D>,(void*)stub_cond2);
  D A[3][2],b[3],x[2],B[3][2],X[2][2]; reals(&A[0][0],6,"A"); reals(b,3,"b"); reals(&B[0][0],6,"B");
  D m[4]={0,0,0,0}; for(int i=0;i<2;i++)for(int j=0;j<2;j++)for(int k=0;k<3;k++) m[2*i+j]+=A[k][i]*A[k][j]; REQUIRES(sdet2(m[0],m[1],m[2],m[3])!=0);
  solve_least_square3x2(A,b,x); for(int i=0;i<2;i++){ D l=0,r=0; for(int j=0;j<2;j++) l+=m[2*i+j]*x[j]; for(int k=0;k<3;k++) r+=A[k][i]*b[k]; ENSURES_EQ(l,r,"normal equations"); }
  solve_least_square3x2_2(A,B,X); for(int c=0;c<2;c++)for(int i=0;i<2;i++){ D l=0,r=0; for(int j=0;j<2;j++) l+=m[2*i+j]*X[j][c]; for(int k=0;k<3;k++) r+=A[k][i]*B[k][c]; ENSURES_EQ(l,r,"normal equations (2 rhs)"); }
}
CONTRACT(lsq21, "solve_least_square2x1 solve_least_square3x1 solve_linear_real1", "minimiser of |ax-b|; root of the linear equation") {
  D a[3],b[3],x; reals(a,3,"a"); reals(b,3,"b"); REQUIRES(a[0]!=0);
  solve_least_square2x1(a,b,x); ENSURES_EQ((a[0]*a[0]+a[1]*a[1])*x,a[0]*b[0]+a[1]*b[1],"lsq2x1");
  solve_least_square3x1(a,b,x); ENSURES_EQ((a[0]*a[0]+a[1]*a[1]+a[2]*a[2])*x,a[0]*b[0]+a[1]*b[1]+a[2]*b[2],"lsq3x1");
}
CONTRACT(lin1, "solve_linear_real1 number_roots_linear1", "reports a root iff the slope is at least epsilon in magnitude; the root satisfies the equation") {
  D P[2],x[1]; reals(P,2,"P"); int n=solve_linear_real1(P,x); D e=std::numeric_limits<D>::epsilon();
  ENSURES((n==1)==(P[1]>=e||P[1]<=-e),"root-reported"); ENSURES(n==0||n==1,"0-or-1"); if(n==1) ENSURES_EQ(P[0]+P[1]*x[0],0.,"is-root");
  long a=__v_int("a",-100,100),b=__v_int("b",-100,100); int k=number_roots_linear1(a,b); ENSURES(k==(a!=0?1:(b==0?(int)LINEAR_EQUATION_INFINITE_SOLUTIONS:0)),"count");
}
CONTRACT(lsq43, "solve_least_square4x3_3 (condition number abstracted)", "the solution satisfies the normal equations for every full-rank A") {
  __v_replace((void*)(D(*)(const D(*)[3]))cond_real3x3<D>,(void*)stub_cond3);
  D A[4][3],b[4],x[3],B[4][3],X[3][3]; reals(&A[0][0],12,"A"); reals(b,4,"b"); reals(&B[0][0],12,"B");
  D m[9]; for(int i=0;i<3;i++)for(int j=0;j<3;j++){ m[3*i+j]=0; for(int k=0;k<4;k++) m[3*i+j]+=A[k][i]*A[k][j]; } REQUIRES(sdet3(m)!=0);
  solve_least_square4x3_3(A,B,X); for(int c=0;c<3;c++)for(int i=0;i<3;i++){ D l=0,r=0; for(int j=0;j<3;j++) l+=m[3*i+j]*X[j][c]; for(int k=0;k<4;k++) r+=A[k][i]*B[k][c]; ENSURES_EQ(l,r,"normal equations (3 rhs)"); }
}
static D sabs(D x){ return x<0?-x:x; }
CONTRACT(norm1, "matrix_1norm_real2x2 matrix_1norm_real3x3 matrix_inf_norm_real2x2 matrix_frobenius_norm_real2x2/2x3/3x2", "the 1-norm is the least upper bound of the absolute column sums, the inf-norm of the row sums; Frobenius is the sum of squares") {
  D A[9]; reals(A,9,"A");
  { D n=matrix_1norm_real2x2((D(*)[2])A); D c0=sabs(A[0])+sabs(A[2]),c1=sabs(A[1])+sabs(A[3]); ENSURES(n>=c0&&n>=c1&&(n==c0||n==c1),"1norm2"); }
  { D n=matrix_inf_norm_real2x2((D(*)[2])A); D c0=sabs(A[0])+sabs(A[1]),c1=sabs(A[2])+sabs(A[3]); ENSURES(n>=c0&&n>=c1&&(n==c0||n==c1),"infnorm2"); }
  { D s=0; for(int i=0;i<4;i++) s+=A[i]*A[i]; ENSURES_EQ(matrix_frobenius_norm_real2x2((D(*)[2])A),s,"fro2x2"); s+=A[4]*A[4]+A[5]*A[5]; ENSURES_EQ(matrix_frobenius_norm_real2x3((D(*)[3])A),s,"fro2x3"); ENSURES_EQ(matrix_frobenius_norm_real3x2((D(*)[2])A),s,"fro3x2"); }
}
CONTRACT(norm1_3, "matrix_1norm_real3x3", "the 1-norm is the least upper bound of the absolute column sums") {
  D A[9]; reals(A,9,"A"); D n=matrix_1norm_real3x3((D(*)[3])A); D c[3]; for(int j=0;j<3;j++) c[j]=sabs(A[j])+sabs(A[3+j])+sabs(A[6+j]); ENSURES(n>=c[0]&&n>=c[1]&&n>=c[2],"upper-bound"); ENSURES(n==c[0]||n==c[1]||n==c[2],"attained");
}
CONTRACT(cond, "cond_real2x2 against the contract of matrix_1norm_real2x2 and matrix_inverse2x2", "condition number is norm(A) * norm(inverse A)") {
  D A[2][2]; reals(&A[0][0],4,"A"); D d=sdet2(A[0][0],A[0][1],A[1][0],A[1][1]); REQUIRES(d>0);
  D J[2][2]={{A[1][1]/d,-A[0][1]/d},{-A[1][0]/d,A[0][0]/d}}; D r=cond_real2x2(A); ENSURES_EQ(r, matrix_1norm_real2x2(A)*matrix_1norm_real2x2(J),"cond");
}
CONTRACT(decomp, "matrix_symmetric_decomposition_3x3 matrix_antisymmetric_decomposition_3x3 eye3", "M = S + A with S symmetric and A antisymmetric; eye3 is the identity") {
  D M[3][3],S[3][3],A[3][3],E[9]; reals(&M[0][0],9,"M"); matrix_symmetric_decomposition_3x3(M,S); matrix_antisymmetric_decomposition_3x3(M,A); eye3(E);
  for(int i=0;i<3;i++)for(int j=0;j<3;j++){ ENSURES_EQ(S[i][j]+A[i][j],M[i][j],"sum"); ENSURES_EQ(S[i][j],S[j][i],"symmetric"); ENSURES_EQ(A[i][j],-A[j][i],"antisymmetric"); ENSURES_EQ(E[3*i+j],i==j?1.:0.,"identity"); }
}
CONTRACT(quat, "quatmul", "Hamilton product: norm multiplicative, identity neutral, i*j=k") {
  D x[4],y[4],z[4]; reals(x,4,"x"); reals(y,4,"y"); quatmul(x,y,z); D nx=0,ny=0,nz=0; for(int i=0;i<4;i++){ nx+=x[i]*x[i]; ny+=y[i]*y[i]; nz+=z[i]*z[i]; } ENSURES_EQ(nz,nx*ny,"norm multiplicative");
  ENSURES_EQ(z[0],x[0]*y[0]-x[1]*y[1]-x[2]*y[2]-x[3]*y[3],"w"); ENSURES_EQ(z[1],x[0]*y[1]+x[1]*y[0]+x[2]*y[3]-x[3]*y[2],"i"); ENSURES_EQ(z[2],x[0]*y[2]-x[1]*y[3]+x[2]*y[0]+x[3]*y[1],"j"); ENSURES_EQ(z[3],x[0]*y[3]+x[1]*y[2]-x[2]*y[1]+x[3]*y[0],"k");
}
