// Term language of the verifier: sparse polynomials over Q in interned atoms, and boolean formulas over
// polynomial (in)equalities.  Everything is hash-consed, so syntactic equality of two polynomials IS ring equality.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <cstring>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <functional>
#include <stdexcept>
#include <iostream>
#include <sstream>
#include <memory>

typedef mpq_class Q;
typedef mpz_class Z;

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

struct Poly; struct BNode;
enum AtomKind { A_VAR, A_ITE, A_IDIV, A_INV, A_FLOOR, A_SQRT, A_UF, A_SEL };

struct Iv { bool l=false,h=false; Q lo,hi; };   // interval, each side optional

struct Atom {
  int id; AtomKind k; bool isInt; std::string name;
  const Poly *a=nullptr,*b=nullptr; const BNode *c=nullptr; std::vector<const Poly*> args;
  Iv iv; bool isInput=false; int seq=-1;
};

struct Mono { int id; int deg; std::vector<std::pair<int,int>> f; };
struct Term { const Mono* m; Q c; };
struct Poly { int id; std::vector<Term> t; bool isInt; size_t h; };

enum BK { B_T, B_F, B_EQ, B_LT, B_LE, B_NOT, B_AND, B_OR, B_VAR, B_FORALL };
struct BNode { int id; BK k; const Poly* p=nullptr; const BNode *x=nullptr,*y=nullptr; std::string name; bool isInput=false;};

std::vector<Atom*>& atoms();
const Mono* mono1();
const Mono* monoAtom(int a,int e=1);
const Mono* monoMul(const Mono*,const Mono*);
bool monoDivides(const Mono* d,const Mono* m,const Mono** q);
bool monoLess(const Mono*,const Mono*);   // total order (graded lex)

const Poly* pconst(const Q&);
const Poly* patom(int id);
const Poly* padd(const Poly*,const Poly*);
const Poly* psub(const Poly*,const Poly*);
const Poly* pneg(const Poly*);
const Poly* pmul(const Poly*,const Poly*);
const Poly* pscale(const Poly*,const Q&);
bool pisconst(const Poly*,Q* v=nullptr);
const Poly* pvar(const std::string& name,bool isInt,Iv iv=Iv(),bool input=false);
const Poly* pite(const BNode*,const Poly*,const Poly*);
const Poly* pidiv(const Poly*,const Poly*);     // floor division, divisor > 0 on the path
const Poly* pinv(const Poly*);
const Poly* pfloor(const Poly*);
const Poly* psqrt(const Poly*);
const Poly* puf(const std::string&,const std::vector<const Poly*>&,bool isInt);
const Poly* psel(const std::string& arr,const Poly* idx,bool isInt,Iv iv);
// pseudo division P = A*Q + R w.r.t. leading monomial of Q
void pdivmod(const Poly* P,const Poly* Q,const Poly** A,const Poly** R);

const BNode *bT(),*bF();
const BNode* bcmp(BK k,const Poly* p);   // p ==0, p<0, p<=0
inline const BNode* beq(const Poly*a,const Poly*b){return bcmp(B_EQ,psub(a,b));}
inline const BNode* blt(const Poly*a,const Poly*b){return bcmp(B_LT,psub(a,b));}
inline const BNode* ble(const Poly*a,const Poly*b){return bcmp(B_LE,psub(a,b));}
const BNode* bnot(const BNode*);
const BNode* band(const BNode*,const BNode*);
const BNode* bor(const BNode*,const BNode*);
const BNode* bvar(const std::string&,bool input=false);
inline const BNode* bxor(const BNode*a,const BNode*b){return bor(band(a,bnot(b)),band(bnot(a),b));}
inline const BNode* biff(const BNode*a,const BNode*b){return bnot(bxor(a,b));}
inline const BNode* bite(const BNode*c,const BNode*a,const BNode*b){ if(a==b) return a; return bor(band(c,a),band(bnot(c),b)); }

void polyAtoms(const Poly*,std::set<int>& out,bool deep=true);
void boolAtoms(const BNode*,std::set<int>& out,bool deep=true);
// deep substitution of an atom by a polynomial (rebuilds)
const Poly* psubst(const Poly*,const std::map<int,const Poly*>&);
const BNode* bsubst(const BNode*,const std::map<int,const Poly*>&);

typedef std::map<int,Iv> Bounds;   // per-state refinements
Iv pbounds(const Poly*,const Bounds* b);
std::string pstr(const Poly*,int depth=3);
std::string bstr(const BNode*,int depth=3);
extern int g_maxTerms;
