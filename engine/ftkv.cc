// ftkv: deductive verifier for C++ contracts over LLVM IR.
// Symbolically executes contract harness functions over the IR that clang generates from the real headers; integers are
// mathematical integers in the canonical signed range of their type, floating point is real arithmetic; every
// __v_assert / memory access / division / no-throw condition becomes an obligation discharged for all inputs.
#include "prover.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <cmath>
#include <fstream>
#include <deque>
#include <llvm/ADT/SmallString.h>
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
using namespace llvm;
typedef uint64_t u64; typedef int64_t i64;

struct Val { enum {UNDEF,CONC,POLY,BOOL,AGG}; uint8_t k=UNDEF; u64 c=0; const void*s=nullptr;
  const Poly* p()const{return (const Poly*)s;} const BNode* b()const{return (const BNode*)s;} const std::vector<Val>& agg()const{return *(const std::vector<Val>*)s;} };
static Val VC(u64 c){Val v;v.k=Val::CONC;v.c=c;return v;}
static Val VP(const Poly*p){Val v;v.k=Val::POLY;v.s=p;return v;}
static Val VB(const BNode*b){ if(b->k==B_T)return VC(1); if(b->k==B_F)return VC(0); Val v;v.k=Val::BOOL;v.s=b;return v;}
static Val VA(std::vector<Val> a){Val v;v.k=Val::AGG;v.s=new std::vector<Val>(std::move(a));return v;}

static const u64 BIAS=0x40000000ull;
static inline u64 baseOf(u64 id){return (id<<32)+BIAS;}

// symbolic array contents
struct ArrWrite { int kind; const Poly*idx; const Poly*len; Val v; std::shared_ptr<struct ArrData> src; const Poly*soff; std::vector<std::pair<int,const Poly*>> kv; /* kind 3: template v over iteration atoms, each with its block size */ };
struct ArrData { unsigned elem=0; bool fp=false; int base=0; /*0 uninit,1 const,2 named*/ Val cv; std::string name; Iv iv; std::vector<ArrWrite> w; };
struct Cell { u64 size; Val v; };
struct Data { std::vector<uint8_t> by, st; std::map<u64,Cell> sym; std::shared_ptr<ArrData> arr; };
struct Obj { u64 size=0; const Poly* ssize=nullptr; std::shared_ptr<Data> d; bool alive=true; bool stack=false; bool ro=false; const Function* fn=nullptr; };

struct GI { int opi; i64 scale; unsigned w; Type*ty; };
struct DI { Instruction*I; unsigned op; int dst; SmallVector<int,4> o; i64 goff=0; SmallVector<GI,2> g; int s0=-1,s1=-1; SmallVector<int,4> inb; unsigned w=0; };
struct FInfo { Function*F; std::vector<std::vector<DI>> bb; DenseMap<const BasicBlock*,int> bbi; int nslots=0; std::vector<Val> cst; std::vector<const Constant*> cstv; u64 execs=0; std::vector<int> hdr,inl,lhead; std::vector<std::vector<char>> loops; /* hdr[bb]: loop headed by bb, inl[bb]: innermost loop of bb, or -1 */ };
struct Frame { FInfo*f; int bb=0,ip=0,prev=-1; std::vector<Val> r; std::vector<u64> al; int dst=-1; int cbb=-1; bool throwBoundary=false; SmallVector<int,2> tried; };
struct State { std::vector<Frame> st; std::vector<Obj> objs; std::vector<const BNode*> pc; std::unordered_set<const BNode*> pcs; Bounds bd;
  std::map<int,const Poly*> subst; std::map<const Poly*,Q> conc; std::map<const Function*,Function*> repl,replRec; int nin=0; u64 steps=0; bool allowThrow=false; std::vector<std::string> trail; bool allowDiv0=false,ovf=false; std::vector<const Poly*> sqrtHints; int forks=0; bool threw=false; };

struct Fail { std::string name,status,detail,where; std::vector<std::pair<std::string,std::string>> inputs; std::map<std::string,std::map<std::string,std::string>> arrays; };
struct ObStat { int n=0; std::map<std::string,int> be; double sec=0; };

struct Fork { }; // thrown to re-execute instruction after worklist changed

static LLVMContext g_ctx;
static std::string jesc(const std::string&s){ std::string o; for(char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if((unsigned char)c<32) o+=' '; else o+=c; } return o; }

struct Engine {
  std::unique_ptr<Module> M; const DataLayout*DL; Prover P;
  DenseMap<const Function*,std::unique_ptr<FInfo>> fi; DenseMap<const GlobalValue*,u64> gaddr; std::vector<const Function*> fnOf;
  std::deque<State*> wl; State*S=nullptr;
  std::map<std::string,ObStat> obs; std::vector<Fail> fails; std::map<std::string,int> assum; std::map<std::string,int> exts; std::set<std::string> covers; std::map<std::string,int> coverCnt;
  long paths=0, ended=0, thrown=0, infeasible=0; long maxPaths=20000; u64 maxSteps=4000000000ull; int fresh=0; u64 totalSteps=0; double timeLimit=800; std::chrono::steady_clock::time_point T0; bool incomplete=false; std::string incompleteWhy; std::map<const Function*,u64> execd,baseExec; int maxFails=3; bool verbose=false; std::map<std::string,int> failNames; std::map<std::string,std::string> inputKinds; bool concreteTrace=false;
  std::map<std::pair<const void*,int>,int> loopGuard;

  // ---------- utilities
  std::string where(){ if(!S||S->st.empty())return "?"; std::string r; int n=0; for(int i=(int)S->st.size()-1;i>=0&&n<6;i--,n++){ auto&f=S->st[i]; std::string d=demangle(f.f->F->getName().str()); if(d.size()>160)d=d.substr(0,160); r+=d; if(f.ip<(int)f.f->bb[f.bb].size()){ auto&dl=f.f->bb[f.bb][f.ip].I->getDebugLoc(); if(dl) r+=":"+std::to_string(dl.getLine()); } r+=" < "; } return r; }
  double elapsed(){ return std::chrono::duration<double>(std::chrono::steady_clock::now()-T0).count(); }
  unsigned W(Type*t){ if(t->isPointerTy())return 64; if(t->isIntegerTy())return t->getIntegerBitWidth(); if(t->isDoubleTy())return 64; if(t->isFloatTy())return 32; throw Unsupported("type width"); }
  static i64 sx(u64 c,unsigned w){ if(w>=64)return (i64)c; u64 m=1ull<<(w-1); c&=(1ull<<w)-1; return (i64)((c^m)-m); }
  static u64 mask(u64 c,unsigned w){ return w>=64?c:(c&((1ull<<w)-1)); }
  static Q qi(i64 x){ Q q; Z z; mpz_set_si(z.get_mpz_t(),x); q=z; return q; }
  static bool q2i(const Q&q,u64*o){ if(q.get_den()!=1)return false; Z z=q.get_num(); if(mpz_fits_slong_p(z.get_mpz_t())){*o=(u64)z.get_si();return true;} return false; }
  static double bits2d(u64 c){double d;memcpy(&d,&c,8);return d;} static u64 d2bits(double d){u64 c;memcpy(&c,&d,8);return c;}
  static float bits2f(u64 c){uint32_t x=(uint32_t)c;float d;memcpy(&d,&x,4);return d;} static u64 f2bits(float f){uint32_t c;memcpy(&c,&f,4);return c;}
  static bool isFP(Type*t){return t->isFloatingPointTy();}
  double concD(const Val&v,Type*t){ return t->isFloatTy()?(double)bits2f(v.c):bits2d(v.c); }
  bool special(const Val&v,Type*t){ return v.k==Val::CONC && !std::isfinite(concD(v,t)); }
  Val undefVal(Type*t){ if(t->isIntegerTy(1)) return VB(bvar("undef"+std::to_string(fresh++))); if(t->isPointerTy()) return VC(0xdead0000dead0000ull); 
    if(isFP(t)) return VP(pvar("undef"+std::to_string(fresh++),false)); return VP(ivar("undef"+std::to_string(fresh++),W(t))); }
  const Poly* ivar(const std::string&n,unsigned w){ Iv iv; iv.l=iv.h=true; Z one=1; Z hi=(one<<(w-1))-1, lo=-(one<<(w-1)); iv.lo=Q(lo);iv.hi=Q(hi); return pvar(n,true,iv); }
  const Poly* applySubst(const Poly*p){ if(S->subst.empty())return p; const Poly*q=psubst(p,S->subst); return q; }
  const Poly* ip(const Val&v,Type*t){ // integer/pointer to polynomial
    switch(v.k){ case Val::CONC: return pconst(qi(sx(v.c,W(t)))); case Val::POLY: return applySubst(v.p()); case Val::BOOL: return pite(v.b(),pconst(t->isIntegerTy(1)?-1:1),pconst(0)); case Val::UNDEF: return ip(undefVal(t),t); default: throw Unsupported("ip"); } }
  const Poly* fp(const Val&v,Type*t){ switch(v.k){ case Val::CONC: { double d=concD(v,t); if(!std::isfinite(d)) throw Unsupported("special fp in real arithmetic"); Q q(d); return pconst(q);} case Val::POLY: return applySubst(v.p()); case Val::UNDEF: return fp(undefVal(t),t); default: throw Unsupported("fp"); } }
  const BNode* bb_(const Val&v){ switch(v.k){ case Val::CONC: return (v.c&1)?bT():bF(); case Val::BOOL: { if(S->subst.empty()) return v.b(); return bsubst(v.b(),S->subst);} case Val::POLY: return bnot(bcmp(B_EQ,v.p())); case Val::UNDEF: return bvar("undef"+std::to_string(fresh++)); default: throw Unsupported("bool"); } }
  Val mkI(const Poly*p,unsigned w){ Q q; if(pisconst(p,&q)){ Z z=q.get_num(); Z m=1; m<<=w; Z r; mpz_fdiv_r(r.get_mpz_t(),z.get_mpz_t(),m.get_mpz_t()); return VC(mpz_get_ui(r.get_mpz_t())); } return VP(p); }
  Val mkF(const Poly*p,Type*t){ Q q; if(pisconst(p,&q)){ double d=q.get_d(); if(std::isfinite(d)&&Q(d)==q){ if(t->isFloatTy()){ float f=(float)d; if((double)f==d) return VC(f2bits(f)); } else return VC(d2bits(d)); } } return VP(p); }
  // ---------- path condition
  void addPC(const BNode*c){ if(c->k==B_T||S->pcs.count(c))return; if(c->k==B_AND){addPC(c->x);addPC(c->y);return;}
    S->pc.push_back(c); S->pcs.insert(c);
    if(c->p){ const Poly*p=c->p; // linear single atom a*x + k (<=|<|==) 0
      if((p->t.size()==1||(p->t.size()==2&&p->t[1].m->f.empty()))&&p->t[0].m->deg==1){ int x=p->t[0].m->f[0].first; Q a=p->t[0].c,k=p->t.size()==2?p->t[1].c:Q(0); Q v=-k/a; Iv&iv=S->bd[x];
        auto up=[&](const Q&h){ if(!iv.h||h<iv.hi){iv.h=true;iv.hi=h;} }; auto lo=[&](const Q&l){ if(!iv.l||l>iv.lo){iv.l=true;iv.lo=l;} };
        if(c->k==B_EQ){ up(v);lo(v); if(!S->subst.count(x)) S->subst[x]=pconst(v); }
        else if(a>0) up(v); else lo(v); }
      else if(c->k==B_EQ){ // x - y : substitute newer variable by older polynomial when coefficient is +-1 and x is a plain variable
        } } }
  bool known(const BNode*c,int effort,PR*pr=nullptr){ if(c->k==B_T)return true; if(c->k==B_F) return false; if(S->pcs.count(c))return true; PR r=P.prove(S->pc,&S->bd,c,effort); return r==PROVED; }
  // decide a condition: 1 true, 0 false, -1 both possible
  int decide(const BNode*c){ if(c->k==B_T)return 1; if(c->k==B_F)return 0; if(S->pcs.count(c))return 1; const BNode*n=bnot(c); if(S->pcs.count(n))return 0;
    if(freeBoth(c)) return -1;
    // large real-valued conditions: fork without asking a solver (a possibly infeasible path only costs time)
    if(heavy(c)){ if(c->p){ Iv iv=pbounds(c->p,&S->bd); if(c->k==B_LE){ if(iv.h&&iv.hi<=0) return 1; if(iv.l&&iv.lo>0) return 0; } if(c->k==B_LT){ if(iv.h&&iv.hi<0) return 1; if(iv.l&&iv.lo>=0) return 0; } } return -1; }
    if(c->p&&c->p->isInt){ if(P.cheap(S->pc,&S->bd,c)) return 1; if(P.cheap(S->pc,&S->bd,n)) return 0; }
    if(known(c,0)) return 1; if(known(n,0)) return 0; return -1; }
  static bool heavy(const BNode*c){ std::set<int> at; std::vector<const BNode*> st{c}; size_t w=0; while(!st.empty()){ const BNode*b=st.back(); st.pop_back(); if(b->p){ if(b->p->isInt) return false; w+=b->p->t.size(); } if(b->x) st.push_back(b->x); if(b->y) st.push_back(b->y); } boolAtoms(c,at); bool nl=false; for(int x:at){ Atom*a=atoms()[x]; if(a->k==A_INV||a->k==A_SQRT) nl=true; if(a->a) w+=a->a->t.size(); if(a->b) w+=a->b->t.size(); } static int lim=getenv("HV")?atoi(getenv("HV")):40; return nl&&w>lim; }
  // floor(x) = 0 when the path implies 0 <= x < 1
  const Poly* redFloor(const Poly*p){ std::set<int> at; polyAtoms(p,at,false); std::map<int,const Poly*> sm; for(int x:at){ Atom*a=atoms()[x]; if(a->k!=A_FLOOR) continue;
      // floor(P/D) of integers: integer floor division
      int u=-1; bool q=true; for(auto&t:a->a->t){ int c=0; for(auto&f:t.m->f){ if(atoms()[f.first]->k==A_INV){ c+=f.second; if(u>=0&&u!=f.first) q=false; u=f.first; } else if(!atoms()[f.first]->isInt) q=false; } if(c!=1) q=false; }
      if(q&&u>=0){ std::map<int,const Poly*> one; one[u]=pconst(1); const Poly*P=psubst(a->a,one),*D=atoms()[u]->a; Z l=1; for(auto*z:{P,D}) for(auto&t:z->t) l=lcm(l,Z(t.c.get_den())); P=pscale(P,Q(l)); D=pscale(D,Q(l)); if(P->isInt&&D->isInt&&known(blt(pconst(0),D),0)){ sm[x]=fdiv(P,D); continue; } }
      if(known(ble(pconst(0),a->a),0)&&known(blt(a->a,pconst(1)),0)) sm[x]=pconst(0); } return sm.empty()?p:psubst(p,sm); }
  // a single monomial with an unconstrained factor: its sign is open, no need to ask the solvers
  bool freeSign(const Poly*x){ if(x->t.size()!=1) return false; for(auto&f:x->t[0].m->f) if(f.second%2){ Atom*a=atoms()[f.first]; if(a->isInt) continue; Iv iv=pbounds(patom(f.first),&S->bd); if(!iv.l&&!iv.h&&unmentioned({f.first})) return true; } return false; }
  bool unmentioned(const std::set<int>&at){ for(auto*c:S->pc){ std::set<int> ca; boolAtoms(c,ca); for(int x:ca) if(at.count(x)) return false; } return true; }
  // a linear comparison of plain inputs that no path condition mentions: the interval bounds are attained
  bool freeBoth(const BNode*c){ if(c->k!=B_LE&&c->k!=B_LT) return false; std::set<int> at; for(auto&t:c->p->t){ if(t.m->f.empty()) continue; if(t.m->deg!=1||atoms()[t.m->f[0].first]->k!=A_VAR) return false; at.insert(t.m->f[0].first); } if(at.empty()||!unmentioned(at)) return false;
    for(int x:at) if(S->bd.count(x)) return false; Iv iv=pbounds(c->p,nullptr); bool t= c->k==B_LE? (!iv.l||iv.lo<=0):(!iv.l||iv.lo<0), f= c->k==B_LE? (!iv.h||iv.hi>0):(!iv.h||iv.hi>=0); return t&&f; }
  bool branch(const BNode*c){ // forks if needed; returns the side taken by current state
    if(!S->subst.empty()) c=bsubst(c,S->subst);
    int d=decide(c); if(d>=0){ return d; }
    if(++paths>maxPaths){ incomplete=true; incompleteWhy="path limit"; throw Unsupported("path limit"); }
    State*T=new State(*S); T->forks++; S->forks++; State*cur=S; S=T; addPC(bnot(c)); S=cur; wl.push_back(T); addPC(c); return true; 
  }
  // In `branch` the forked state T must re-execute the current instruction, where decide(c) now yields false: sound since pc holds !c.
  Q concretize(const Poly*p,int maxn=512){ Q v; if(pisconst(p,&v))return v; auto it=S->conc.find(p); if(it!=S->conc.end()) return it->second;
    Iv iv=pbounds(p,&S->bd); 
    if(!(iv.l&&iv.h)||iv.hi-iv.lo>100000) { if(getenv("FTKV_DEBUG")) std::cerr<<"concretize "<<pstr(p)<<"\n"; throw Unsupported("unbounded symbolic value must be concrete: "+pstr(p,2)+" at "+where()); }
    // enumerate
    Z lo,hi; mpz_cdiv_q(lo.get_mpz_t(),iv.lo.get_num_mpz_t(),iv.lo.get_den_mpz_t()); mpz_fdiv_q(hi.get_mpz_t(),iv.hi.get_num_mpz_t(),iv.hi.get_den_mpz_t());
    // a plain input that no path condition mentions can take every value of its range
    bool fr=false; if(p->t.size()==1&&p->t[0].m->deg==1&&p->t[0].c==1&&atoms()[p->t[0].m->f[0].first]->k==A_VAR){ int x=p->t[0].m->f[0].first; fr=true; for(auto*c:S->pc){ std::set<int> at; boolAtoms(c,at); if(at.count(x)){ fr=false; break; } } }
    std::vector<Z> feas; for(Z z=lo;z<=hi;z++){ const BNode*e=beq(p,pconst(Q(z))); if(fr){ feas.push_back(z); continue; } if(e->k==B_F)continue; if(e->k==B_T){feas.push_back(z);break;} if(known(bnot(e),0))continue; feas.push_back(z); if((int)feas.size()>maxn) throw Unsupported("too many concrete values for "+pstr(p,2)); }
    if(feas.empty()){ throw std::string("infeasible"); }
    State*cur=S;
    for(size_t i=1;i<feas.size();i++){ if(++paths>maxPaths){incomplete=true;incompleteWhy="path limit";throw Unsupported("path limit");} State*T=new State(*cur); S=T; addPC(beq(p,pconst(Q(feas[i])))); T->conc[p]=Q(feas[i]); S=cur; wl.push_back(T); }
    addPC(beq(p,pconst(Q(feas[0])))); S->conc[p]=Q(feas[0]); return Q(feas[0]); }
  // ---------- obligations
  void fail(const std::string&name,const std::string&status,const std::string&detail,const Model*m){
    Fail f; f.name=name; f.status=status; f.detail=detail; f.where=where(); auto strip=[](std::string x){ return x.substr(0,x.find('@')); }; if(m){ for(auto&kv:m->vals) f.inputs.push_back({strip(kv.first),kv.second}); for(auto&kv:m->arrays) f.arrays[strip(kv.first)]=kv.second; }
    for(auto&kv:S->subst){ Atom*a=atoms()[kv.first]; if(a->k==A_VAR&&a->isInput){ bool have=false; for(auto&x:f.inputs) if(x.first==strip(a->name)) have=true; Q q; if(!have&&pisconst(kv.second,&q)) f.inputs.push_back({strip(a->name),q.get_str()}); else if(!have&&m&&!m->av.empty()){ std::set<int> pa; polyAtoms(kv.second,pa,false); bool ok=true; long double v=0; for(int x:pa) if(atoms()[x]->k!=A_VAR) ok=false; if(ok){ for(auto&t:kv.second->t){ long double y=t.c.get_d(); for(auto&fc:t.m->f){ auto it=m->av.find(fc.first); long double b=it==m->av.end()?0:it->second; for(int e=0;e<fc.second;e++) y*=b; } v+=y; } std::ostringstream o2; if(a->isInt) o2<<(long)v; else { o2.precision(17); o2<<(double)v; } f.inputs.push_back({strip(a->name),o2.str()}); } } } }
    if(failNames[name]++<2) fails.push_back(f); if(verbose) std::cerr<<"FAIL "<<name<<" ["<<status<<"] "<<detail<<" @ "<<f.where<<"\n";
  }
  bool oblige(const BNode*c,const std::string&name,bool assumeAfter=true){
    auto t0=std::chrono::steady_clock::now(); auto&o=obs[name]; o.n++;
    if(!S->subst.empty()) c=bsubst(c,S->subst);
    Model m; P.lastBackend="ring"; PR r;
    if(c->k==B_T) r=PROVED; else if(failNames[name]>=2 && failNames[name]<1000) { r=P.prove(S->pc,&S->bd,c,0); if(r!=PROVED){ failNames[name]++; if(assumeAfter&&c->k!=B_F) addPC(c); return false; } }
    else r=P.prove(S->pc,&S->bd,c,1,&m);
    double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); o.sec+=dt;
    if(verbose&&dt>2) std::cerr<<"slow obligation "<<name<<" "<<dt<<"s "<<P.lastBackend<<"\n";
    if(r==PROVED){ o.be[P.lastBackend]++; if(assumeAfter&&c->k!=B_T) addPC(c); return true; }
    // infeasible path?
    if(c->k==B_F && r!=PROVED){ PR q=P.prove(S->pc,&S->bd,bF(),1,&m); if(q==PROVED){ o.be["infeasible"]++; throw std::string("infeasible"); } if(q==REFUTED) r=REFUTED; }
    o.be[r==REFUTED?"REFUTED":"UNDECIDED"]++;
    fail(name,r==REFUTED?"refuted":"undecided",bstr(c,2).substr(0,1500),&m);
    if(assumeAfter&&c->k!=B_F) addPC(c); if(c->k==B_F) throw std::string("dead"); return false;
  }
  // ---------- memory
  struct Rec { u64 id; bool c; i64 off; unsigned n; const Poly*idx; Type*t; const Poly*len; };
  struct Trial { u64 nobj; std::vector<Rec> rd,wt; }; Trial*tr=nullptr;
  bool recycle=false; std::vector<u64> freeIds; // during -setup only: ids of dead objects are reused
  void kill(u64 id){ Obj&o=S->objs[id]; if(!o.alive) return; o.alive=false; if(recycle&&o.d.use_count()==1&&!o.ssize&&!o.d->arr){ freeIds.push_back(id); return; } o.d.reset(); }
  u64 newObj(u64 size,bool zero=false){ if(recycle&&!freeIds.empty()){ u64 id=freeIds.back(); freeIds.pop_back(); Obj&o=S->objs[id]; o.alive=true; o.stack=o.ro=false; o.size=size; Data&d=*o.d; d.by.assign(size,0); d.st.assign(size,zero?1:0); d.sym.clear(); return id; }
    Obj o; o.size=size; o.d=std::make_shared<Data>(); o.d->by.assign(size,0); o.d->st.assign(size,zero?1:0); S->objs.push_back(std::move(o)); return S->objs.size()-1; }
  Data& wr(Obj&o){ if(o.d.use_count()>1) o.d=std::make_shared<Data>(*o.d); return *o.d; }
  Obj& objAt(u64 id){ return S->objs[id]; }
  void memfail(const std::string&d){ obs["memory-safety"].n++; // concrete violation: check that the path is feasible
    Model m; PR q=P.prove(S->pc,&S->bd,bF(),1,&m); if(q==PROVED){ obs["memory-safety"].be["infeasible"]++; throw std::string("infeasible"); }
    obs["memory-safety"].be["REFUTED"]++; fail("memory-safety",q==REFUTED?"refuted":"undecided",d,&m); throw std::string("dead"); }
  struct Loc { u64 id; bool c; i64 off; const Poly* so; };
  Loc locate(const Val&ptr,u64 size){
    Val v=ptr; if(v.k==Val::POLY){ const Poly*p=applySubst(v.p()); v=mkI(p,64); }
    if(v.k==Val::UNDEF) memfail("access through undefined pointer");
    if(v.k==Val::CONC){ u64 id=v.c>>32; i64 off=(i64)(v.c&0xffffffffull)-(i64)BIAS; if(id==0||id>=S->objs.size()) memfail(v.c<65536?"null pointer access":"wild pointer access"); Obj&o=S->objs[id]; if(!o.alive) memfail("use after free/scope"); if(o.fn) memfail("data access to function");
      if(o.ssize){ return Loc{id,false,off,pconst(qi(off))}; }
      if(off<0||(u64)off+size>o.size) memfail("out-of-bounds access: offset "+std::to_string(off)+" size "+std::to_string(size)+" object "+std::to_string(o.size));
      return Loc{id,true,off,nullptr}; }
    const Poly*p=v.p(); Q k=0; for(auto&t:p->t) if(t.m->f.empty()) k=t.c; u64 kc; if(!q2i(k,&kc)) throw Unsupported("pointer const"); i64 idl=(i64)kc>>32; u64 id=(u64)idl; 
    if(idl<=0||id>=S->objs.size()) throw Unsupported("symbolic pointer without object: "+pstr(p,2)); 
    const Poly*off=psub(p,pconst(qi((i64)baseOf(id)))); Obj&o=S->objs[id]; if(!o.alive) memfail("use after free");
    if(o.ssize) return Loc{id,false,0,off};
    if(o.d->arr){ return Loc{id,false,0,off}; }
    // bounds obligation, then concretise
    oblige(band(ble(pconst(0),off),ble(padd(off,pconst(Q((unsigned long)size))),pconst(Q((unsigned long)o.size)))),"memory-safety");
    Q q=concretize(off,300); u64 oc; q2i(q,&oc); if((i64)oc<0||oc+size>o.size) throw std::string("infeasible"); return Loc{id,true,(i64)oc,nullptr}; }
  // after instantiating a closed form: simplify quotients that are now decided by the path condition
  const Poly* resimp(const Poly*p){ for(int round=0;round<12;round++){ std::set<int> at; polyAtoms(p,at,true); bool ch=false; for(int x:at){ Atom*a=atoms()[x]; if(a->k!=A_IDIV) continue; const Poly*v=fdiv(a->a,a->b); if(v->t.size()==1&&v->t[0].c==1&&v->t[0].m->deg==1&&v->t[0].m->f[0].first==x) continue; std::map<int,const Poly*> m; m[x]=v; const Poly*q=psubst(p,m); if(q!=p){ p=q; ch=true; break; } } if(!ch) break; } return p; }
  std::vector<const BNode*> rdConds; struct RdG { std::vector<const BNode*>&v; size_t n; std::vector<const BNode*> keep; ~RdG(){ if(!keep.empty()) v=keep; else v.resize(n); } };
  Val readArr(const std::shared_ptr<ArrData>&A,const Poly*idx,int wi,Type*t){
    for(int i=wi-1;i>=0;i--){ const ArrWrite&w=A->w[i]; 
      if(w.kind==0){ if(w.idx==idx) return w.v; const BNode*e=beq(applySubst(w.idx),idx); int d=decide(e); if(d==1)return w.v; if(d==0)continue;
        RdG g_{rdConds,rdConds.size()}; rdConds.push_back(e); Val rest=readArr(A,idx,i,t); return iteV(e,w.v,rest,t); }
      else if(w.kind==3){ const BNode*in=band(ble(w.idx,idx),blt(idx,padd(w.idx,w.len))); int d=decide(in); if(d==0)continue; const Poly*r=psub(idx,w.idx); std::map<int,const Poly*> sb; for(auto&kv:w.kv){ Q one; const Poly*q= pisconst(kv.second,&one)&&one==1? r : fdiv(r,kv.second); sb[kv.first]=q; r=psub(r,pmul(kv.second,q)); }
        if(!r->t.empty()){ const BNode*z=bcmp(B_EQ,r); int dz=decide(z); if(dz==0) continue; if(dz<0){ in=band(in,z); d=-1; } }
        Val x=w.v; if(x.k==Val::POLY){ const Poly*q=resimp(psubst(x.p(),sb)); x=isFP(t)?mkF(applySubst(q),t):mkI(applySubst(q),W(t)); } else if(x.k==Val::BOOL) x=VB(bsubst(x.b(),sb));
        if(d==1) return x; RdG g_{rdConds,rdConds.size()}; rdConds.push_back(in); Val rest=readArr(A,idx,i,t); return iteV(in,x,rest,t); }
      else { const BNode*in=band(ble(w.idx,idx),blt(idx,padd(w.idx,w.len))); int d=decide(in); if(d==0)continue; Val x; if(w.kind==1) x=w.v; else { RdG g_{rdConds,rdConds.size(),rdConds}; rdConds.clear(); x=readArr(w.src,padd(psub(idx,w.idx),w.soff),(int)w.src->w.size(),t); } if(d==1)return x; RdG g_{rdConds,rdConds.size()}; rdConds.push_back(in); Val rest=readArr(A,idx,i,t); return iteV(in,x,rest,t); } }
    if(!rdConds.empty()&&(A->base==0||A->name.rfind("havoc",0)==0)){ const BNode*any=bF(); for(auto*c:rdConds) any=bor(any,c); if(decide(any)==1) return VC(0); if(getenv("FTKV_DEBUG")) std::cerr<<"not covered: "<<bstr(any)<<" at "<<where()<<"\n"; } // an earlier write always supplies the value
    if(A->base==0) return undefVal(t); if(A->base==1) return A->cv;
    if(isFP(t)) return VP(psel(A->name,idx,false,A->iv)); return VP(psel(A->name,idx,true,A->iv)); }
  Val iteV(const BNode*c,const Val&a,const Val&b,Type*t){ if(c->k==B_T)return a; if(c->k==B_F)return b; if(t->isIntegerTy(1)) return VB(bite(c,bb_(a),bb_(b))); if(isFP(t)){ return mkF(pite(c,fp(a,t),fp(b,t)),t);} return mkI(pite(c,ip(a,t),ip(b,t)),W(t)); }
  void ensureArr(Obj&o,unsigned elem,bool isfp){ if(!o.d->arr){ Data&d=wr(o); d.arr=std::make_shared<ArrData>(); d.arr->elem=elem; d.arr->fp=isfp; } }
  const Poly* elemIdx(const Poly*off,unsigned elem){ const Poly*q=pscale(off,Q(1)/Q((unsigned long)elem)); if(!q->isInt) throw Unsupported("unaligned symbolic array access "+pstr(off,2)); return q; }
  Val load(const Val&ptr,Type*t){
    if(t->isStructTy()||t->isArrayTy()){ std::vector<Val> r; if(auto*st=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) r.push_back(load(padc(ptr,sl->getElementOffset(i)),st->getElementType(i))); } else { auto*at=cast<ArrayType>(t); u64 es=DL->getTypeAllocSize(at->getElementType()); for(unsigned i=0;i<at->getNumElements();i++) r.push_back(load(padc(ptr,i*es),at->getElementType())); } return VA(r); }
    if(t->isVectorTy()) throw Unsupported("vector load");
    u64 n=DL->getTypeStoreSize(t); Loc l=locate(ptr,n);
    Obj&o=S->objs[l.id];
    if(tr&&l.id<tr->nobj&&(!l.c||o.d->arr||o.ssize)) tr->rd.push_back(Rec{l.id,false,0,(unsigned)n,elemIdx(l.c?pconst(qi(l.off)):l.so,n),t,nullptr});
    if(!l.c){ if(o.ssize) oblige(band(ble(pconst(0),l.so),ble(padd(l.so,pconst(Q((unsigned long)n))),o.ssize)),"memory-safety"); else oblige(band(ble(pconst(0),l.so),ble(padd(l.so,pconst(Q((unsigned long)n))),pconst(Q((unsigned long)o.size)))),"memory-safety");
      Obj&o2=S->objs[l.id]; ensureArr(o2,n,isFP(t)); if(o2.d->arr->elem!=n) throw Unsupported("array element size mismatch"); return readArr(o2.d->arr,elemIdx(l.so,n),(int)o2.d->arr->w.size(),t); }
    if(o.d->arr) { const Poly*so=pconst(qi(l.off)); if(o.d->arr->elem!=n) throw Unsupported("array element size mismatch"); return readArr(o.d->arr,elemIdx(so,n),(int)o.d->arr->w.size(),t); }
    Data&d=*o.d; u64 off=l.off; bool conc=true; for(u64 i=0;i<n;i++) if(d.st[off+i]!=1){conc=false;break;}
    if(conc){ u64 c=0; memcpy(&c,&d.by[off],n>8?8:n); if(n>8) throw Unsupported("wide load"); if(t->isIntegerTy()) c=mask(c,W(t)); return VC(c); }
    if(d.st[off]==2){ auto it=d.sym.find(off); if(it!=d.sym.end()&&it->second.size==n){ Val v=it->second.v; 
        if(t->isIntegerTy(1)&&v.k==Val::POLY) return VB(bnot(bcmp(B_EQ,v.p()))); 
        if(t->isIntegerTy(8)&&v.k==Val::BOOL) return VP(pite(v.b(),pconst(1),pconst(0))); return v; } 
      if(it!=d.sym.end()&&it->second.size>n&&t->isIntegerTy()&&it->second.v.k==Val::POLY&&it->second.v.p()->isInt){ // little-endian low part
        return truncTo(it->second.v.p(),(unsigned)(n*8)); } }
    bool anyinit=false; for(u64 i=0;i<n;i++) if(d.st[off+i]!=0) anyinit=true;
    if(!anyinit){ Val v=undefVal(t); storeRaw(l.id,off,n,v); return v; }
    if(t->isIntegerTy()){ // assemble from pieces
      const Poly*acc=pconst(0); bool ok=true; u64 i=0; while(i<n){ if(d.st[off+i]==2){ auto it=d.sym.find(off+i); if(it==d.sym.end()||it->second.size+i>n||it->second.v.k==Val::AGG){ok=false;break;} unsigned sz=it->second.size; const Poly*v; if(it->second.v.k==Val::BOOL) v=pite(it->second.v.b(),pconst(1),pconst(0)); else { v=it->second.v.p(); if(!v->isInt){ok=false;break;} if(i+sz<n) v=toUnsigned(v,sz*8); } Z m=1; m<<=(8*i); acc=padd(acc,pscale(v,Q(m))); i+=sz; } 
        else if(d.st[off+i]==1){ Z m=d.by[off+i]; m<<=(8*i); if(i==n-1&&(d.by[off+i]&0x80)){ Z s=1; s<<=(8*n); m-=s; } acc=padd(acc,pconst(Q(m))); i++; } else if(d.st[off+i]==0){ i++; } else {ok=false;break;} }
      if(ok) return mkI(acc,W(t)); }
    throw Unsupported("mixed load"); }
  void clearRange(Data&d,u64 off,u64 n){ auto it=d.sym.lower_bound(off); if(it!=d.sym.begin()){ auto pr=std::prev(it); if(pr->first+pr->second.size>off){ // partial overlap from left
        for(u64 i=pr->first;i<pr->first+pr->second.size;i++) d.st[i]=0; d.sym.erase(pr); } }
    it=d.sym.lower_bound(off); while(it!=d.sym.end()&&it->first<off+n){ for(u64 i=it->first;i<it->first+it->second.size&&i<d.st.size();i++) d.st[i]=0; it=d.sym.erase(it); } }
  void storeRaw(u64 id,u64 off,u64 n,const Val&v){ Obj&o=S->objs[id]; Data&d=wr(o); if(!d.sym.empty()) clearRange(d,off,n);
    if(v.k==Val::CONC){ if(n>8) { memset(&d.by[off],0,n); memcpy(&d.by[off],&v.c,8);} else memcpy(&d.by[off],&v.c,n); memset(&d.st[off],1,n); }
    else if(v.k==Val::UNDEF){ memset(&d.st[off],0,n); }
    else { d.st[off]=2; for(u64 i=1;i<n;i++) d.st[off+i]=3; d.sym[off]=Cell{n,v}; } }
  Val padc(const Val&p,u64 c){ if(c==0)return p; if(p.k==Val::CONC) return VC(p.c+c); return mkI(padd(p.p(),pconst(Q((unsigned long)c))),64); }
  void store(const Val&ptr,const Val&v,Type*t){
    if(v.k==Val::AGG){ if(auto*st=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) store(padc(ptr,sl->getElementOffset(i)),v.agg()[i],st->getElementType(i)); } else { auto*at=cast<ArrayType>(t); u64 es=DL->getTypeAllocSize(at->getElementType()); for(unsigned i=0;i<at->getNumElements();i++) store(padc(ptr,i*es),v.agg()[i],at->getElementType()); } return; }
    if(t->isVectorTy()) throw Unsupported("vector store");
    u64 n=DL->getTypeStoreSize(t); Loc l=locate(ptr,n); Obj&o=S->objs[l.id]; 
    if(tr&&l.id<tr->nobj){ if(!l.c||o.d->arr) tr->wt.push_back(Rec{l.id,false,0,(unsigned)n,elemIdx(l.c?pconst(qi(l.off)):l.so,n),t,nullptr}); else tr->wt.push_back(Rec{l.id,true,l.off,(unsigned)n,nullptr,t,nullptr}); }
    if(!l.c||o.d->arr){ const Poly*so=l.c?pconst(qi(l.off)):l.so; const Poly*sz=o.ssize?o.ssize:pconst(Q((unsigned long)o.size)); oblige(band(ble(pconst(0),so),ble(padd(so,pconst(Q((unsigned long)n))),sz)),"memory-safety"); Obj&o2=S->objs[l.id]; ensureArr(o2,n,isFP(t)); if(o2.d->arr->elem!=n) throw Unsupported("array element size mismatch (store)");
      Data&d=wr(o2); d.arr=std::make_shared<ArrData>(*d.arr); ArrWrite w; w.kind=0; w.idx=elemIdx(so,n); w.v=v; if(v.k==Val::UNDEF) w.v=undefVal(t); d.arr->w.push_back(w); return; }
    if(o.ro) memfail("write to read-only object");
    storeRaw(l.id,l.off,n,v); }
  void memcopy(const Val&dst,const Val&src,const Val&len,bool){
    Val L=len; if(L.k==Val::POLY) L=mkI(applySubst(L.p()),64);
    if(L.k!=Val::CONC){ // symbolic length : array objects
      const Poly*n=L.p(); if(decide(bcmp(B_EQ,n))==1) return; 
      Loc a=locate(src,0); Loc b=locate(dst,0); Obj&so=S->objs[a.id]; if(!so.d->arr) { if(so.ssize||!a.c){ ensureArr(so,8,true);} else { throw Unsupported("symbolic-length copy from concrete object"); } }
      unsigned el=so.d->arr->elem; const Poly*soff=elemIdx(a.c?pconst(qi(a.off)):a.so,el),*doff=elemIdx(b.c?pconst(qi(b.off)):b.so,el),*ln=elemIdx(n,el);
      auto szOf=[&](Obj&o){return o.ssize?o.ssize:pconst(Q((unsigned long)o.size));};
      oblige(band(ble(pconst(0),soff),ble(pscale(padd(soff,ln),Q(el)),szOf(S->objs[a.id]))),"memory-safety"); oblige(band(ble(pconst(0),doff),ble(pscale(padd(doff,ln),Q(el)),szOf(S->objs[b.id]))),"memory-safety");
      if(tr){ if(a.id<tr->nobj) tr->rd.push_back(Rec{a.id,false,0,el,soff,nullptr,ln}); if(b.id<tr->nobj) tr->wt.push_back(Rec{b.id,false,0,el,doff,nullptr,ln}); }
      Obj&o=S->objs[b.id]; ensureArr(o,el,S->objs[a.id].d->arr->fp); auto snap=S->objs[a.id].d->arr; Data&d=wr(o); d.arr=std::make_shared<ArrData>(*d.arr); d.arr->elem=el; ArrWrite w; w.kind=2;w.idx=doff;w.len=ln;w.src=snap;w.soff=soff; d.arr->w.push_back(w); return; }
    u64 n=L.c; if(n==0)return; Loc a=locate(src,n),b=locate(dst,n); 
    if(!a.c||!b.c||S->objs[a.id].d->arr||S->objs[b.id].d->arr){ Obj&so=S->objs[a.id]; unsigned el= so.d->arr? so.d->arr->elem : S->objs[b.id].d->arr?S->objs[b.id].d->arr->elem:8; Type*t= (so.d->arr?so.d->arr->fp:S->objs[b.id].d->arr&&S->objs[b.id].d->arr->fp)? Type::getDoubleTy(g_ctx): (Type*)Type::getIntNTy(g_ctx,el*8); if(n/el>64) { throw Unsupported("long copy into array object"); } std::vector<Val> vs; for(u64 i=0;i<n;i+=el) vs.push_back(load(padc(src,i),t)); for(u64 i=0;i<n;i+=el) store(padc(dst,i),vs[i/el],t); return; }
    if(tr&&b.id<tr->nobj){ u64 i=0; while(i<n){ unsigned k=n-i>=8?8:n-i>=4?4:n-i>=2?2:1; tr->wt.push_back(Rec{b.id,true,b.off+(i64)i,k,nullptr,nullptr,nullptr}); i+=k; } }
    std::vector<uint8_t> by,st; std::vector<std::pair<u64,Cell>> cs; { Data&s=*S->objs[a.id].d; by.assign(s.by.begin()+a.off,s.by.begin()+a.off+n); st.assign(s.st.begin()+a.off,s.st.begin()+a.off+n);
      // partial cells -> uninit
      auto it=s.sym.lower_bound(a.off); for(;it!=s.sym.end()&&it->first<a.off+n;++it){ if(it->first+it->second.size<=a.off+n) cs.push_back({it->first-a.off,it->second}); else for(u64 i=it->first-a.off;i<n;i++) st[i]=0; }
      for(u64 i=0;i<n&&st[i]==3;i++) st[i]=0; }
    Data&d=wr(S->objs[b.id]); clearRange(d,b.off,n); memcpy(&d.by[b.off],by.data(),n); memcpy(&d.st[b.off],st.data(),n); for(auto&c:cs) d.sym[b.off+c.first]=c.second; }
  void memfill(const Val&dst,const Val&val,const Val&len){ Val L=len; if(L.k==Val::POLY) L=mkI(applySubst(L.p()),64);
    if(L.k!=Val::CONC){ Loc b=locate(dst,0); if(val.k!=Val::CONC||val.c!=0) throw Unsupported("symbolic memset nonzero"); Obj&o=S->objs[b.id]; if(!o.d->arr) ensureArr(o,8,true); unsigned el=o.d->arr->elem; const Poly*off=elemIdx(b.c?pconst(qi(b.off)):b.so,el),*ln=elemIdx(L.p(),el); if(tr&&b.id<tr->nobj) tr->wt.push_back(Rec{b.id,false,0,el,off,nullptr,ln}); oblige(ble(pscale(padd(off,ln),Q(el)),o.ssize?o.ssize:pconst(Q((unsigned long)o.size))),"memory-safety"); Obj&o2=S->objs[b.id]; Data&d=wr(o2); d.arr=std::make_shared<ArrData>(*d.arr); ArrWrite w; w.kind=1;w.idx=off;w.len=ln;w.v=VC(0); d.arr->w.push_back(w); return; }
    u64 n=L.c; if(!n)return; Loc b=locate(dst,n); if(!b.c||S->objs[b.id].d->arr){ Obj&o=S->objs[b.id]; if(!o.d->arr) ensureArr(o,8,true); unsigned el=o.d->arr->elem; const Poly*off=elemIdx(b.c?pconst(qi(b.off)):b.so,el); if(n%el) throw Unsupported("memset"); if(tr&&b.id<tr->nobj) tr->wt.push_back(Rec{b.id,false,0,el,off,nullptr,pconst(Q((unsigned long)(n/el)))}); Data&d=wr(o); d.arr=std::make_shared<ArrData>(*d.arr); ArrWrite w; w.kind=1;w.idx=off;w.len=pconst(Q((unsigned long)(n/el)));w.v=VC(0); if(!(val.k==Val::CONC&&val.c==0)) throw Unsupported("memset nz"); d.arr->w.push_back(w); return; }
    if(tr&&b.id<tr->nobj){ u64 i=0; while(i<n){ unsigned k=n-i>=8?8:n-i>=4?4:n-i>=2?2:1; tr->wt.push_back(Rec{b.id,true,b.off+(i64)i,k,nullptr,nullptr,nullptr}); i+=k; } }
    Data&d=wr(S->objs[b.id]); clearRange(d,b.off,n); if(val.k!=Val::CONC) throw Unsupported("symbolic memset value"); memset(&d.by[b.off],(int)val.c,n); memset(&d.st[b.off],1,n); }
  // ---------- integer helpers
  bool inRange(const Poly*p,const Q&lo,const Q&hi){ Iv iv=pbounds(p,&S->bd); if(iv.l&&iv.h&&iv.lo>=lo&&iv.hi<=hi)return true; return false; }
  bool provRange(const Poly*p,const Q&lo,const Q&hi){ if(inRange(p,lo,hi))return true; return known(ble(pconst(lo),p),0)&&known(ble(p,pconst(hi)),0); }
  const Poly* toUnsigned(const Poly*p,unsigned w){ Z one=1; Iv iv=pbounds(p,&S->bd); if(iv.l&&iv.lo>=0)return p; const BNode*neg=blt(p,pconst(0)); int d=decide(neg); if(d==0)return p; Q m(one<<w); if(d==1) return padd(p,pconst(m)); return padd(p,pite(neg,pconst(m),pconst(0))); }
  Val wrapS(const Poly*p,unsigned w){ Z one=1; Q hi((one<<(w-1))-1),lo(-(one<<(w-1))); Q c; if(pisconst(p,&c)) return mkI(p,w); if(provRange(p,lo,hi)) return VP(p); // exact wrap
    Q h(one<<(w-1)),m(one<<w); const Poly*s=padd(p,pconst(h)); return mkI(psub(p,pscale(fdiv(s,pconst(m)),m)),w); }
  Val truncTo(const Poly*p,unsigned w){ if(w==1){ return VB(parity(p)); } return wrapS(p,w); }
  const BNode* parity(const Poly*p){ Iv iv=pbounds(p,&S->bd); if(iv.l&&iv.h&&iv.lo>=0&&iv.hi<=1) return bnot(bcmp(B_EQ,p)); return beq(psub(p,pscale(fdiv(p,pconst(2)),2)),pconst(1)); }
  Val arith(const Poly*p,unsigned w,Instruction*I){ Q c; if(pisconst(p,&c)) return mkI(p,w); Z one=1; Q hi((one<<(w-1))-1),lo(-(one<<(w-1))); if(inRange(p,lo,hi)) return VP(p);
    // machine arithmetic treated as mathematical (recorded)
    if(w<32) return wrapS(p,w);
    if(S->ovf&&I) if(auto*ob=dyn_cast<OverflowingBinaryOperator>(I)) if(ob->hasNoSignedWrap()){ oblige(band(ble(pconst(lo),p),ble(p,pconst(hi))),"no-overflow"); return VP(applySubst(p)); }
    assum["integer arithmetic assumed not to wrap (i"+std::to_string(w)+")"]++; return VP(p); }
  // floor division with simplification; divisor known positive
  const Poly* fdiv(const Poly*x,const Poly*y){ Q c; const Poly*A,*R; pdivmod(x,y,&A,&R); 
    if(R->t.empty()&&A->isInt) return A;
    if(A->isInt){ // candidate: 0<=R<y
      if(R->t.empty()) return A; Iv ir=pbounds(R,&S->bd),iy=pbounds(y,&S->bd); bool ok = ir.l&&ir.lo>=0&&ir.h&&iy.l&&ir.hi<iy.lo; 
      if(!ok && !pisconst(y)) ok=known(ble(pconst(0),R),0)&&known(blt(R,y),0); else if(!ok&&pisconst(y)&&R!=x) ok=false; 
      if(!ok&&pisconst(y)) ok=ir.l&&ir.h&&known(ble(pconst(0),R),0)&&known(blt(R,y),0);
      if(ok) return A;
      // R in [-y,0): floor is A-1
      bool neg=false; for(auto&t:R->t) if(t.c<0) neg=true;
      if(!pisconst(y)&&neg&&known(blt(R,pconst(0)),0)&&known(ble(pneg(y),R),0)) return psub(A,pconst(1));
      // leading coefficient not a multiple: take the floor of the ratio
      if(!pisconst(y)&&!y->t.empty()) for(auto&t:R->t) if(t.m==y->t[0].m){ Q r=t.c/y->t[0].c; Z f; mpz_fdiv_q(f.get_mpz_t(),r.get_num_mpz_t(),r.get_den_mpz_t()); if(f!=0){ const Poly*R2=psub(R,pscale(y,Q(f))); if(R2->isInt&&known(ble(pconst(0),R2),0)&&known(blt(R2,y),0)) return padd(A,pconst(Q(f))); if(known(ble(pconst(0),padd(R2,y)),0)&&known(blt(R2,pconst(0)),0)) return padd(A,pconst(Q(f)-1)); } break; }
      if(!pisconst(y)&&A->t.size()&&known(ble(R,pconst(0)),0)&&known(blt(pneg(y),R),0)) return padd(A,pite(blt(R,pconst(0)),pconst(-1),pconst(0)));
      if(A->t.size()) return padd(A,pidiv(R,y)); }
    return pidiv(x,y); }
  // truncating signed division
  const Poly* sdivT(const Poly*x,const Poly*y){ 
    int yp=decide(blt(pconst(0),y)); if(yp!=1){ int yn=decide(blt(y,pconst(0))); if(yn==1){ return pneg(sdivT(x,pneg(y))); } Q dummy; bool pos=branch(blt(pconst(0),y)); if(!pos) return pneg(sdivT(x,pneg(y))); }
    Iv iv=pbounds(x,&S->bd); if(iv.l&&iv.lo>=0) return fdiv(x,y); int d=decide(ble(pconst(0),x)); if(d==1) return fdiv(x,y); if(d==0) return pneg(fdiv(pneg(x),y));
    return pite(ble(pconst(0),x),fdiv(x,y),pneg(fdiv(pneg(x),y))); }
  // ---------- constants
  Val constVal(const Constant*c){ Type*t=c->getType();
    if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()>64){ return VP(pconst(Q(Z([&]{SmallString<64> ss; ci->getValue().toString(ss,10,true); return ss.str().str();}())))); } return VC(ci->getZExtValue()); }
    if(auto*cf=dyn_cast<ConstantFP>(c)){ if(t->isDoubleTy()) return VC(d2bits(cf->getValueAPF().convertToDouble())); if(t->isFloatTy()) return VC(f2bits(cf->getValueAPF().convertToFloat())); 
      bool li; APFloat a=cf->getValueAPF(); a.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&li); return VP(pconst(Q(a.convertToDouble()))); }
    if(isa<ConstantPointerNull>(c)) return VC(0);
    if(isa<UndefValue>(c)){ if(t->isStructTy()||t->isArrayTy()){ std::vector<Val> r; unsigned n=t->isStructTy()?t->getStructNumElements():t->getArrayNumElements(); for(unsigned i=0;i<n;i++) r.push_back(constVal(UndefValue::get(t->isStructTy()?t->getStructElementType(i):t->getArrayElementType()))); return VA(r);} return Val(); }
    if(isa<ConstantAggregateZero>(c)||isa<ConstantStruct>(c)||isa<ConstantArray>(c)||isa<ConstantDataSequential>(c)){ unsigned n=t->isStructTy()?t->getStructNumElements():t->isArrayTy()?t->getArrayNumElements():0; if(!n&&t->isVectorTy()) throw Unsupported("vector const"); std::vector<Val> r; for(unsigned i=0;i<n;i++) r.push_back(constVal(c->getAggregateElement(i))); return VA(r); }
    if(auto*g=dyn_cast<GlobalValue>(c)) return VC(gaddr.lookup(g));
    if(auto*ce=dyn_cast<ConstantExpr>(c)){ switch(ce->getOpcode()){ case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
        case Instruction::GetElementPtr: { APInt off(64,0); if(!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL,off)) throw Unsupported("const gep"); Val b=constVal(ce->getOperand(0)); return VC(b.c+off.getSExtValue()); }
        case Instruction::Sub: return VC(constVal(ce->getOperand(0)).c-constVal(ce->getOperand(1)).c); case Instruction::Add: return VC(constVal(ce->getOperand(0)).c+constVal(ce->getOperand(1)).c);
        case Instruction::Trunc: return VC(mask(constVal(ce->getOperand(0)).c,W(t)));
        case Instruction::ICmp: { Val a=constVal(ce->getOperand(0)),b=constVal(ce->getOperand(1)); if(ce->getPredicate()==CmpInst::ICMP_NE) return VC(a.c!=b.c); if(ce->getPredicate()==CmpInst::ICMP_EQ) return VC(a.c==b.c); break; }
        default: break; } throw Unsupported("constexpr "+std::string(ce->getOpcodeName())); }
    throw Unsupported("constant"); }
  void initConst(u64 id,u64 off,const Constant*c){ Type*t=c->getType(); if(isa<UndefValue>(c))return; if(isa<ConstantAggregateZero>(c)){ u64 n=DL->getTypeStoreSize(t); Data&d=*S->objs[id].d; memset(&d.st[off],1,n); return; }
    if(t->isStructTy()){ auto*sl=DL->getStructLayout(cast<StructType>(t)); for(unsigned i=0;i<t->getStructNumElements();i++) initConst(id,off+sl->getElementOffset(i),c->getAggregateElement(i)); return; }
    if(t->isArrayTy()){ u64 es=DL->getTypeAllocSize(t->getArrayElementType()); for(unsigned i=0;i<t->getArrayNumElements();i++) initConst(id,off+i*es,c->getAggregateElement(i)); return; }
    if(t->isX86_FP80Ty()||t->isVectorTy()) return;
    Val v; try{ v=constVal(c);}catch(Unsupported&){return;} storeRaw(id,off,DL->getTypeStoreSize(t),v); }
  FInfo* info(Function*F){ auto it=fi.find(F); if(it!=fi.end())return it->second.get(); auto f=std::make_unique<FInfo>(); f->F=F; DenseMap<const Value*,int> slot; int n=0; for(auto&a:F->args()) slot[&a]=n++; int b=0; for(auto&B:*F){ f->bbi[&B]=b++; for(auto&I:B) if(!I.getType()->isVoidTy()) slot[&I]=n++; } f->nslots=n;
    for(auto&B:*F){ std::vector<DI> v; for(auto&I:B){ if(auto*ci=dyn_cast<CallInst>(&I)) if(auto*cf=ci->getCalledFunction()){ StringRef n=cf->getName(); if(n.starts_with("llvm.lifetime")||n.starts_with("llvm.dbg")||n.starts_with("llvm.assume")||n.starts_with("llvm.experimental.noalias")) continue; } DI d; d.I=&I; d.op=I.getOpcode(); d.dst=I.getType()->isVoidTy()?-1:slot[&I]; for(auto&u:I.operands()){ Value*x=u.get(); if(auto*c=dyn_cast<Constant>(x)){ Val cv; bool ok=true; try{cv=constVal(c);}catch(Unsupported&){ok=false; cv=Val();} f->cst.push_back(cv); f->cstv.push_back(c); d.o.push_back(-(int)f->cst.size()); } else if(isa<BasicBlock>(x)||isa<MetadataAsValue>(x)||isa<InlineAsm>(x)) d.o.push_back(INT_MAX); else d.o.push_back(slot[x]); } if(auto*G=dyn_cast<GetElementPtrInst>(&I)){ unsigned gi=1; for(auto it=gep_type_begin(G),e=gep_type_end(G);it!=e;++it,++gi){ if(StructType*st=it.getStructTypeOrNull()) d.goff+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(G->getOperand(gi))->getZExtValue()); else { i64 es=DL->getTypeAllocSize(it.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(G->getOperand(gi))) d.goff+=ci->getSExtValue()*es; else { Type*ity=G->getOperand(gi)->getType(); d.g.push_back(GI{(int)gi,es,W(ity),ity}); } } } }
        if(auto*B=dyn_cast<BranchInst>(&I)){ d.s0=f->bbi[B->getSuccessor(0)]; if(B->isConditional()) d.s1=f->bbi[B->getSuccessor(1)]; }
        if(auto*ph=dyn_cast<PHINode>(&I)) for(unsigned q=0;q<ph->getNumIncomingValues();q++) d.inb.push_back(f->bbi[ph->getIncomingBlock(q)]);
        if(I.getType()->isIntegerTy()) d.w=I.getType()->getIntegerBitWidth(); if(isa<ICmpInst>(&I)){ Type*ot=I.getOperand(0)->getType(); d.w=ot->isIntegerTy()?ot->getIntegerBitWidth():ot->isPointerTy()?64:0; }
        v.push_back(d);} f->bb.push_back(std::move(v)); }
    if(!F->isDeclaration()){ DominatorTree DT(*F); LoopInfo LI(DT); f->hdr.assign(f->bb.size(),-1); f->inl=f->hdr; for(Loop*L:LI.getLoopsInPreorder()){ int h=f->bbi[L->getHeader()]; f->hdr[h]=f->loops.size(); f->lhead.push_back(h); for(auto*B:L->blocks()) f->inl[f->bbi[B]]=f->loops.size(); std::vector<char> in(f->bb.size(),0); for(auto*B:L->blocks()) in[f->bbi[B]]=1; f->loops.push_back(std::move(in)); } }
    auto*r=f.get(); fi[F]=std::move(f); return r; }
  const Val& opv(Frame&fr,const DI&d,int i){ int o=d.o[i]; return o>=0?fr.r[o]:fr.f->cst[-o-1]; }
  void setup(){ DL=&M->getDataLayout(); S=new State(); S->objs.resize(1); // null
    for(auto&F:*M){ u64 id=S->objs.size(); Obj o; o.size=1; o.fn=&F; o.d=std::make_shared<Data>(); S->objs.push_back(o); gaddr[&F]=baseOf(id); }
    std::vector<GlobalVariable*> gs; for(auto&G:M->globals()){ Type*t=G.getValueType(); u64 sz=t->isSized()?(u64)DL->getTypeAllocSize(t):8; if(sz==0)sz=1; u64 id=newObj(sz,!G.hasInitializer()); gaddr[&G]=baseOf(id); if(G.hasInitializer()) gs.push_back(&G); if(!G.hasInitializer()&&G.getName()=="__libc_single_threaded"){ S->objs[id].d->by[0]=1; } }
    for(auto&A:M->aliases()){ if(auto*g=dyn_cast<GlobalValue>(A.getAliasee()->stripPointerCasts())) gaddr[&A]=gaddr[g]; }
    for(auto*G:gs){ u64 id=gaddr[G]>>32; initConst(id,0,G->getInitializer()); } }
  // ---------- calls
  std::vector<std::vector<Val>> rpool;
  void pushCall(Function*F,std::vector<Val> args,int dst,int cbb){ FInfo*f=info(F); execd[F]++; Frame fr; fr.f=f; if(!rpool.empty()){ fr.r=std::move(rpool.back()); rpool.pop_back(); fr.r.assign(f->nslots,Val()); } else fr.r.resize(f->nslots); for(size_t i=0;i<args.size()&&i<F->arg_size();i++) fr.r[i]=args[i]; fr.dst=dst; fr.cbb=cbb; if(S->st.size()>400){ throw Unsupported("recursion too deep"); }
    // byval args
    unsigned i=0; for(auto&a:F->args()){ if(a.hasByValAttr()){ u64 n=DL->getTypeAllocSize(a.getParamByValType()); u64 id=newObj(n); memcopy(VC(baseOf(id)),fr.r[i],VC(n),false); fr.r[i]=VC(baseOf(id)); fr.al.push_back(id);} i++; }
    S->st.push_back(std::move(fr)); }
  void finishCall(int dst,int cbb,const Val&v){ Frame&fr=S->st.back(); if(dst>=0) fr.r[dst]=v; if(cbb>=0){ fr.prev=fr.bb; fr.bb=cbb; fr.ip=0; if(!fr.tried.empty()) untry(fr); doPhis(); } else fr.ip++; }
  void doThrow(const std::string&what){ if(S->allowThrow){ thrown++; S->threw=true; throw std::string("thrown"); }
    oblige(bF(),"no-exception"); throw std::string("dead"); }
  std::string cstr(const Val&p){ std::string s; Val q=p; for(int i=0;i<400;i++){ Val c=load(padc(q,i),Type::getInt8Ty(g_ctx)); if(c.k!=Val::CONC||c.c==0)break; s+=(char)c.c; } return s; }
  const Poly* fabsP(const Poly*p){ Iv iv=pbounds(p,&S->bd); if(iv.l&&iv.lo>=0)return p; if(iv.h&&iv.hi<=0)return pneg(p); const BNode*c=ble(pconst(0),p); if(S->pcs.count(c))return p; if(S->pcs.count(bnot(c)))return pneg(p); return pite(c,p,pneg(p)); }
  bool mathCall(StringRef n,std::vector<Val>&a,CallBase*CB,Val&out){ Type*t=CB->getType(); std::string s=n.str(); if(StringRef(s).starts_with("llvm.")){ s=s.substr(5); s=s.substr(0,s.find('.')); } 
    static const std::set<std::string> f1={"sqrt","fabs","floor","ceil","round","trunc","rint","nearbyint","exp","exp2","log","log2","log10","sin","cos","tan","acos","asin","atan","cbrt","sinh","cosh","tanh"}; static const std::set<std::string> f2={"pow","atan2","fmod","hypot","fmax","fmin","copysign","maxnum","minnum"};
    if(!isFP(t)){ if(s=="lround"||s=="llround"||s=="lrint"){ const Poly*x=fp(a[0],CB->getArgOperand(0)->getType()); out=mkI(pite(ble(pconst(0),x),pfloor(padd(x,pconst(Q(1,2)))),pneg(pfloor(psub(pconst(Q(1,2)),x)))),64); return true;} return false; }
    if(!s.empty()&&s.back()=='f'&&s!="erf"&&(f1.count(s.substr(0,s.size()-1))||f2.count(s.substr(0,s.size()-1))||s=="fmaf")) s.pop_back();
    if(s=="fma"||s=="fmuladd"){ out=mkF(padd(pmul(fp(a[0],t),fp(a[1],t)),fp(a[2],t)),t); return true; }
    bool sp=false; for(auto&x:a) if(special(x,t)) sp=true;
    if(f1.count(s)){ if(sp){ double d=concD(a[0],t),r; if(s=="fabs")r=std::fabs(d); else if(s=="sqrt")r=std::sqrt(d); else if(s=="floor"||s=="ceil"||s=="round"||s=="trunc") r=d; else throw Unsupported("math on special"); out=VC(t->isFloatTy()?f2bits(r):d2bits(r)); return true; }
      const Poly*x=fp(a[0],t); if(s=="fabs"){ out=mkF(fabsP(x),t); return true; }
      if(s=="floor"){ out=mkF(redFloor(pfloor(x)),t);return true;} if(s=="ceil"){ out=mkF(pneg(pfloor(pneg(x))),t);return true;}
      if(s=="trunc"){ out=mkF(pite(ble(pconst(0),x),pfloor(x),pneg(pfloor(pneg(x)))),t); return true; }
      if(s=="round"){ out=mkF(pite(ble(pconst(0),x),pfloor(padd(x,pconst(Q(1,2)))),pneg(pfloor(psub(pconst(Q(1,2)),x)))),t); return true; }
      if(s=="sqrt"){ oblige(ble(pconst(0),x),"sqrt-domain"); for(auto*h:S->sqrtHints) if(resimp(psub(x,pmul(h,h)))->t.empty()){ out=mkF(h,t); return true; } out=mkF(psqrt(x),t); return true; }
      Q c; if(pisconst(x,&c)&&c==0){ if(s=="sin"||s=="tan"||s=="atan"||s=="asin"||s=="cbrt"||s=="sinh"||s=="tanh"){out=mkF(pconst(0),t);return true;} if(s=="cos"||s=="exp"||s=="exp2"||s=="cosh"){out=mkF(pconst(1),t);return true;} }
      assum["uninterpreted math function "+s]++; out=VP(puf(s,{x},false)); return true; }
    if(f2.count(s)){ if(sp){ if(s=="fmax"||s=="fmin"||s=="maxnum"||s=="minnum"){ throw Unsupported("fmax special"); } throw Unsupported("math2 on special"); } const Poly*x=fp(a[0],t),*y=fp(a[1],t); if(s=="fmax"||s=="maxnum"){ out=mkF(pite(ble(y,x),x,y),t);return true;} if(s=="fmin"||s=="minnum"){ out=mkF(pite(ble(x,y),x,y),t);return true;}
      if(s=="fmod"){ Q c; if(pisconst(y,&c)&&c>0){ const Poly*q=pscale(x,1/c); const Poly*tr=pite(ble(pconst(0),x),pfloor(q),pneg(pfloor(pneg(q)))); out=mkF(psub(x,pscale(tr,c)),t); return true; } }
      if(s=="pow"){ Q c; if(pisconst(y,&c)&&c.get_den()==1&&abs(c)<=8){ long e=c.get_num().get_si(); const Poly*r=pconst(1); for(long i=0;i<std::labs(e);i++) r=pmul(r,x); if(e<0) r=pinv(r); out=mkF(r,t); return true; } if(pisconst(y,&c)&&c==Q(1,2)){ out=mkF(psqrt(x),t); return true; } }
      assum["uninterpreted math function "+s]++; out=VP(puf(s,{x,y},false)); return true; }
    return false; }
  bool external(Function*F,std::vector<Val>&a,CallBase*CB,Val&out){
    StringRef n=F->getName(); Type*rt=CB->getType();
    if(n.starts_with("llvm.")){
      if(n.starts_with("llvm.lifetime")||n.starts_with("llvm.dbg")||n.starts_with("llvm.assume")||n.starts_with("llvm.experimental.noalias")||n.starts_with("llvm.prefetch")||n.starts_with("llvm.invariant")||n.starts_with("llvm.var.annotation")) return true;
      if(n.starts_with("llvm.memcpy")||n.starts_with("llvm.memmove")){ memcopy(a[0],a[1],a[2],true); return true; }
      if(n.starts_with("llvm.memset")){ memfill(a[0],a[1],a[2]); return true; }
      if(n.starts_with("llvm.expect")){ out=a[0]; return true; }
      if(n.starts_with("llvm.is.constant")){ out=VC(0);return true; }
      if(n.starts_with("llvm.objectsize")){ out=VC(~0ull);return true; }
      if(n.starts_with("llvm.stacksave")){ out=VC(0);return true; } if(n.starts_with("llvm.stackrestore")) return true;
      if(n.starts_with("llvm.trap")){ oblige(bF(),"no-abort"); throw std::string("dead"); }
      if(n.starts_with("llvm.abs")){ unsigned w=W(rt); const Poly*x=ip(a[0],rt); out=mkI(fabsP(x),w); return true; }
      if(n.starts_with("llvm.smax")||n.starts_with("llvm.smin")||n.starts_with("llvm.umax")||n.starts_with("llvm.umin")){ unsigned w=W(rt); bool mx=n.contains("max"),un=n[5]=='u'; const Poly*x=ip(a[0],rt),*y=ip(a[1],rt); const Poly*ux=un?toUnsigned(x,w):x,*uy=un?toUnsigned(y,w):y; const BNode*c=ble(ux,uy); int d=decide(c); if(d>=0) out=mkI((d==1)==mx?y:x,w); else out=mkI(mx?pite(c,y,x):pite(c,x,y),w); return true; }
      if(n.starts_with("llvm.umul.with.overflow")||n.starts_with("llvm.uadd.with.overflow")){ const Poly*x=ip(a[0],CB->getArgOperand(0)->getType()),*y=ip(a[1],CB->getArgOperand(1)->getType()); const Poly*r=n.contains("mul")?pmul(x,y):padd(x,y); Val v=mkI(r,64); out=VA({v,VC(0)}); assum["integer arithmetic assumed not to wrap (i64)"]++; return true; }
      if(n.starts_with("llvm.eh.typeid")){ out=VC(1);return true;}
      if(n.starts_with("llvm.ctpop")&&a[0].k==Val::CONC){ out=VC(__builtin_popcountll(a[0].c));return true;} if(n.starts_with("llvm.ctlz")&&a[0].k==Val::CONC){ unsigned w=W(rt); out=VC(a[0].c?__builtin_clzll(a[0].c)-(64-w):w);return true;} if(n.starts_with("llvm.cttz")&&a[0].k==Val::CONC){ out=VC(a[0].c?__builtin_ctzll(a[0].c):W(rt));return true;}
      if(n.starts_with("llvm.is.fpclass")){ // mask test
        u64 mk=a[1].c; Type*t=CB->getArgOperand(0)->getType(); if(a[0].k==Val::CONC&&special(a[0],t)){ double d=concD(a[0],t); bool r=std::isnan(d)?(mk&3):(d<0?(mk&4):(mk&512)); out=VC(r);return true;} if((mk&~3ull)==0||(mk&0x1f8)==0){ out=VC(0); return true; } if((mk&0x1f8)==0x1f8){ out=VC(1);return true;} throw Unsupported("fpclass"); }
      if(mathCall(n,a,CB,out)) return true;
      throw Unsupported("intrinsic "+n.str()); }
    if(n.starts_with("__v_")) return vcall(n,a,CB,out);
    if(n=="malloc"||n=="_Znwm"||n=="_Znam"||n=="_ZnwmSt11align_val_t"||n=="_ZnwmRKSt9nothrow_t"){ Val L=a[0]; if(L.k==Val::POLY) L=mkI(applySubst(L.p()),64); 
      if(L.k==Val::CONC){ if(L.c>(1ull<<30)) { doThrow("bad_alloc"); } out=VC(baseOf(newObj(L.c))); } else { Iv iv=pbounds(L.p(),&S->bd); 
        u64 id=newObj(0); S->objs[id].ssize=L.p(); out=VC(baseOf(id)); } return true; }
    if(n=="calloc"){ out=VC(baseOf(newObj(a[0].c*a[1].c,true))); return true; }
    if(n=="free"||n=="_ZdlPv"||n=="_ZdlPvm"||n=="_ZdaPv"||n=="_ZdaPvm"||n=="_ZdlPvSt11align_val_t"||n=="_ZdlPvmSt11align_val_t"){ if(a[0].k==Val::CONC){ if(a[0].c==0)return true; u64 id=a[0].c>>32; if(id>=S->objs.size()||(a[0].c&0xffffffff)!=BIAS) memfail("invalid free"); if(!S->objs[id].alive) memfail("double free"); kill(id); if(!recycle) S->objs[id].d=std::make_shared<Data>(); } return true; }
    if(n=="memcpy"||n=="memmove"){ memcopy(a[0],a[1],a[2],true); out=a[0]; return true; } if(n=="memset"){ memfill(a[0],a[1],a[2]); out=a[0]; return true; }
    if(n=="strlen"){ out=VC(cstr(a[0]).size()); return true; }
    if((n=="memcmp"||n=="bcmp")&&a[0].k==Val::CONC&&a[1].k==Val::CONC&&a[2].k==Val::CONC){ u64 cnt=a[2].c; if(!cnt){out=VC(0);return true;} Loc la=locate(a[0],cnt),lb=locate(a[1],cnt); Data*da=S->objs[la.id].d.get(),*db=S->objs[lb.id].d.get();
      if(!la.c||!lb.c||da->arr||db->arr) throw Unsupported("symbolic memcmp"); bool conc=true; for(u64 i=0;i<cnt&&conc;i++) if(da->st[la.off+i]!=1||db->st[lb.off+i]!=1) conc=false;
      if(conc){ out=VC((uint32_t)memcmp(&da->by[la.off],&db->by[lb.off],cnt)); return true; }
      const BNode*all=bT(); auto csz=[&](Data*d,u64 o)->u64{ if(d->st[o]==2){ auto it=d->sym.find(o); return it==d->sym.end()?0:it->second.size; } return 1; };
      for(u64 i=0;i<cnt;){ u64 k=std::max(csz(da,la.off+i),csz(db,lb.off+i)); if(k!=1&&k!=2&&k!=4&&k!=8) throw Unsupported("symbolic memcmp"); if(i+k>cnt) throw Unsupported("symbolic memcmp"); Type*t=Type::getIntNTy(g_ctx,k*8); Val x=load(padc(a[0],i),t),y=load(padc(a[1],i),t); if((x.k==Val::POLY&&!x.p()->isInt)||(y.k==Val::POLY&&!y.p()->isInt)) throw Unsupported("symbolic memcmp on fp"); all=band(all,beq(ip(x,t),ip(y,t))); i+=k; }
      if(all->k==B_T){ out=VC(0); return true; } const Poly*h=ivar("memcmp"+std::to_string(fresh++),32); addPC(bnot(beq(h,pconst(0)))); out=mkI(pite(all,pconst(0),h),32); return true; }
    if(n=="memcmp"||n=="strcmp"||n=="strncmp"||n=="bcmp"){ u64 cnt=n=="strcmp"?4096:a[2].c; int r=0; for(u64 i=0;i<cnt;i++){ Val x=load(padc(a[0],i),Type::getInt8Ty(g_ctx)),y=load(padc(a[1],i),Type::getInt8Ty(g_ctx)); if(x.k!=Val::CONC||y.k!=Val::CONC) throw Unsupported("symbolic memcmp"); r=(int)(uint8_t)x.c-(int)(uint8_t)y.c; if(r||(n!="memcmp"&&n!="bcmp"&&x.c==0))break; } out=VC((uint32_t)r); return true; }
    if(n=="memchr"){ out=VC(0); for(u64 i=0;i<a[2].c;i++){ Val x=load(padc(a[0],i),Type::getInt8Ty(g_ctx)); if(x.k==Val::CONC&&(uint8_t)x.c==(uint8_t)a[1].c){ out=padc(a[0],i); break; } } return true; }
    if(n=="__cxa_guard_acquire"){ Val g=load(a[0],Type::getInt8Ty(g_ctx)); if(g.k==Val::CONC&&g.c){ out=VC(0);} else { store(a[0],VC(1),Type::getInt8Ty(g_ctx)); out=VC(1);} return true; }
    if(n=="__cxa_guard_release"||n=="__cxa_guard_abort") return true; if(n=="__cxa_atexit"){ out=VC(0); return true; }
    if(n=="__cxa_allocate_exception"){ out=VC(baseOf(newObj(a[0].c))); return true; } if(n=="__cxa_free_exception") return true;
    if(n=="__cxa_throw"||n=="__cxa_rethrow"||n.starts_with("_ZSt20__throw")||n.starts_with("_ZSt17__throw")||n.contains("__throw_")||n.starts_with("_ZSt24__throw")||n.starts_with("_ZSt28__throw")){ doThrow(n.str()); return true; }
    if(n=="abort"||n=="exit"||n=="_exit"||n=="_ZSt9terminatev"||n=="__assert_fail"||n=="__clang_call_terminate"){ if(S->allowThrow){ thrown++; throw std::string("thrown"); } oblige(bF(),"no-abort"); throw std::string("dead"); }
    if(n=="__cxa_pure_virtual"){ oblige(bF(),"no-abort"); throw std::string("dead"); }
    if(mathCall(n,a,CB,out)) return true;
    if(n=="fprintf"||n=="printf"||n=="puts"||n=="putchar"||n=="fputs"||n=="fputc"||n=="fwrite"||n=="fflush"||n=="vfprintf"){ exts[n.str()]++; out=VC(1); return true; }
    if(n=="time"||n=="clock"){ exts[n.str()]++; out=VP(ivar("ext"+std::to_string(fresh++),64)); return true; }
    std::string dm=demangle(n.str());
    if(n.starts_with("_ZNSo")||n.starts_with("_ZStls")||n.starts_with("_ZSt4endl")||n.starts_with("_ZSt16__ostream_insert")||n.starts_with("_ZNSt8ios_base")||n.starts_with("_ZSt5flush")||n.starts_with("_ZNSolsE")||n.starts_with("_ZNSt6locale")||n.starts_with("_ZNSt15basic_streambuf")||n.starts_with("_ZNSt9basic_ios")){ exts["iostream (ignored)"]++; if(!rt->isVoidTy()) out= a.size()?a[0]:VC(0); return true; }
    if(dm.find("chrono")!=std::string::npos){ exts[n.str()]++; out=VC(0); return true; }
    throw Unsupported("external function "+dm); }
  std::string inName(const Val&p){ return std::to_string(S->nin++)+"_"+cstr(p); }
  bool vcall(StringRef n,std::vector<Val>&a,CallBase*CB,Val&out){
    if(n=="__v_int"){ // name, lo, hi (may be symbolic)
      std::string nm=inName(a[0]); Iv iv; iv.l=iv.h=true; const Poly*lo=ip(a[1],Type::getInt64Ty(g_ctx)),*hi=ip(a[2],Type::getInt64Ty(g_ctx)); Iv bl=pbounds(lo,&S->bd),bh=pbounds(hi,&S->bd); if(!bl.l||!bh.h) throw Unsupported("__v_int bounds"); iv.lo=bl.lo;iv.hi=bh.hi; const Poly*v=pvar(nm+"@"+iv.lo.get_str()+":"+iv.hi.get_str(),true,iv,true); /* the same name may carry other bounds on another path */ inputKinds[nm]="int"; if(!pisconst(lo)||!pisconst(hi)){ addPC(ble(lo,v)); addPC(ble(v,hi)); } out=mkI(v,64); return true; }
    if(n=="__v_real"){ std::string nm=inName(a[0]); inputKinds[nm]="real"; out=VP(pvar(nm+"@r",false,Iv(),true)); return true; }
    if(n=="__v_bool"){ std::string nm=inName(a[0]); inputKinds[nm]="bool"; out=VB(bvar(nm,true)); return true; }
    if(n=="__v_assume"){ const BNode*c=bb_(a[0]); if(!S->subst.empty()) c=bsubst(c,S->subst); if(c->k==B_F) throw std::string("infeasible"); addPC(c); if(c->k!=B_T&&a.size()>0){ if(known(bF(),0)) throw std::string("infeasible"); } return true; }
    if(n=="__v_assert"){ std::string nm=cstr(a[1]); oblige(bb_(a[0]),nm); return true; }
    if(n=="__v_eqd"){ Type*t=CB->getArgOperand(0)->getType(); if(special(a[0],t)||special(a[1],t)){ if(a[0].k==Val::CONC&&a[1].k==Val::CONC) out=VC(concD(a[0],t)==concD(a[1],t)); else out=VC(0); return true; } out=VB(beq(fp(a[0],t),fp(a[1],t))); return true; }
    if(n=="__v_split"){ const Poly*p=ip(a[0],Type::getInt64Ty(g_ctx)); Q q=concretize(p,4096); u64 c; q2i(q,&c); out=VC(c); return true; }
    if(n=="__v_branch"){ out=VC(branch(bb_(a[0]))?1:0); return true; }
    if(n=="__v_cover"){ std::string nm=cstr(a[0]); if(!covers.count(nm)){ Model m; PR r=P.prove(S->pc,&S->bd,bF(),1,&m); if(r!=PROVED) covers.insert(nm); if(r==REFUTED) coverCnt[nm]++; } return true; }
    if(n=="__v_symbolic"){ out=VC(1); return true; }
    if(n=="__v_allow_throw"){ S->allowThrow=a[0].c&1; return true; }
    if(n=="__v_sqrt_hint"){ const Poly*h=fp(a[0],Type::getDoubleTy(g_ctx)); oblige(ble(pconst(0),h),"root hint is not negative"); S->sqrtHints.push_back(h); return true; }
    if(n=="__v_replace"){ u64 i=a[0].c>>32,j=a[1].c>>32; if(i>=S->objs.size()||!S->objs[i].fn||!S->objs[j].fn) throw Unsupported("__v_replace operands"); S->repl[S->objs[i].fn]=const_cast<Function*>(S->objs[j].fn); return true; }
    if(n=="__v_replace_rec"){ u64 i=a[0].c>>32,j=a[1].c>>32; if(i>=S->objs.size()||!S->objs[i].fn||!S->objs[j].fn) throw Unsupported("__v_replace operands"); S->replRec[S->objs[i].fn]=const_cast<Function*>(S->objs[j].fn); return true; }
    if(n=="__v_unreplace"){ u64 i=a[0].c>>32; S->repl.erase(S->objs[i].fn); return true; }
    if(n=="__v_check_overflow"){ S->ovf=a[0].c&1; return true; }
    if(n=="__v_unwind_begin"||n=="__v_unwind_end") return true;
    if(n=="__v_print"){ if(verbose||getenv("FTKV_DEBUG")){ std::cerr<<"PRINT "<<cstr(a[0])<<" = "; if(a[1].k==Val::CONC) std::cerr<<(i64)a[1].c; else if(a[1].k==Val::POLY) std::cerr<<pstr(applySubst(a[1].p())); std::cerr<<"\n"; } return true; }
    if(n=="__v_printd"){ if(verbose||getenv("FTKV_DEBUG")){ std::cerr<<"PRINT "<<cstr(a[0])<<" = "; if(a[1].k==Val::CONC) std::cerr<<bits2d(a[1].c); else if(a[1].k==Val::POLY) std::cerr<<pstr(applySubst(a[1].p())); std::cerr<<"\n"; } return true; }
    if(n=="__v_array"){ // name, n, elem size, isfp, lo, hi -> pointer
      std::string nm="arr"+inName(a[0])+"@"+std::to_string(a[2].c)+","+std::to_string(a[3].c&1)+","+std::to_string(a[4].c)+","+std::to_string(a[5].c); const Poly*cnt=ip(a[1],Type::getInt64Ty(g_ctx)); unsigned el=a[2].c; u64 id=newObj(0); Obj&o=S->objs[id]; o.ssize=pscale(cnt,Q(el)); o.d->arr=std::make_shared<ArrData>(); o.d->arr->elem=el; o.d->arr->fp=a[3].c&1; o.d->arr->base=2; o.d->arr->name=nm; if(!o.d->arr->fp){ i64 lo=(i64)a[4].c,hi=(i64)a[5].c; o.d->arr->iv.l=o.d->arr->iv.h=true; o.d->arr->iv.lo=qi(lo); o.d->arr->iv.hi=qi(hi); } out=VC(baseOf(id)); return true; }
    if(n=="__v_array_fill"){ // ptr, count, value(double) : contract model of fill
      Loc b=locate(a[0],0); return true; }
    throw Unsupported("intrinsic "+n.str()); }
  void doCall(DI&d){
    CallBase*CB=cast<CallBase>(d.I); Frame&fr=S->st.back(); unsigned na=CB->arg_size(); std::vector<Val> args; for(unsigned i=0;i<na;i++) args.push_back(opv(fr,d,i));
    int cbb=-1; if(auto*II=dyn_cast<InvokeInst>(CB)) cbb=fr.f->bbi[II->getNormalDest()];
    Function*F=CB->getCalledFunction(); if(!F){ if(CB->isInlineAsm()){ finishCall(d.dst,cbb,VC(0)); return; } Value*cv=CB->getCalledOperand()->stripPointerCasts(); F=dyn_cast<Function>(cv); if(!F) if(auto*ga=dyn_cast<GlobalAlias>(cv)) F=dyn_cast<Function>(ga->getAliasee()->stripPointerCasts()); if(!F){ Val t=opv(fr,d,d.o.size()-1); if(t.k!=Val::CONC) throw Unsupported("symbolic call target"); u64 id=t.c>>32; if(id==0||id>=S->objs.size()||!S->objs[id].fn) memfail("call through bad pointer"); F=const_cast<Function*>(S->objs[id].fn); } }
    auto it=S->repl.find(F); if(it!=S->repl.end()){ // do not replace inside the stub itself
      bool inStub=false; for(auto&f:S->st) if(f.f->F==it->second) inStub=true; if(!inStub) F=it->second; }
    if(!S->replRec.empty()&&fr.f->F==F){ auto ir=S->replRec.find(F); if(ir!=S->replRec.end()) F=ir->second; }
    if(F->isDeclaration()||F->getName()=="__clang_call_terminate"){ Val out; if(!external(F,args,CB,out)) throw Unsupported("ext"); finishCall(d.dst,cbb,out); return; }
    if(F->getName().starts_with("_ZNSt8ios_base4Init")){ finishCall(d.dst,cbb,Val()); return; }
    pushCall(F,std::move(args),d.dst,cbb); }
  void doPhis(){ Frame&fr=S->st.back(); auto&B=fr.f->bb[fr.bb]; int i=0,n=B.size(); if(n==0||B[0].op!=Instruction::PHI){ fr.ip=0; return; } SmallVector<Val,8> nv; int k=-1; for(;i<n&&B[i].op==Instruction::PHI;i++){ if(k<0||k>=(int)B[i].inb.size()||B[i].inb[k]!=fr.prev){ k=-1; for(unsigned j=0;j<B[i].inb.size();j++) if(B[i].inb[j]==fr.prev){k=j;break;} } nv.push_back(opv(fr,B[i],k)); } for(int j=0;j<i;j++) fr.r[B[j].dst]=nv[j]; fr.ip=i; }
  void jumpI(int b){ Frame&fr=S->st.back(); fr.prev=fr.bb; fr.bb=b; fr.ip=0; if(!fr.tried.empty()) untry(fr); doPhis(); }
  void untry(Frame&fr){ int l=fr.f->hdr[fr.bb]; if(l<0||fr.f->loops[l][fr.prev]) return; SmallVector<int,2> t; for(int x:fr.tried) if(!fr.f->loops[l][x]) t.push_back(x); fr.tried=t; }
  void jump(BasicBlock*b){ Frame&fr=S->st.back(); fr.prev=fr.bb; fr.bb=fr.f->bbi[b]; fr.ip=0; doPhis(); }
  Val gep(Frame&fr,DI&d){ const Val&base=opv(fr,d,0); const Poly*sym=nullptr; i64 off=d.goff; for(auto&g:d.g){ const Val&ix=opv(fr,d,g.opi); if(ix.k==Val::CONC) off+=sx(ix.c,g.w)*g.scale; else { const Poly*p=pscale(ip(ix,g.ty),Q((unsigned long)g.scale)); sym=sym?padd(sym,p):p; } }
    if(!sym){ if(base.k==Val::CONC) return VC(base.c+off); if(base.k==Val::UNDEF) return base; return mkI(padd(base.p(),pconst(qi(off))),64); }
    const Poly*p=padd(sym,pconst(qi(off))); if(base.k==Val::CONC) return mkI(padd(p,pconst(qi((i64)base.c))),64); return mkI(padd(p,ip(base,Type::getInt64Ty(g_ctx))),64); }
  Val icmp(CmpInst::Predicate pr,const Val&a,const Val&b,Type*t){
    if(t->isIntegerTy(1)){ const BNode*x=bb_(a),*y=bb_(b); switch(pr){case CmpInst::ICMP_EQ:return VB(biff(x,y));case CmpInst::ICMP_NE:return VB(bxor(x,y));case CmpInst::ICMP_ULT: return VB(band(bnot(x),y)); case CmpInst::ICMP_UGT: return VB(band(x,bnot(y))); default:throw Unsupported("i1 cmp");} }
    unsigned w=t->isPointerTy()?64:W(t);
    if(a.k==Val::CONC&&b.k==Val::CONC){ u64 x=a.c,y=b.c; i64 sxa=sx(x,w),sxb=sx(y,w); x=mask(x,w);y=mask(y,w); switch(pr){case CmpInst::ICMP_EQ:return VC(x==y);case CmpInst::ICMP_NE:return VC(x!=y);case CmpInst::ICMP_ULT:return VC(x<y);case CmpInst::ICMP_ULE:return VC(x<=y);case CmpInst::ICMP_UGT:return VC(x>y);case CmpInst::ICMP_UGE:return VC(x>=y);case CmpInst::ICMP_SLT:return VC(sxa<sxb);case CmpInst::ICMP_SLE:return VC(sxa<=sxb);case CmpInst::ICMP_SGT:return VC(sxa>sxb);default:return VC(sxa>=sxb);} }
    const Poly*x=ip(a,t),*y=ip(b,t);
    if(CmpInst::isUnsigned(pr)){ if(!t->isPointerTy()){ x=toUnsigned(x,w); y=toUnsigned(y,w);} }
    if(t->isPointerTy()){ Q k; // different objects never equal
      }
    switch(pr){ case CmpInst::ICMP_EQ:return VB(beq(x,y)); case CmpInst::ICMP_NE:return VB(bnot(beq(x,y))); case CmpInst::ICMP_ULT:case CmpInst::ICMP_SLT:return VB(blt(x,y)); case CmpInst::ICMP_ULE:case CmpInst::ICMP_SLE:return VB(ble(x,y)); case CmpInst::ICMP_UGT:case CmpInst::ICMP_SGT:return VB(blt(y,x)); default:return VB(ble(y,x)); } }
  Val fcmp(CmpInst::Predicate pr,const Val&a,const Val&b,Type*t){
    if(pr==CmpInst::FCMP_TRUE)return VC(1); if(pr==CmpInst::FCMP_FALSE)return VC(0);
    bool sa=special(a,t),sb=special(b,t);
    if(sa||sb){ if(a.k==Val::CONC&&b.k==Val::CONC){ double x=concD(a,t),y=concD(b,t); bool un=std::isnan(x)||std::isnan(y); bool r=false; switch(pr){case CmpInst::FCMP_OEQ:r=!un&&x==y;break;case CmpInst::FCMP_OGT:r=x>y;break;case CmpInst::FCMP_OGE:r=x>=y;break;case CmpInst::FCMP_OLT:r=x<y;break;case CmpInst::FCMP_OLE:r=x<=y;break;case CmpInst::FCMP_ONE:r=!un&&x!=y;break;case CmpInst::FCMP_ORD:r=!un;break;case CmpInst::FCMP_UNO:r=un;break;case CmpInst::FCMP_UEQ:r=un||x==y;break;case CmpInst::FCMP_UGT:r=un||x>y;break;case CmpInst::FCMP_UGE:r=un||x>=y;break;case CmpInst::FCMP_ULT:r=un||x<y;break;case CmpInst::FCMP_ULE:r=un||x<=y;break;default:r=un||x!=y;} return VC(r); }
      double s=sa?concD(a,t):concD(b,t); bool nan=std::isnan(s); double x=sa?s:0,y=sb?s:0; // the symbolic side is finite: 0 stands for it
      bool r; switch(pr){case CmpInst::FCMP_OEQ:r=false;break;case CmpInst::FCMP_OGT:r=!nan&&x>y;break;case CmpInst::FCMP_OGE:r=!nan&&x>=y;break;case CmpInst::FCMP_OLT:r=!nan&&x<y;break;case CmpInst::FCMP_OLE:r=!nan&&x<=y;break;case CmpInst::FCMP_ONE:r=!nan;break;case CmpInst::FCMP_ORD:r=!nan;break;case CmpInst::FCMP_UNO:r=nan;break;case CmpInst::FCMP_UEQ:r=nan;break;case CmpInst::FCMP_UGT:r=nan||x>y;break;case CmpInst::FCMP_UGE:r=nan||x>=y;break;case CmpInst::FCMP_ULT:r=nan||x<y;break;case CmpInst::FCMP_ULE:r=nan||x<=y;break;default:r=true;} return VC(r); }
    if(pr==CmpInst::FCMP_ORD)return VC(1); if(pr==CmpInst::FCMP_UNO)return VC(0);
    const Poly*x=fp(a,t),*y=fp(b,t); switch(pr){ case CmpInst::FCMP_OEQ:case CmpInst::FCMP_UEQ:return VB(beq(x,y)); case CmpInst::FCMP_ONE:case CmpInst::FCMP_UNE:return VB(bnot(beq(x,y))); case CmpInst::FCMP_OLT:case CmpInst::FCMP_ULT:return VB(blt(x,y)); case CmpInst::FCMP_OLE:case CmpInst::FCMP_ULE:return VB(ble(x,y)); case CmpInst::FCMP_OGT:case CmpInst::FCMP_UGT:return VB(blt(y,x)); default:return VB(ble(y,x)); } }
  Val binop(unsigned op,const Val&a,const Val&b,Type*t,Instruction*I){
    if(isFP(t)){ if(special(a,t)||special(b,t)){ 
        auto isz=[&](const Val&v){ return v.k==Val::CONC&&concD(v,t)==0; };
        if(a.k==Val::CONC&&b.k==Val::CONC){ double x=concD(a,t),y=concD(b,t),r; switch(op){case Instruction::FAdd:r=x+y;break;case Instruction::FSub:r=x-y;break;case Instruction::FMul:r=x*y;break;case Instruction::FDiv:r=x/y;break;default:throw Unsupported("frem");} return VC(t->isFloatTy()?f2bits(r):d2bits(r)); }
        double s=special(a,t)?concD(a,t):concD(b,t); if(op==Instruction::FAdd) return VC(t->isFloatTy()?f2bits(s):d2bits(s)); if(op==Instruction::FSub){ double r=special(a,t)?s:-s; return VC(t->isFloatTy()?f2bits(r):d2bits(r)); }
        if(std::isnan(s)) return VC(t->isFloatTy()?f2bits(s):d2bits(s));
        if(op==Instruction::FDiv&&special(b,t)) return VC(0); 
        const Poly*o=fp(special(a,t)?b:a,t); // inf * sym or inf / sym : needs sign
        int pos=branch(blt(pconst(0),o)); if(pos) return VC(t->isFloatTy()?f2bits(s):d2bits(s)); int neg=branch(blt(o,pconst(0))); if(neg) return VC(t->isFloatTy()?f2bits(-s):d2bits(-s)); throw Unsupported("inf*0"); }
      const Poly*x=fp(a,t),*y=fp(b,t); switch(op){ case Instruction::FAdd:return mkF(padd(x,y),t); case Instruction::FSub:return mkF(psub(x,y),t); case Instruction::FMul:return mkF(pmul(x,y),t);
        case Instruction::FDiv: { if(y->t.empty()){ if(x->t.empty()) return VC(d2bits(NAN)); int pos=branch(blt(pconst(0),x)); if(pos) return VC(d2bits(INFINITY)); int neg=branch(blt(x,pconst(0))); if(neg) return VC(d2bits(-INFINITY)); return VC(d2bits(NAN)); }
          Q c; if(!pisconst(y,&c)){ if(S->allowDiv0){ } oblige(bnot(bcmp(B_EQ,y)),"division-by-nonzero"); } return mkF(pmul(x,pinv(y)),t); }
        default: throw Unsupported("frem"); } }
    if(t->isIntegerTy(1)){ const BNode*x=bb_(a),*y=bb_(b); switch(op){case Instruction::And:return VB(band(x,y));case Instruction::Or:return VB(bor(x,y));case Instruction::Xor:case Instruction::Add:case Instruction::Sub:return VB(bxor(x,y)); case Instruction::Mul: return VB(band(x,y)); default:throw Unsupported("i1 op");} }
    unsigned w=W(t);
    if(a.k==Val::CONC&&b.k==Val::CONC&&w<=64){ u64 x=mask(a.c,w),y=mask(b.c,w); switch(op){ case Instruction::Add:return VC(mask(x+y,w));case Instruction::Sub:return VC(mask(x-y,w));case Instruction::Mul:return VC(mask(x*y,w));case Instruction::And:return VC(x&y);case Instruction::Or:return VC(x|y);case Instruction::Xor:return VC(x^y);case Instruction::Shl:return VC(y>=w?0:mask(x<<y,w));case Instruction::LShr:return VC(y>=w?0:x>>y);case Instruction::AShr:return VC(mask((u64)(sx(x,w)>>(y>=w?w-1:y)),w));
        case Instruction::UDiv:case Instruction::URem:case Instruction::SDiv:case Instruction::SRem: if(y==0){ oblige(bF(),"division-by-nonzero"); throw std::string("dead"); } if(op==Instruction::UDiv)return VC(x/y); if(op==Instruction::URem)return VC(x%y); { i64 p=sx(x,w),q=sx(y,w); if(q==-1) return VC(op==Instruction::SDiv?mask((u64)(-p),w):0); return VC(mask((u64)(op==Instruction::SDiv?p/q:p%q),w)); } default: throw Unsupported("int op"); } }
    const Poly*x=ip(a,t),*y=ip(b,t); Q cb;
    switch(op){ case Instruction::Add:return arith(padd(x,y),w,I); case Instruction::Sub:return arith(psub(x,y),w,I); case Instruction::Mul:return arith(pmul(x,y),w,I);
      case Instruction::SDiv:case Instruction::SRem: { oblige(bnot(bcmp(B_EQ,y)),"division-by-nonzero"); const Poly*q=sdivT(x,y); return mkI(op==Instruction::SDiv?q:psub(x,pmul(q,y)),w); }
      case Instruction::UDiv:case Instruction::URem: { x=toUnsigned(x,w);y=toUnsigned(y,w); oblige(bnot(bcmp(B_EQ,y)),"division-by-nonzero"); const Poly*q=fdiv(x,y); const Poly*r=op==Instruction::UDiv?q:psub(x,pmul(q,y)); return wrapS(r,w); }
      case Instruction::Shl: if(pisconst(y,&cb)){ Z m=1; m<<=cb.get_num().get_ui(); return arith(pscale(x,Q(m)),w,I);} { Q k=concretize(y,64); Z m=1; m<<=k.get_num().get_ui(); return arith(pscale(x,Q(m)),w,I); }
      case Instruction::LShr: { Q k; if(!pisconst(y,&k)) k=concretize(y,64); x=toUnsigned(x,w); Z m=1; m<<=k.get_num().get_ui(); return mkI(fdiv(x,pconst(Q(m))),w); }
      case Instruction::AShr: { Q k; if(!pisconst(y,&k)) k=concretize(y,64); Z m=1; m<<=k.get_num().get_ui(); return mkI(fdiv(x,pconst(Q(m))),w); }
      case Instruction::And: case Instruction::Or: case Instruction::Xor: {
        for(const Poly*u:{x,y}){ if(u->t.size()==1&&u->t[0].m->deg==1){ Atom*at=atoms()[u->t[0].m->f[0].first]; if(at->k==A_VAR&&at->name.compare(0,5,"undef")==0){ assum["bit operation on uninitialised word: unspecified bits fixed to 0"]++; addPC(bcmp(B_EQ,u)); return binop(op,mkI(applySubst(x),w),mkI(applySubst(y),w),t,I); } } }
        auto is01=[&](const Poly*p){ Iv iv=pbounds(p,&S->bd); return iv.l&&iv.h&&iv.lo>=0&&iv.hi<=1; };
        if(is01(x)&&is01(y)){ const BNode*p=bnot(bcmp(B_EQ,x)),*q=bnot(bcmp(B_EQ,y)); const BNode*r=op==Instruction::And?band(p,q):op==Instruction::Or?bor(p,q):bxor(p,q); return mkI(pite(r,pconst(1),pconst(0)),w); }
        if(pisconst(x)&&!pisconst(y)) std::swap(x,y);
        if(pisconst(y,&cb)){ Z c=cb.get_num(); if(op==Instruction::Xor&&c==-1) return mkI(psub(pneg(x),pconst(1)),w); if(op==Instruction::And){ if(c==0)return VC(0); if(c==-1) return VP(x); Z c1=c+1; if(c>0&&mpz_popcount(c1.get_mpz_t())==1){ return mkI(psub(x,pscale(fdiv(x,pconst(Q(c1))),Q(c1))),w); } Z nc=-c; if(c<0&&mpz_popcount(nc.get_mpz_t())==1){ return mkI(pscale(fdiv(x,pconst(Q(nc))),Q(nc)),w); } 
            if(c>0&&mpz_popcount(c.get_mpz_t())==1){ Z c2=c*2; const Poly*m=psub(x,pscale(fdiv(x,pconst(Q(c2))),Q(c2))); return mkI(pscale(fdiv(m,pconst(Q(c))),Q(c)),w); } }
          if(op==Instruction::Or&&c==0) return VP(x); if(op==Instruction::Xor&&c==0) return VP(x); }
        if(x==y){ if(op==Instruction::Xor)return VC(0); return VP(x); }
        if(op==Instruction::Or){ // disjoint bit ranges: one operand multiple of 2^k, other in [0,2^k)
          for(int sw=0;sw<2;sw++){ const Poly*hi=sw?y:x,*lo=sw?x:y; Iv il=pbounds(lo,&S->bd); if(il.l&&il.h&&il.lo>=0){ Z m=1; while(Q(m)<=il.hi) m<<=1; const Poly*q=pscale(hi,Q(1)/Q(m)); if(q->isInt) return mkI(padd(x,y),w); } } }
        concretize(x,64); concretize(y,64); return binop(op,mkI(pconst(concretize(x,64)),w),mkI(pconst(concretize(y,64)),w),t,I); }
      default: throw Unsupported("int op2"); } }
  void step(){
    Frame&fr=S->st.back(); DI&d=fr.f->bb[fr.bb][fr.ip]; Instruction*I=d.I; S->steps++; totalSteps++;
    auto set=[&](const Val&v){ Frame&f=S->st.back(); f.r[d.dst]=v; f.ip++; };
    switch(d.op){
      case Instruction::Alloca: { auto*A=cast<AllocaInst>(I); u64 n=DL->getTypeAllocSize(A->getAllocatedType()); Val cnt=opv(fr,d,0); if(cnt.k==Val::POLY) cnt=mkI(applySubst(cnt.p()),64); if(cnt.k!=Val::CONC){ u64 id=newObj(0); S->objs[id].ssize=pscale(ip(cnt,I->getOperand(0)->getType()),Q((unsigned long)n)); S->st.back().al.push_back(id); set(VC(baseOf(id))); break; } u64 id=newObj(n*cnt.c); S->objs[id].stack=true; S->st.back().al.push_back(id); set(VC(baseOf(id))); break; }
      case Instruction::Load: { const Val&pv=opv(fr,d,0); if(pv.k==Val::CONC&&d.w>=8&&d.w<=64){ u64 id=pv.c>>32,off=(pv.c&0xffffffffull)-BIAS,n=d.w/8; if(id&&id<S->objs.size()&&n*8==d.w){ Obj&o=S->objs[id]; if(o.alive&&!o.fn&&!o.ssize&&off+n<=o.size&&off<o.size&&!o.d->arr){ Data&D=*o.d; bool c=true; for(u64 i=0;i<n;i++) if(D.st[off+i]!=1){c=false;break;} if(c){ u64 x=0; memcpy(&x,&D.by[off],n); Val v; v.k=Val::CONC; v.c=x; set(v); break; } } } }
        Val v=load(opv(fr,d,0),I->getType()); set(v); break; }
      case Instruction::Store: { store(opv(fr,d,1),opv(fr,d,0),I->getOperand(0)->getType()); S->st.back().ip++; break; }
      case Instruction::GetElementPtr: set(gep(fr,d)); break;
      case Instruction::Br: { auto*B=cast<BranchInst>(I); if(d.s1<0){ jumpI(d.s0); break; } const Val&cv=opv(fr,d,0); if(cv.k==Val::CONC){ jumpI((cv.c&1)?d.s0:d.s1); break; } const BNode*c=bb_(cv); if(fr.f->inl[fr.bb]>=0&&!recycle&&loopRule(c,d)) break; Frame&fr2=S->st.back(); (void)fr2; bool t=branch(c); jumpI(t?d.s0:d.s1); break; }
      case Instruction::Switch: { auto*W_=cast<SwitchInst>(I); Val v=opv(fr,d,0); Type*t=W_->getCondition()->getType(); if(v.k==Val::POLY) v=mkI(applySubst(v.p()),W(t)); if(v.k==Val::BOOL||v.k==Val::UNDEF) v=mkI(ip(v,t),W(t)); if(v.k==Val::CONC){ auto*ci=ConstantInt::get(cast<IntegerType>(t),v.c); jump(W_->findCaseValue(ci)->getCaseSuccessor()); break; }
        bool done=false; for(auto&cs:W_->cases()){ const BNode*c=beq(v.p(),pconst(qi(cs.getCaseValue()->getSExtValue()))); if(branch(c)){ jump(cs.getCaseSuccessor()); done=true; break; } } if(!done) jump(W_->getDefaultDest()); break; }
      case Instruction::Ret: { Val v; if(I->getNumOperands()) v=opv(fr,d,0); for(u64 id:fr.al) kill(id); int dst=fr.dst,cbb=fr.cbb; if(rpool.size()<256) rpool.push_back(std::move(fr.r)); S->st.pop_back(); if(S->st.empty()) throw std::string("end"); finishCall(dst,cbb,v); break; }
      case Instruction::Call: case Instruction::Invoke: doCall(d); break;
      case Instruction::ICmp: { auto*C=cast<ICmpInst>(I); set(icmp(C->getPredicate(),opv(fr,d,0),opv(fr,d,1),I->getOperand(0)->getType())); break; }
      case Instruction::FCmp: { auto*C=cast<FCmpInst>(I); set(fcmp(C->getPredicate(),opv(fr,d,0),opv(fr,d,1),I->getOperand(0)->getType())); break; }
      case Instruction::FNeg: { Type*t=I->getType(); Val a=opv(fr,d,0); if(special(a,t)) set(VC(t->isFloatTy()?f2bits(-concD(a,t)):d2bits(-concD(a,t)))); else set(mkF(pneg(fp(a,t)),t)); break; }
      case Instruction::Select: { Val c=opv(fr,d,0); const BNode*b=bb_(c); Type*t=I->getType(); int dd=b->k==B_T?1:b->k==B_F?0:-1; if(dd<0) dd=decide(S->subst.empty()?b:bsubst(b,S->subst)); Val x=opv(fr,d,1),y=opv(fr,d,2); if(dd<0){ bool must=t->isPointerTy()||x.k==Val::AGG||y.k==Val::AGG||(isFP(t)&&(special(x,t)||special(y,t))); if(must) dd=branch(b)?1:0; } if(dd>=0) set(dd?x:y); else set(iteV(b,x,y,t)); break; }
      case Instruction::Trunc: { Type*t=I->getType(); Val a=opv(fr,d,0); if(a.k==Val::CONC) set(VC(mask(a.c,W(t)))); else if(a.k==Val::UNDEF) set(a); else set(truncTo(ip(a,I->getOperand(0)->getType()),W(t))); break; }
      case Instruction::ZExt: { Type*f=I->getOperand(0)->getType(),*t=I->getType(); Val a=opv(fr,d,0); if(a.k==Val::CONC) set(VC(mask(a.c,W(f)))); else if(f->isIntegerTy(1)) set(mkI(pite(bb_(a),pconst(1),pconst(0)),W(t))); else if(a.k==Val::UNDEF) set(undefVal(t)); else set(mkI(toUnsigned(ip(a,f),W(f)),W(t))); break; }
      case Instruction::SExt: { Type*f=I->getOperand(0)->getType(),*t=I->getType(); Val a=opv(fr,d,0); if(a.k==Val::CONC) set(VC(mask((u64)sx(a.c,W(f)),std::min(64u,W(t))))); else if(f->isIntegerTy(1)) set(mkI(pite(bb_(a),pconst(-1),pconst(0)),W(t))); else set(mkI(ip(a,f),W(t))); break; }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: { Type*f=I->getOperand(0)->getType(),*t=I->getType(); Val a=opv(fr,d,0); if(f->isVectorTy()||t->isVectorTy()) throw Unsupported("vector bitcast"); if(a.k==Val::POLY&&isFP(f)!=isFP(t)) throw Unsupported("bitcast symbolic fp"); set(a); break; }
      case Instruction::SIToFP: { Type*f=I->getOperand(0)->getType(),*t=I->getType(); set(mkF(ip(opv(fr,d,0),f),t)); break; }
      case Instruction::UIToFP: { Type*f=I->getOperand(0)->getType(),*t=I->getType(); Val a=opv(fr,d,0); if(f->isIntegerTy(1)) set(mkF(pite(bb_(a),pconst(1),pconst(0)),t)); else { const Poly*p=a.k==Val::CONC?pconst(Q((unsigned long)mask(a.c,W(f)))):toUnsigned(ip(a,f),W(f)); set(mkF(p,t)); } break; }
      case Instruction::FPToSI: case Instruction::FPToUI: { Type*f=I->getOperand(0)->getType(),*t=I->getType(); Val a=opv(fr,d,0); if(special(a,f)){ oblige(bF(),"float-to-int-range"); throw std::string("dead"); } const Poly*x=fp(a,f); Q c; const Poly*r; if(pisconst(x,&c)){ Z z; mpz_tdiv_q(z.get_mpz_t(),c.get_num_mpz_t(),c.get_den_mpz_t()); r=pconst(Q(z)); } else { Iv iv=pbounds(x,&S->bd); int s=(iv.l&&iv.lo>=0)?1:(iv.h&&iv.hi<=0)?0:freeSign(x)?-1:decide(ble(pconst(0),x)); r= x->isInt? x : s==1?redFloor(pfloor(x)):s==0?pneg(redFloor(pfloor(pneg(x)))):pite(ble(pconst(0),x),pfloor(x),pneg(pfloor(pneg(x)))); } assum["float-to-integer conversions assumed in range"]++; set(mkI(r,W(t))); break; }
      case Instruction::FPExt: { Type*f=I->getOperand(0)->getType(),*t=I->getType(); Val a=opv(fr,d,0); if(a.k==Val::CONC){ if(t->isDoubleTy()&&f->isFloatTy()) set(VC(d2bits((double)bits2f(a.c)))); else set(VP(fp(a,f))); } else set(a); break; }
      case Instruction::FPTrunc: { Type*f=I->getOperand(0)->getType(),*t=I->getType(); Val a=opv(fr,d,0); if(special(a,f)) set(VC(f2bits((float)concD(a,f)))); else set(mkF(fp(a,f),t)); break; }
      case Instruction::ExtractValue: { auto*E=cast<ExtractValueInst>(I); Val a=opv(fr,d,0); for(unsigned ix:E->indices()){ if(a.k==Val::UNDEF)break; Val b=a.agg()[ix]; a=b; } set(a); break; }
      case Instruction::InsertValue: { auto*E=cast<InsertValueInst>(I); Val a=opv(fr,d,0),v=opv(fr,d,1); std::function<Val(const Val&,unsigned,Type*)> ins=[&](const Val&x,unsigned k,Type*t)->Val{ if(k==E->getNumIndices())return v; std::vector<Val> r; unsigned n=t->isStructTy()?t->getStructNumElements():t->getArrayNumElements(); if(x.k==Val::AGG) r=x.agg(); else r.resize(n); unsigned ix=E->getIndices()[k]; r[ix]=ins(r[ix],k+1,t->isStructTy()?t->getStructElementType(ix):t->getArrayElementType()); return VA(r); }; set(ins(a,0,I->getType())); break; }
      case Instruction::Freeze: { Val a=opv(fr,d,0); if(a.k==Val::UNDEF)a=undefVal(I->getType()); set(a); break; }
      case Instruction::Unreachable: throw std::string("dead");
      case Instruction::Fence: S->st.back().ip++; break;
      case Instruction::AtomicRMW: { auto*A=cast<AtomicRMWInst>(I); Val old=load(opv(fr,d,0),A->getType()); Val nv; switch(A->getOperation()){ case AtomicRMWInst::Add: nv=binop(Instruction::Add,old,opv(fr,d,1),A->getType(),I);break; case AtomicRMWInst::Sub: nv=binop(Instruction::Sub,old,opv(fr,d,1),A->getType(),I);break; case AtomicRMWInst::Xchg: nv=opv(fr,d,1);break; default: throw Unsupported("atomicrmw"); } store(opv(fr,d,0),nv,A->getType()); set(old); break; }
      case Instruction::AtomicCmpXchg: { auto*A=cast<AtomicCmpXchgInst>(I); Type*t=A->getCompareOperand()->getType(); Val old=load(opv(fr,d,0),t); Val eq=icmp(CmpInst::ICMP_EQ,old,opv(fr,d,1),t); bool b=branch(bb_(eq)); if(b) store(opv(fr,d,0),opv(fr,d,2),t); set(VA({old,VC(b)})); break; }
      default: if(I->isBinaryOp()){ Val v=binop(d.op,opv(fr,d,0),opv(fr,d,1),I->getType(),I); set(v); break; }
        throw Unsupported(std::string("instruction ")+I->getOpcodeName()); } }
#include "loops.inc"
  int reach=0,reachTries=0; State* baseState=nullptr; bool keepEnd=false; State*kept=nullptr;
  void runHarness(Function*H){
    T0=std::chrono::steady_clock::now(); State*init=S; State*s=new State(*init); S=s; paths=1; pushCall(H,{},-1,-1); wl.push_back(s);
    while(!wl.empty()){
      S=wl.back(); wl.pop_back(); std::string why;
      try{ while(true){ step(); if((S->steps&0xfff)==0){ if(S->steps>maxSteps) throw Unsupported("step limit at "+where()); if(elapsed()>timeLimit) throw Unsupported("time limit at "+where()); } } }
      catch(std::string&e){ why=e; }
      catch(Unsupported&e){ why="unsupported"; std::string nm="verifier-reach"; obs[nm].n++; obs[nm].be["UNDECIDED"]++; Model m; fail(nm,"undecided",e.what(),nullptr); incomplete=true; }
      catch(z3::exception&e){ why="z3"; obs["verifier-reach"].n++; fail("verifier-reach","undecided",std::string("z3: ")+e.msg(),nullptr); incomplete=true; }
      if(why=="end"){ ended++; if(keepEnd){ kept=S; S=nullptr; break; } if(reach==0||(reach==1&&reachTries++<3)){ Model m; P.reachQuery=true; PR r=P.prove(S->pc,&S->bd,bF(),1,&m); P.reachQuery=false; if(r==REFUTED) reach=2; else if(r==UNKNOWN) reach=std::max(reach,1); else { ended--; infeasible++; } } }
      else if(why=="infeasible") infeasible++;
      delete S; S=nullptr; 
      if(elapsed()>timeLimit||failNames["verifier-reach"]>20){ if(!wl.empty()){ incomplete=true; } break; }
    }
    for(auto*x:wl) delete x; wl.clear(); S=init; if(keepEnd){ if(kept){ kept->st.clear(); S=kept; } } }
};
int main(int argc,char**argv){
  Engine E; std::string out,setupFn; std::string mod; std::vector<std::string> hs; int jobs=1;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; if(a=="-o") out=argv[++i]; else if(a=="-v") E.verbose=true; else if(a=="-t") E.timeLimit=atof(argv[++i]); else if(a=="-paths") E.maxPaths=atol(argv[++i]); else if(a=="-tmp") E.P.tmpdir=argv[++i]; else if(a=="-setup") setupFn=argv[++i]; else if(a=="-j") jobs=atoi(argv[++i]); else if(a=="-noext") E.P.allowExt=false; else if(mod.empty()) mod=a; else hs.push_back(a); }
  SMDiagnostic err; E.M=parseIRFile(mod,err,g_ctx); if(!E.M){ err.print("ftkv",errs()); return 3; }
  try{ E.setup(); }catch(std::exception&e){ std::cerr<<"setup: "<<e.what()<<"\n"; return 3; }
  std::ofstream of; std::ostream*os=&std::cout; if(!out.empty()){ of.open(out); os=&of; }
  bool bad=false; *os<<"[";
  if(!setupFn.empty()){ Function*H=E.M->getFunction(setupFn); if(!H){ std::cerr<<"no setup\n"; return 3; } E.keepEnd=true; E.recycle=true; E.runHarness(H); E.keepEnd=false; E.recycle=false; if(!E.kept){ std::cerr<<"setup did not complete\n"; for(auto&f:E.fails) std::cerr<<f.name<<" "<<f.detail<<" "<<f.where<<"\n"; _exit(4);} E.baseExec=E.execd; if(E.verbose) std::cerr<<"setup steps "<<E.totalSteps<<" "<<E.elapsed()<<"s\n"; }
  if(jobs>1&&hs.size()>1){ // one process per harness, all starting from the state after -setup
    std::vector<std::string> files(hs.size()); std::map<pid_t,size_t> run; size_t nx=0; std::string base=E.P.tmpdir+"/ftkv."+std::to_string(getpid())+"."; std::vector<int> rcs(hs.size(),0); bool child=false;
    while(nx<hs.size()||!run.empty()){ if(nx<hs.size()&&(int)run.size()<jobs){ files[nx]=base+std::to_string(nx); fflush(stdout); os->flush(); pid_t p=fork(); if(p==0){ child=true; alarm((unsigned)(E.timeLimit*1.4+30)); std::vector<std::string> one{hs[nx]}; hs=one; if(of.is_open()) of.close(); out=files[nx]; break; } if(p<0) return 3; run[p]=nx++; continue; } int st; pid_t p=wait(&st); if(p<0) break; rcs[run[p]]=WIFSIGNALED(st)?-WTERMSIG(st):WEXITSTATUS(st); if(rcs[run[p]]&&getenv("FTKV_FIRST")){ run.erase(p); for(auto&k:run) kill(k.first,SIGKILL); _exit(77); } run.erase(p); }
    if(!child){ bool first=true; for(size_t i=0;i<hs.size();i++){ std::string t; if(rcs[i]==0||rcs[i]==1){ std::ifstream f(files[i]); t.assign(std::istreambuf_iterator<char>(f),{}); } unlink(files[i].c_str()); if(rcs[i]) bad=true; if(t.empty()) t="\n{\"harness\":\""+hs[i]+"\",\"paths\":0,\"ended\":0,\"thrown\":0,\"infeasible\":0,\"steps\":0,\"wall\":0,\"solver_s\":0,\"queries\":0,\"reach\":0,\"incomplete\":true,\"obligations\":[],\"failures\":[{\"name\":\"verifier-reach\",\"status\":\"undecided\",\"detail\":\"verifier process ended with code "+std::to_string(rcs[i])+"\",\"where\":\"\",\"inputs\":{},\"arrays\":{}}],\"assumptions\":{},\"externals\":{},\"covers\":[],\"functions\":[]}"; *os<<(first?"":",")<<t; first=false; } *os<<"\n]\n"; os->flush(); if(of.is_open()) of.close(); fflush(stdout); _exit(bad?1:0); }
    of.open(out); os=&of; jobs=0; }
  for(size_t hi=0;hi<hs.size();hi++){ Function*H=E.M->getFunction(hs[hi]); E.obs.clear();E.fails.clear();E.assum.clear();E.exts.clear();E.covers.clear();E.coverCnt.clear();E.ended=E.thrown=E.infeasible=0;E.incomplete=false;E.execd=E.baseExec;E.reach=0;E.reachTries=0;E.failNames.clear();E.totalSteps=0;E.P.solverSec=0;E.P.queries=0; E.inputKinds.clear();
    if(!H||H->isDeclaration()){ std::cerr<<"no harness "<<hs[hi]<<"\n"; return 3; }
    E.runHarness(H);
    std::ostream&o=*os; o<<(hi?",":"")<<"\n{\"harness\":\""<<hs[hi]<<"\",\"paths\":"<<E.paths<<",\"ended\":"<<E.ended<<",\"thrown\":"<<E.thrown<<",\"infeasible\":"<<E.infeasible<<",\"steps\":"<<E.totalSteps<<",\"wall\":"<<E.elapsed()<<",\"solver_s\":"<<E.P.solverSec<<",\"queries\":"<<E.P.queries<<",\"reach\":"<<E.reach<<",\"incomplete\":"<<(E.incomplete?"true":"false")<<",\n \"obligations\":[";
    bool f=true; for(auto&kv:E.obs){ o<<(f?"":",")<<"{\"name\":\""<<jesc(kv.first)<<"\",\"n\":"<<kv.second.n<<",\"s\":"<<kv.second.sec<<",\"by\":{"; bool g=true; for(auto&b:kv.second.be){ o<<(g?"":",")<<"\""<<b.first<<"\":"<<b.second; g=false; } o<<"}}"; f=false; }
    o<<"],\n \"failures\":["; f=true; for(auto&x:E.fails){ o<<(f?"":",")<<"\n  {\"name\":\""<<jesc(x.name)<<"\",\"status\":\""<<x.status<<"\",\"detail\":\""<<jesc(x.detail)<<"\",\"where\":\""<<jesc(x.where)<<"\",\"inputs\":{"; bool g=true; for(auto&kv:x.inputs){ o<<(g?"":",")<<"\""<<jesc(kv.first)<<"\":\""<<jesc(kv.second)<<"\""; g=false; } o<<"},\"arrays\":{"; g=true; for(auto&kv:x.arrays){ o<<(g?"":",")<<"\""<<jesc(kv.first)<<"\":{"; bool h=true; for(auto&y:kv.second){ o<<(h?"":",")<<"\""<<y.first<<"\":\""<<y.second<<"\""; h=false; } o<<"}"; g=false; } o<<"}}"; f=false; bad=true; }
    o<<"],\n \"assumptions\":{"; f=true; for(auto&kv:E.assum){ o<<(f?"":",")<<"\""<<jesc(kv.first)<<"\":"<<kv.second; f=false; } o<<"},\"externals\":{"; f=true; for(auto&kv:E.exts){ o<<(f?"":",")<<"\""<<jesc(kv.first)<<"\":"<<kv.second; f=false; } o<<"},\"covers\":["; f=true; for(auto&c:E.covers){ o<<(f?"":",")<<"\""<<jesc(c)<<"\""; f=false; } o<<"],\n \"functions\":["; f=true; for(auto&kv:E.execd){ std::string d=demangle(kv.first->getName().str()); if(d.find("ftk::")==std::string::npos)continue; o<<(f?"":",")<<"\""<<jesc(d)<<"\""; f=false; } o<<"]}"; 
    if(E.verbose) std::cerr<<hs[hi]<<": paths "<<E.paths<<" ended "<<E.ended<<" steps "<<E.totalSteps<<" wall "<<E.elapsed()<<" fails "<<E.fails.size()<<"\n"; }
  if(jobs!=0) *os<<"\n]\n"; os->flush(); if(of.is_open()) of.close(); fflush(stdout); _exit(bad?1:0);
}
