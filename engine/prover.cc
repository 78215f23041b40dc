#include <array>
#include <tuple>
#include "prover.h"
#include <random>
#include <cmath>
#include <fstream>
#include <unistd.h>
#include <sys/wait.h>
static std::string qs(const Q&q){ return q.get_str(); }
z3::expr Prover::atom(int id){
  auto it=atomE.find(id); if(it!=atomE.end()) return it->second;
  Atom*a=atoms()[id]; z3::expr e(ctx);
  switch(a->k){
    case A_ITE: { z3::expr x=poly(a->a),y=poly(a->b); if(x.is_int()!=y.is_int()){ if(x.is_int())x=z3::to_real(x); else y=z3::to_real(y);} e=z3::ite(boolE(a->c),x,y); break; }
    case A_UF: case A_SEL: { std::vector<z3::expr> av; for(auto*p:a->args) av.push_back(poly(p));
      std::string nm=a->name; for(auto&x:av) nm+= x.is_int()?"i":"r";
      auto f=fns.find(nm); if(f==fns.end()){ z3::sort_vector sv(ctx); for(auto&x:av) sv.push_back(x.get_sort()); f=fns.emplace(nm,ctx.function(nm.c_str(),sv,a->isInt?ctx.int_sort():ctx.real_sort())).first; }
      z3::expr_vector ev(ctx); for(auto&x:av)ev.push_back(x); e=f->second(ev); break; }
    default: { std::string n="a"+std::to_string(id); e=a->isInt?ctx.int_const(n.c_str()):ctx.real_const(n.c_str()); }
  }
  atomE.emplace(id,e); return e;
}
z3::expr Prover::poly(const Poly*p){
  auto it=pE.find(p); if(it!=pE.end())return it->second;
  bool in=p->isInt; z3::expr_vector sum(ctx);
  for(auto&t:p->t){ z3::expr_vector pr(ctx); if(absMode&&t.m->deg>1){ std::string n="m"+std::to_string(t.m->id); bool mi=true; for(auto&f:t.m->f) if(!atoms()[f.first]->isInt) mi=false; z3::expr a=mi?ctx.int_const(n.c_str()):ctx.real_const(n.c_str()); if(absSeen.insert(t.m).second) absMonos.push_back(t.m); if(!in&&mi) a=z3::to_real(a); sum.push_back(t.c==1?a:(in?ctx.int_val(qs(t.c).c_str()):ctx.real_val(qs(t.c).c_str()))*a); continue; } if(t.c!=1||t.m->f.empty()) pr.push_back(in?ctx.int_val(qs(t.c).c_str()):ctx.real_val(qs(t.c).c_str()));
    for(auto&f:t.m->f){ z3::expr a=atom(f.first); if(!in&&a.is_int()) a=z3::to_real(a); for(int e=0;e<f.second;e++) pr.push_back(a); }
    if(pr.size()==1) sum.push_back(pr[0u]); else { z3::expr r=pr[0u]; std::vector<Z3_ast> v; for(unsigned i=0;i<pr.size();i++)v.push_back(pr[i]); sum.push_back(z3::expr(ctx,Z3_mk_mul(ctx,v.size(),v.data()))); } }
  z3::expr r= sum.size()==0? (in?ctx.int_val(0):ctx.real_val(0)) : sum.size()==1? z3::expr(sum[0u]) : z3::sum(sum);
  pE.emplace(p,r); return r;
}
z3::expr Prover::boolE(const BNode*b){
  auto it=bE.find(b->id); if(it!=bE.end())return it->second; z3::expr e(ctx);
  switch(b->k){ case B_T:e=ctx.bool_val(true);break; case B_F:e=ctx.bool_val(false);break;
    case B_EQ: case B_LT: case B_LE: { z3::expr p=poly(b->p); z3::expr z=p.is_int()?ctx.int_val(0):ctx.real_val(0); e= b->k==B_EQ? p==z : b->k==B_LT? p<z : p<=z; break; }
    case B_NOT:e=!boolE(b->x);break; case B_AND:e=boolE(b->x)&&boolE(b->y);break; case B_OR:e=boolE(b->x)||boolE(b->y);break;
    default:e=ctx.bool_const(("b_"+b->name).c_str()); }
  bE.emplace(b->id,e); return e;
}
void Prover::axioms(const std::set<int>&at,std::vector<z3::expr>&out){
  for(int id:at){ Atom*a=atoms()[id]; 
    if(a->iv.l) out.push_back(atom(id)>=(a->isInt?ctx.int_val(qs(a->iv.lo).c_str()):ctx.real_val(qs(a->iv.lo).c_str())));
    if(a->iv.h) out.push_back(atom(id)<=(a->isInt?ctx.int_val(qs(a->iv.hi).c_str()):ctx.real_val(qs(a->iv.hi).c_str())));
    if(a->k==A_IDIV){ const Poly*qd=pmul(a->b,patom(id)); out.push_back(boolE(ble(qd,a->a))); out.push_back(boolE(blt(a->a,padd(qd,a->b)))); }
    else if(a->k==A_FLOOR){ out.push_back(boolE(ble(patom(id),a->a))); out.push_back(boolE(blt(a->a,padd(patom(id),pconst(1))))); }
    else if(a->k==A_SQRT){ out.push_back(boolE(beq(pmul(patom(id),patom(id)),a->a))); }
    else if(a->k==A_INV){ out.push_back(boolE(beq(pmul(patom(id),a->a),pconst(1)))); }
  }
}
static void axAtoms(std::set<int>&at){ // closure: axioms mention only sub-terms, already deep
}
bool Prover::ringZero(const Poly*p,const std::vector<const BNode*>&pc){
  try{
  for(int round=0;round<12;round++){
    if(p->t.empty())return true;
    bool ch=false;
    // linear equalities
    for(auto*b:pc) if(b->k==B_EQ){ std::set<int> pa; polyAtoms(p,pa,true);
      for(auto&t:b->p->t) if(t.m->deg==1){ int x=t.m->f[0].first; if(!pa.count(x))continue;
        const Poly*rest=psub(b->p,pscale(patom(x),t.c)); std::set<int> ra; polyAtoms(rest,ra,true); if(ra.count(x))continue;
        bool bigger=false; for(int y:ra) if(y>x&&atoms()[y]->k!=A_VAR) bigger=true; if(bigger) continue;
        std::map<int,const Poly*> m; m[x]=pscale(rest,Q(-1)/t.c); const Poly*q=psubst(p,m); if(q!=p){p=q;ch=true;} break; } }
    // sqrt
    const Poly*r=pconst(0); bool sq=false;
    for(auto&t:p->t){ const Poly*q=pconst(t.c); for(auto&f:t.m->f){ Atom*a=atoms()[f.first]; int e=f.second; if(a->k==A_SQRT&&e>=2){ sq=true; while(e>=2){q=pmul(q,a->a);e-=2;} } for(int i=0;i<e;i++)q=pmul(q,patom(f.first)); } r=padd(r,q);}
    if(sq){p=r;ch=true;}
    // inverses
    int u=-1; for(auto&t:p->t) for(auto&f:t.m->f) if(atoms()[f.first]->k==A_INV) u=std::max(u,f.first);
    if(u>=0){ ch=true; int k=0; for(auto&t:p->t) for(auto&f:t.m->f) if(f.first==u) k=std::max(k,f.second);
      std::vector<const Poly*> co(k+1,pconst(0));
      for(auto&t:p->t){ int e=0; const Mono*m=mono1(); for(auto&f:t.m->f) if(f.first==u) e=f.second; else m=monoMul(m,monoAtom(f.first,f.second));
        const Poly*q=pconst(t.c); for(auto&f:m->f) for(int i=0;i<f.second;i++) q=pmul(q,patom(f.first)); co[e]=padd(co[e],q); }
      const Poly*d=atoms()[u]->a; const Poly*pw=pconst(1); const Poly*acc=pconst(0); for(int e=k;e>=0;e--){ acc=padd(acc,pmul(co[e],pw)); if(e)pw=pmul(pw,d);} p=acc; }
    if(!ch)break;
  }
  return p->t.empty();
  }catch(Unsupported&){return false;}
}
std::vector<const BNode*> Prover::cone(const std::vector<const BNode*>&pc,const BNode*goal){
  std::set<int> at; boolAtoms(goal,at); std::vector<std::set<int>> as(pc.size()); for(size_t i=0;i<pc.size();i++)boolAtoms(pc[i],as[i]);
  std::vector<bool> in(pc.size(),false); bool ch=true; bool useB=true;
  while(ch){ ch=false; for(size_t i=0;i<pc.size();i++) if(!in[i]){ bool hit=as[i].empty(); for(int x:as[i]) if(at.count(x)){hit=true;break;} if(hit){in[i]=true;ch=true;at.insert(as[i].begin(),as[i].end());} } }
  std::vector<const BNode*> r; for(size_t i=0;i<pc.size();i++) if(in[i]) r.push_back(pc[i]); return r;
}
PR Prover::handelman(const std::vector<const BNode*>&pc,const BNode*goal,int maxprod){
  // refute  pc /\ !goal  by linear arithmetic over monomials after adding products of hypotheses
  const BNode*ng=bnot(goal); std::vector<const Poly*> H; // each >=0
  std::vector<const Poly*> S; // strict >0
  std::vector<const Poly*> E;
  std::function<void(const BNode*)> add=[&](const BNode*b){ if(b->k==B_LE) H.push_back(pneg(b->p)); else if(b->k==B_LT) S.push_back(pneg(b->p)); else if(b->k==B_EQ) E.push_back(b->p); else if(b->k==B_AND){add(b->x);add(b->y);} };
  add(ng); size_t ngH=H.size(),ngS=S.size(); if(ng->k==B_OR||ng->k==B_NOT||ng->k==B_VAR) return UNKNOWN;
  for(auto*b:pc)add(b);
  std::set<int> at; boolAtoms(ng,at); for(auto*b:pc)boolAtoms(b,at);
  for(int id:at){ Atom*a=atoms()[id]; if(a->iv.l)H.push_back(psub(patom(id),pconst(a->iv.lo))); if(a->iv.h)H.push_back(psub(pconst(a->iv.hi),patom(id)));
    if(a->k==A_IDIV){ const Poly*qd=pmul(a->b,patom(id)); H.push_back(psub(a->a,qd)); H.push_back(psub(psub(padd(qd,a->b),pconst(1)),a->a)); H.push_back(psub(a->b,pconst(1))); if(pbounds(patom(id),nullptr).l) H.push_back(psub(patom(id),pconst(pbounds(patom(id),nullptr).lo))); }
    if(a->k==A_INV) E.push_back(psub(pmul(patom(id),a->a),pconst(1)));
    if(a->k==A_SQRT) E.push_back(psub(pmul(patom(id),patom(id)),a->a));
    if(a->k==A_ITE) return UNKNOWN; }
  std::vector<const Poly*> all=H; all.insert(all.end(),S.begin(),S.end());
  // dedupe
  std::sort(all.begin(),all.end(),[](const Poly*a,const Poly*b){return a->id<b->id;}); all.erase(std::unique(all.begin(),all.end()),all.end());
  if(all.size()>70) return UNKNOWN;
  int maxdeg=0; for(auto*p:all) if(p->t.size()) maxdeg=std::max(maxdeg,p->t[0].m->deg); if(maxdeg>6) return UNKNOWN;
  std::vector<const Poly*> prods; 
  try{ for(size_t i=0;i<all.size();i++) for(size_t j=i;j<all.size();j++){ if(all[i]->t.size()*all[j]->t.size()>60)continue; int d=(all[i]->t.empty()?0:all[i]->t[0].m->deg)+(all[j]->t.empty()?0:all[j]->t[0].m->deg); if(d>std::max(2,maxdeg)+1) continue; prods.push_back(pmul(all[i],all[j])); if((int)prods.size()>maxprod)break; } 
    // E * atoms
    std::vector<const Poly*> E2=E; for(auto*e:E) if(e->t.size()<6) for(int id:at) if(E2.size()<300) E2.push_back(pmul(e,patom(id))); E=E2;
  }catch(Unsupported&){}
  z3::solver s(ctx,"QF_LRA"); std::map<const Mono*,z3::expr> mv;
  auto lin=[&](const Poly*p){ z3::expr_vector v(ctx); for(auto&t:p->t){ z3::expr c=ctx.real_val(qs(t.c).c_str()); if(t.m->f.empty()){v.push_back(c);continue;} auto it=mv.find(t.m); if(it==mv.end()) it=mv.emplace(t.m,ctx.real_const(("m"+std::to_string(t.m->id)).c_str())).first; v.push_back(c*it->second);} if(v.size()==0) return ctx.real_val(0); return z3::expr(z3::sum(v)); };
  for(auto*p:H) s.add(lin(p)>=0); for(auto*p:S) s.add(lin(p)>0); for(auto*p:E) s.add(lin(p)==0); for(auto*p:prods) s.add(lin(p)>=0);
  z3::params P(ctx); P.set("rlimit",8000000u); P.set("timeout",15000u); s.set(P);
  queries++; auto t0=std::chrono::steady_clock::now(); auto r=s.check(); solverSec+=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
  return r==z3::unsat?PROVED:UNKNOWN;
}
PR Prover::z3run(const std::vector<const BNode*>&pc,const BNode*goal,unsigned rlimit,Model*m,bool nl){
  std::set<int> at; const BNode*ng=bnot(goal); boolAtoms(ng,at); for(auto*b:pc)boolAtoms(b,at);
  std::vector<z3::expr> ax; axioms(at,ax);
  bool anyInt=false; for(int a:at) if(atoms()[a]->isInt) anyInt=true;
  auto t0=std::chrono::steady_clock::now(); z3::check_result r; queries++;
  auto go=[&](z3::solver s){ z3::params P(ctx); P.set("rlimit",rlimit); P.set("timeout",rlimit<=2000000u?8000u:rlimit<=20000000u?25000u:60000u); P.set("random_seed",0u); s.set(P); for(auto&e:ax)s.add(e); for(auto*b:pc)s.add(boolE(b)); s.add(boolE(ng)); 
    try{ r=s.check(); }catch(z3::exception&){ r=z3::unknown; }
    if(r==z3::sat&&m){ z3::model mo=s.get_model(); for(int id:at){ Atom*a=atoms()[id]; if(a->k==A_VAR&&a->isInput){ z3::expr v=mo.eval(atom(id),true); std::string sv; if(v.is_numeral()) sv=v.to_string(); 
          if(v.is_numeral()){ Z3_string q=Z3_get_numeral_string(ctx,v); sv=q; } else if(v.is_algebraic()) sv=Z3_get_numeral_decimal_string(ctx,v,15); else sv="0"; m->vals[a->name]=sv; }
        else if(a->k==A_SEL){ z3::expr i=mo.eval(poly(a->args[0]),true), v=mo.eval(atom(id),true); if(i.is_numeral()&&v.is_numeral()) m->arrays[a->name][Z3_get_numeral_string(ctx,i)]=Z3_get_numeral_string(ctx,v); } }
      std::function<void(const BNode*)> bw=[&](const BNode*b){ if(b->k==B_VAR&&b->isInput){ z3::expr v=mo.eval(boolE(b),true); m->vals[b->name]=v.is_true()?"1":"0"; } if(b->x)bw(b->x); if(b->y)bw(b->y); }; bw(ng); for(auto*b:pc)bw(b); } };
  if(nl&&!anyInt){ z3::tactic t=z3::tactic(ctx,"simplify")&z3::tactic(ctx,"solve-eqs")&z3::tactic(ctx,"purify-arith")&z3::tactic(ctx,"qfnra-nlsat"); try{ go(t.mk_solver()); }catch(z3::exception&){ r=z3::unknown; } if(r==z3::unknown) go(z3::solver(ctx)); }
  else go(z3::solver(ctx));
  solverSec+=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
  return r==z3::unsat?PROVED:r==z3::sat?REFUTED:UNKNOWN;
}
// linear abstraction: every non-linear monomial is an unknown of its own (only bounded by its interval); sound for "proved"
PR Prover::absrun(const std::vector<const BNode*>&pc,const Bounds*bd,const BNode*goal,unsigned rlimit){
  struct Swap { Prover&P; std::map<int,z3::expr> a; std::map<const Poly*,z3::expr> p; std::map<int,z3::expr> b; Swap(Prover&P_):P(P_){ a.swap(P.atomE); p.swap(P.pE); b.swap(P.bE); P.absMode=true; P.absMonos.clear(); P.absSeen.clear(); } ~Swap(){ a.swap(P.atomE); p.swap(P.pE); b.swap(P.bE); P.absMode=false; } } sw(*this);
  auto t0=std::chrono::steady_clock::now(); z3::check_result r=z3::unknown; queries++;
  try{ std::set<int> at; const BNode*ng=bnot(goal); boolAtoms(ng,at); for(auto*b:pc)boolAtoms(b,at); std::vector<z3::expr> ax; axioms(at,ax); z3::solver s(ctx); z3::params Pm(ctx); Pm.set("rlimit",rlimit); Pm.set("timeout",8000u); Pm.set("random_seed",0u); s.set(Pm);
    for(auto&e:ax) s.add(e); for(auto*b:pc) s.add(boolE(b)); s.add(boolE(ng));
    for(size_t i=0;i<absMonos.size();i++){ const Mono*m=absMonos[i]; const Poly*q=pconst(1); for(auto&f:m->f) for(int e=0;e<f.second;e++) q=pmul(q,patom(f.first)); Iv iv=pbounds(q,bd); z3::expr e=poly(q); bool in=e.is_int(); auto num=[&](const Q&v){ return ctx.real_val(qs(v).c_str()); }; z3::expr er=in?z3::to_real(e):e; if(iv.l) s.add(er>=num(iv.lo)); if(iv.h) s.add(er<=num(iv.hi)); }
    r=s.check(); }catch(z3::exception&){ r=z3::unknown; }catch(Unsupported&){ r=z3::unknown; }
  solverSec+=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); return r==z3::unsat?PROVED:UNKNOWN; }
PR Prover::ext(const std::vector<const BNode*>&pc,const BNode*goal){
  std::set<int> at; const BNode*ng=bnot(goal); boolAtoms(ng,at); for(auto*b:pc)boolAtoms(b,at);
  std::vector<z3::expr> ax; axioms(at,ax); z3::solver s(ctx); for(auto&e:ax)s.add(e); for(auto*b:pc)s.add(boolE(b)); s.add(boolE(ng));
  std::string f=tmpdir+"/q"+std::to_string(getpid())+"_"+std::to_string(dumpN++)+".smt2"; { std::ofstream o(f); std::string q=Z3_solver_to_string(ctx,s); o<<"(set-logic ALL)\n"<<q<<"\n(check-sat)\n"; }
  auto t0=std::chrono::steady_clock::now(); PR res=UNKNOWN;
  std::string T=std::to_string(extTimeout);
  std::string cmd="( timeout "+T+" z3-new -T:"+T+" "+f+" > "+f+".a 2>/dev/null & A=$!; timeout "+T+" cvc5 --nl-cov "+f+" > "+f+".b 2>/dev/null & B=$!; while kill -0 $A 2>/dev/null || kill -0 $B 2>/dev/null; do if grep -q -E '^(un)?sat' "+f+".a "+f+".b 2>/dev/null; then kill $A $B 2>/dev/null; break; fi; sleep 0.05; done; wait 2>/dev/null ) 2>/dev/null";
  if(system(cmd.c_str())){}; for(const char*x:{".a",".b"}){ std::ifstream i(f+x); std::string l; while(std::getline(i,l)){ if(l=="unsat"){ res=PROVED; lastBackend=x[1]=='a'?"z3-new":"cvc5"; } else if(l=="sat"&&res==UNKNOWN) res=REFUTED; } }
  if(!getenv("FTKV_KEEP")){ unlink(f.c_str()); unlink((f+".a").c_str()); unlink((f+".b").c_str()); }
  solverSec+=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); return res;
}
static bool nonlinear(const BNode*b){ if(b->p) for(auto&t:b->p->t){ if(t.m->deg>1)return true; } std::set<int> at; if(b->p){ polyAtoms(b->p,at); for(int i:at){ auto*a=atoms()[i]; if(a->k==A_INV||a->k==A_SQRT)return true; if(a->k==A_IDIV&&!pisconst(a->b))return true; if(a->a) for(auto&t:a->a->t) if(t.m->deg>1) return true; } } return (b->x&&nonlinear(b->x))||(b->y&&nonlinear(b->y)); }
// k = D*q + r with 0 <= r < D, and q < B whenever k < D*B: rewrite quotients and remainders by non-negative slacks, then compare by intervals
static const Poly* shallowSub(const Poly*p,int id,const Poly*v){ const Poly*r=pconst(0); std::vector<const Poly*> pw{pconst(1)}; for(auto&t:p->t){ int e=0; const Poly*q=pconst(t.c); const Mono*m=mono1(); for(auto&f:t.m->f) if(f.first==id) e=f.second; else m=monoMul(m,monoAtom(f.first,f.second)); if(!m->f.empty()){ const Poly*mm=pconst(1); for(auto&f:m->f) for(int i=0;i<f.second;i++) mm=pmul(mm,patom(f.first)); q=pmul(q,mm); } while((int)pw.size()<=e) pw.push_back(pmul(pw.back(),v)); r=padd(r,e?pmul(q,pw[e]):q); } return r; }
bool Prover::mixedRadix(const std::vector<const BNode*>&pc,const Bounds*bd,const BNode*goal){
  if(goal->k!=B_LE||!goal->p->isInt) return false; std::set<int> top; polyAtoms(goal->p,top,true); std::vector<int> q; for(int x:top) if(atoms()[x]->k==A_IDIV&&!pisconst(atoms()[x]->b)) q.push_back(x); if(q.empty()||q.size()>4) return false; std::sort(q.rbegin(),q.rend());
  try{
  std::vector<const Poly*> B(q.size(),nullptr); for(size_t i=0;i<q.size();i++){ Atom*a=atoms()[q[i]]; Iv d=pbounds(a->b,bd); if(!d.l||d.lo<1) return false; auto tryM=[&](const Poly*M1){ if(B[i]) return; const Poly*A,*R; pdivmod(M1,a->b,&A,&R); if(R->t.empty()&&A->isInt&&!A->t.empty()) B[i]=A; };
    for(size_t j=0;j<q.size();j++) if(j!=i){ Atom*c=atoms()[q[j]]; if(psub(a->a,psub(c->a,pmul(c->b,patom(q[j]))))->t.empty()) tryM(c->b); }
    std::set<int> na; polyAtoms(a->a,na,false); for(auto*h:pc) if(h->k==B_LE&&h->p->isInt){ std::set<int> ha; polyAtoms(h->p,ha,false); bool share=false; for(int x:ha) if(na.count(x)) share=true; if(share) tryM(padd(psub(a->a,h->p),pconst(1))); } }
  Iv nn; nn.l=true; nn.lo=0; int last=0; int kv=-1; { Atom*a=atoms()[q[0]]; for(auto&t:a->a->t) if(t.m->deg==1&&t.c==1&&atoms()[t.m->f[0].first]->k==A_VAR) kv=t.m->f[0].first; if(kv>=0){ bool once=true; for(auto&t:a->a->t) if(t.m->deg>1) for(auto&f:t.m->f) if(f.first==kv) once=false; if(!once) kv=-1; } }
  for(int mode=0;mode<(1<<(q.size()+1));mode++){ const Poly*p=goal->p; bool ok=true;
    if(kv>=0){ Atom*a=atoms()[q[0]]; const Poly*r=pvar("mrr",true,nn); if(!(mode&1)) r=psub(psub(a->b,pconst(1)),r); p=shallowSub(p,kv,padd(padd(psub(patom(kv),a->a),pmul(a->b,patom(q[0]))),r)); } else if(mode&1) continue;
    for(size_t i=0;i<q.size()&&ok;i++){ bool up=!(mode&(2<<i)); if(up&&!B[i]){ ok=false; break; } p=shallowSub(p,q[i],up?psub(psub(B[i],pconst(1)),pvar("mre"+std::to_string(i),true,nn)):patom(q[i])); }
    if(!ok) continue; Iv iv=pbounds(p,bd); if(iv.h&&iv.hi<=0) return true; if(p->t.empty()) return true; }
  (void)last; }catch(Unsupported&){} return false; }
// evaluation under concrete values of the inputs (only ever used to exhibit a model, never to prove)
struct Ev { std::map<int,long double> v; std::function<long double(int)> pick; bool bad=false; std::map<const Poly*,std::pair<long double,long double>> memo;
  std::pair<long double,long double> poly(const Poly*p){ auto it=memo.find(p); if(it!=memo.end()) return it->second; long double s=0,sc=0; for(auto&t:p->t){ long double x=mpq_get_d(t.c.get_mpq_t()); for(auto&f:t.m->f){ long double a=atom(f.first); for(int i=0;i<f.second;i++) x*=a; } s+=x; sc+=fabsl(x); } if(!(sc<1e200L)) bad=true; return memo[p]={s,sc}; }
  long double atom(int id){ auto it=v.find(id); if(it!=v.end()) return it->second; Atom*a=atoms()[id]; long double r=0; switch(a->k){ case A_VAR: case A_UF: r=pick(id); break; case A_SEL: { r=pick(id); break; }
      case A_ITE: { int b=boolv(a->c); if(b<0){ bad=true; b=0; } r=poly(b?a->a:a->b).first; break; } case A_IDIV: { long double d=poly(a->b).first; if(d<=0){ bad=true; d=1; } r=floorl(poly(a->a).first/d); break; }
      case A_INV: { auto d=poly(a->a); if(fabsl(d.first)<=1e-9L*d.second||d.first==0){ bad=true; r=0; } else r=1/d.first; break; } case A_FLOOR: r=floorl(poly(a->a).first); break; case A_SQRT: { auto d=poly(a->a).first; if(d<0){ bad=true; d=0; } r=sqrtl(d); break; } }
    return v[id]=r; }
  int boolv(const BNode*b){ switch(b->k){ case B_T: return 1; case B_F: return 0; case B_NOT: { int x=boolv(b->x); return x<0?-1:1-x; } case B_AND: { int x=boolv(b->x); if(x==0) return 0; int y=boolv(b->y); if(y==0) return 0; return x<0||y<0?-1:1; } case B_OR: { int x=boolv(b->x); if(x==1) return 1; int y=boolv(b->y); if(y==1) return 1; return x<0||y<0?-1:0; }
      case B_EQ: case B_LT: case B_LE: { auto d=poly(b->p); long double t=b->p->isInt?0:1e-12L*d.second; if(b->k==B_EQ) return fabsl(d.first)<=t?1:(b->p->isInt||fabsl(d.first)>1e-6L*d.second)?0:-1; if(fabsl(d.first)<=t&&!b->p->isInt){ if(d.second==0) return b->k==B_LE; return -1; } return b->k==B_LT? d.first<0 : d.first<=0; }
      default: return -1; } } };
static bool hasQuant(const BNode*b){ if(b->k==B_FORALL||b->k==B_VAR) return true; return (b->x&&hasQuant(b->x))||(b->y&&hasQuant(b->y)); }
bool Prover::sample(const std::vector<const BNode*>&pc,const Bounds*bd,const BNode*goal,Model*m,int tries){
  if(hasQuant(goal)) return false; for(auto*b:pc) if(hasQuant(b)) return false; std::mt19937_64 rng(12345); std::map<int,long double> fixedv;
  std::set<int> at; boolAtoms(goal,at); for(auto*b:pc) boolAtoms(b,at); for(int x:at) if(atoms()[x]->k==A_SEL||(atoms()[x]->k==A_UF&&goal->k!=B_F)) return false;
  size_t w=1; for(auto*b:pc){ std::vector<const BNode*> st{b}; while(!st.empty()){ auto*n=st.back(); st.pop_back(); if(n->p) w+=n->p->t.size(); if(n->x)st.push_back(n->x); if(n->y)st.push_back(n->y); } } for(int x:at){ if(atoms()[x]->a) w+=atoms()[x]->a->t.size(); if(atoms()[x]->b) w+=atoms()[x]->b->t.size(); }
  tries=std::min<long>(tries,std::max<long>(3,400000/(long)w));
  for(int k=0;k<tries;k++){ Ev e; int mode=rng()%5; e.pick=[&](int id)->long double{ Atom*a=atoms()[id]; Iv iv=pbounds(patom(id),bd); double lo=iv.l?iv.lo.get_d():-1e18,hi=iv.h?iv.hi.get_d():1e18; double v; 
      if(a->isInt){ if(hi-lo<=16) v=lo+rng()%(unsigned long)(hi-lo+1); else switch(rng()%4){ case 0: v=lo>-1e17?lo+rng()%6:hi<1e17?hi-rng()%6:(double)(long)(rng()%13)-6; break; case 1: v=hi<1e17&&rng()%2?hi-rng()%4:(double)(rng()%12); break; default: v=(double)(long)(rng()%21)-(lo>=0?0:10); } v=std::floor(std::min(hi,std::max(lo,v))); }
      else { switch(mode){ case 0: v=(long)(rng()%9)-4; break; case 1: v=((long)(rng()%41)-20)/4.0; break; case 2: v=(rng()%65)/64.0; break; case 3: v=(long)(rng()%201)-100; break; default: v=((long)(rng()%1025)-512)/64.0; } if(hi-lo<=1&&(v<lo||v>hi)) v=lo+(hi-lo)*(rng()%9)/8.0; v=std::min(hi,std::max(lo,v)); } return v; };
    bool ok=true; for(auto*b:pc) if(e.boolv(b)!=1||e.bad){ ok=false; break; } if(!ok) continue; if(e.boolv(goal)!=0||e.bad) continue;
    // bounds of derived values hold by construction; bounds refined on the path must hold for inputs
    if(bd) for(auto&kv:*bd){ auto it=e.v.find(kv.first); if(it!=e.v.end()){ if(kv.second.l&&it->second<kv.second.lo.get_d()) ok=false; if(kv.second.h&&it->second>kv.second.hi.get_d()) ok=false; } } if(!ok) continue;
    if(m){ m->vals.clear(); m->av.clear(); for(auto&kv:e.v){ Atom*a=atoms()[kv.first]; if(a->k==A_VAR){ m->av[kv.first]=kv.second; if(a->isInput){ std::ostringstream o; if(a->isInt) o<<(long)kv.second; else { o.precision(17); o<<(double)kv.second; } m->vals[a->name]=o.str(); } } } }
    return true; }
  return false; }
static bool heavyPc(const std::vector<const BNode*>&pc){ size_t w=0; bool nl=false; for(auto*b:pc){ std::set<int> at; boolAtoms(b,at); for(int x:at){ Atom*a=atoms()[x]; if(a->k==A_INV||a->k==A_SQRT){ nl=true; w+=a->a->t.size(); } } if(b->p&&!b->p->isInt) w+=b->p->t.size(); } return nl&&w>60; }
// sign by terms: p <= 0 termwise with one term that is a product of variables the path condition makes positive, hence p < 0
static bool strictNeg(const Poly*p,const std::vector<const BNode*>&pc,const Bounds*bd,int sg){
  Q hi=0; bool cand=false; std::set<int> pos; bool have=false;
  for(auto&t:p->t){ Q c=t.c*sg; if(t.m->f.empty()){ hi+=c; continue; } const Poly*q=pconst(1); for(auto&f:t.m->f) for(int e=0;e<f.second;e++) q=pmul(q,patom(f.first)); Iv iv=pbounds(q,bd); if(c>0){ if(!iv.h) return false; hi+=c*iv.hi; } else { if(!iv.l) return false; hi+=c*iv.lo; if(iv.lo==0&&!cand){ if(!have){ have=true; for(auto*b:pc) if(b->k==B_LT&&b->p->t.size()==1&&b->p->t[0].m->deg==1&&b->p->t[0].c<0) pos.insert(b->p->t[0].m->f[0].first); } bool all=true; for(auto&f:t.m->f) if(!pos.count(f.first)) all=false; cand=all; } else if(iv.lo>0) cand=true; } }
  return hi<0||(hi==0&&cand); }
// difference logic: comparisons of plain variables up to a constant, decided by shortest paths (disequalities only matter when implied equal).
// 1: pc implies goal, 0: it does not, -1: outside the fragment and not implied by the part inside
static int diffLogic(const std::vector<const BNode*>&pc,const Bounds*bd,const BNode*goal,int budget=5){ const BNode*dis=nullptr; size_t disAt=0;
  struct D { Q w; bool inf=true,st=false; }; std::map<int,int> nid; std::vector<std::array<int,2>> ed; std::vector<std::pair<Q,bool>> ew; std::vector<std::tuple<int,int,Q>> ne; bool complete=true,anyInt=false,ok=true;
  auto node=[&](int a){ auto it=nid.find(a); if(it!=nid.end()) return it->second; int n=nid.size()+1; nid[a]=n; return n; };
  auto shape=[&](const Poly*p,int&x,int&y,Q&w)->bool{ // p = c*(x - y - w), c>0
    x=y=0; Q c=0,k=0; for(auto&t:p->t){ if(t.m->f.empty()){ k=t.c; continue; } if(t.m->deg!=1) return false; Atom*a=atoms()[t.m->f[0].first]; if(a->k!=A_VAR) return false; if(a->isInt) anyInt=true; if(c==0) c=abs(t.c); else if(abs(t.c)!=c) return false; int n=node(t.m->f[0].first); if(t.c>0){ if(x) return false; x=n; } else { if(y) return false; y=n; } } if(c==0) return false; w=-k/c; return true; };
  auto add=[&](int x,int y,const Q&w,bool st){ ed.push_back({x,y}); ew.push_back({w,st}); };
  std::function<bool(const BNode*)> put=[&](const BNode*b)->bool{ int x,y; Q w; switch(b->k){ case B_T: return true; case B_AND: { bool r=put(b->x); return put(b->y)&&r; } case B_LE: case B_LT: if(!shape(b->p,x,y,w)) return false; add(x,y,w,b->k==B_LT); return true; case B_EQ: if(!shape(b->p,x,y,w)) return false; add(x,y,w,false); add(y,x,-w,false); return true; case B_NOT: if(b->x->k==B_EQ&&shape(b->x->p,x,y,w)){ ne.push_back({x,y,w}); return true; } return false; default: return false; } };
  if(goal->k!=B_F){ const BNode*ng=bnot(goal); if(ng->k==B_OR||!put(ng)) return -1; }
  for(size_t i=0;i<pc.size();i++) if(!put(pc[i])){ const BNode*b=pc[i]; if(b->k==B_OR&&!dis){ dis=b; disAt=i; } else if(b->k!=B_OR) complete=false; }
  size_t n=nid.size()+1; if(n>24) return -1; for(auto&a:nid){ Iv iv=pbounds(patom(a.first),bd); if(iv.h) add(a.second,0,iv.hi,false); if(iv.l) add(0,a.second,-iv.lo,false); }
  std::vector<D> d(n*n); for(size_t i=0;i<n;i++){ d[i*n+i].inf=false; d[i*n+i].w=0; }
  auto better=[&](const Q&w,bool st,const D&o){ return o.inf||w<o.w||(w==o.w&&st&&!o.st); };
  for(size_t i=0;i<ed.size();i++){ D&o=d[ed[i][0]*n+ed[i][1]]; if(better(ew[i].first,ew[i].second,o)){ o.inf=false; o.w=ew[i].first; o.st=ew[i].second; } }
  for(size_t k=0;k<n&&ok;k++) for(size_t i=0;i<n;i++){ const D&a=d[i*n+k]; if(a.inf) continue; for(size_t j=0;j<n;j++){ const D&b=d[k*n+j]; if(b.inf) continue; Q w=a.w+b.w; D&o=d[i*n+j]; bool st=a.st||b.st; if(better(w,st,o)){ o.inf=false; o.w=w; o.st=st; } } }
  for(size_t i=0;i<n;i++){ const D&o=d[i*n+i]; if(o.w<0||o.st) return 1; }
  for(auto&z:ne){ const D&a=d[std::get<0>(z)*n+std::get<1>(z)],&b=d[std::get<1>(z)*n+std::get<0>(z)]; const Q&w=std::get<2>(z); if(!a.inf&&!b.inf&&!a.st&&!b.st&&a.w==w&&b.w==-w) return 1; }
  if(dis&&budget>0){ int res=1; for(int side=0;side<2&&res==1;side++){ auto p2=pc; p2[disAt]=side?band(bnot(dis->x),dis->y):dis->x; int r=diffLogic(p2,bd,goal,budget-1); if(r!=1) res=r; } return res; }
  return complete&&!dis&&!anyInt?0:-1; }
// add non-negative multiples of hypotheses: replace a variable by its linear upper/lower bound where the comparison is monotone in it, then compare by intervals
static bool monoElim(const Poly*p,bool strict,const std::vector<std::pair<const Poly*,bool>>&hyp,const Bounds*bd,std::set<int>&used,int depth,int&budget){
  Iv iv=pbounds(p,bd); if(iv.h&&(iv.hi<0||(iv.hi==0&&!strict))) return true; if(depth==0||--budget<0) return false;
  std::map<int,int> deg; for(auto&t:p->t) for(auto&f:t.m->f) deg[f.first]=std::max(deg[f.first],f.second);
  for(auto&dv:deg){ int x=dv.first; if(dv.second!=1||used.count(x)) continue;
    const Poly*c=pconst(0),*rest=pconst(0); for(auto&t:p->t){ bool has=false; const Poly*q=pconst(t.c); for(auto&f:t.m->f){ if(f.first==x) has=true; else for(int e=0;e<f.second;e++) q=pmul(q,patom(f.first)); } if(has) c=padd(c,q); else rest=padd(rest,q); }
    Iv ci=pbounds(c,bd); int sg=ci.l&&ci.lo>=0?1:ci.h&&ci.hi<=0?-1:0; if(!sg) continue;
    for(auto&h:hyp){ Q a=0; bool bad=false; for(auto&t:h.first->t) for(auto&f:t.m->f) if(f.first==x){ if(t.m->deg==1) a=t.c; else bad=true; } if(bad||a==0||(a>0)!=(sg>0)) continue;
      const Poly*b=psub(patom(x),pscale(h.first,1/a)); if(b->t.size()*c->t.size()>40) continue; const Poly*n; try{ n=padd(pmul(c,b),rest); }catch(Unsupported&){ continue; } if(n->t.size()>48) continue;
      used.insert(x); bool r=monoElim(n,strict,hyp,bd,used,depth-1,budget); used.erase(x); if(r) return true; if(budget<0) return false; } }
  return false; }
static bool monoGoal(const Poly*p,bool strict,const std::vector<const BNode*>&pc,const Bounds*bd){ if(!p->isInt||p->t.size()>40) return false; std::set<int> at; polyAtoms(p,at,true); std::vector<std::pair<const Poly*,bool>> hyp; std::set<int> reach=at;
  std::vector<std::pair<const Poly*,bool>> all; std::function<void(const BNode*)> add=[&](const BNode*b){ if(b->k==B_LE||b->k==B_LT){ if(b->p->isInt&&b->p->t.size()<=16) all.push_back({b->p,b->k==B_LT}); } else if(b->k==B_EQ){ if(b->p->isInt&&b->p->t.size()<=16){ all.push_back({b->p,false}); all.push_back({pneg(b->p),false}); } } else if(b->k==B_AND){ add(b->x); add(b->y); } }; for(auto*b:pc) add(b);
  std::vector<bool> in(all.size(),false); for(int r=0;r<3;r++) for(size_t i=0;i<all.size();i++) if(!in[i]){ std::set<int> ha; polyAtoms(all[i].first,ha,true); bool hit=false; for(int x:ha) if(reach.count(x)) hit=true; if(hit){ in[i]=true; reach.insert(ha.begin(),ha.end()); hyp.push_back(all[i]); } } if(hyp.size()>60) hyp.resize(60);
  std::set<int> used; int budget=120; return monoElim(p,strict,hyp,bd,used,4,budget); }
bool Prover::cheap(const std::vector<const BNode*>&pc,const Bounds*bd,const BNode*goal){ if(goal->k==B_LE||goal->k==B_LT){ Iv iv=pbounds(goal->p,bd); if(iv.h&&(iv.hi<0||(iv.hi==0&&goal->k==B_LE))) return true; return monoGoal(goal->p,goal->k==B_LT,pc,bd); }
  if(goal->k==B_NOT&&goal->x->k==B_EQ){ const Poly*p=goal->x->p; Iv iv=pbounds(p,bd); if((iv.l&&iv.lo>0)||(iv.h&&iv.hi<0)) return true; return monoGoal(p,true,pc,bd)||monoGoal(pneg(p),true,pc,bd); } return false; }
PR Prover::proveCore(const std::vector<const BNode*>&pc,const Bounds*bd,const BNode*goal,int effort,Model*m,int splits){
  PR r0;
  if(goal->k==B_T){lastBackend="ring";return PROVED;}
  for(auto*b:pc) if(b==goal){lastBackend="ring";return PROVED;}
  if(goal->k==B_AND){ PR a=proveCore(pc,bd,goal->x,effort,m,splits); if(a!=PROVED)return a; return proveCore(pc,bd,goal->y,effort,m,splits); }
  if(goal->p){ Iv iv=pbounds(goal->p,bd); if(goal->k==B_LE&&iv.h&&iv.hi<=0){lastBackend="interval";return PROVED;} if(goal->k==B_LT&&iv.h&&iv.hi<0){lastBackend="interval";return PROVED;} }
  if(goal->k==B_LT&&goal->p->t.size()<=12&&strictNeg(goal->p,pc,bd,1)){lastBackend="interval";return PROVED;}
  if(goal->k==B_NOT&&goal->x->k==B_EQ&&goal->x->p->t.size()<=12&&(strictNeg(goal->x->p,pc,bd,1)||strictNeg(goal->x->p,pc,bd,-1))){lastBackend="interval";return PROVED;}
  if((goal->k==B_LE||goal->k==B_LT)&&monoGoal(goal->p,goal->k==B_LT,pc,bd)){lastBackend="monotone";return PROVED;}
  if(goal->k==B_NOT&&goal->x->k==B_EQ&&(monoGoal(goal->x->p,true,pc,bd)||monoGoal(pneg(goal->x->p),true,pc,bd))){lastBackend="monotone";return PROVED;}
  if(goal->k==B_LE&&mixedRadix(pc,bd,goal)){lastBackend="mixed-radix";return PROVED;}
  if(goal->k==B_NOT&&goal->x->k==B_EQ){ Iv iv=pbounds(goal->x->p,bd); if((iv.l&&iv.lo>0)||(iv.h&&iv.hi<0)){lastBackend="interval";return PROVED;} 
     for(auto*b:pc) if(b->k==B_LE||b->k==B_LT){ } }
  if(goal->k!=B_VAR&&goal->k!=B_FORALL){ int dl=diffLogic(goal->k==B_F?pc:cone(pc,goal),bd,goal); if(dl==1){lastBackend="difference-logic";return PROVED;} if(dl==0&&!m) return REFUTED; }
  if(effort&&m&&goal->k!=B_EQ&&sample(pc,bd,goal,m,200)) return REFUTED;
  if(goal->k==B_EQ && (effort>0 || goal->p->t.size()<40)){ if(ringZero(goal->p,pc)){lastBackend="ring";return PROVED;} }
  if(effort&&m&&goal->k==B_EQ&&sample(pc,bd,goal,m,200)) return REFUTED;
  if(getenv("FTKV_Q")){ std::cerr<<"QUERY "<<effort<<" "<<bstr(goal,2).substr(0,300)<<" | pc "<<pc.size()<<"\n"; }
  auto cp= goal->k==B_F? pc : cone(pc,goal);
  if(goal->k==B_F&&(reachQuery||!effort)&&heavyPc(pc)){ if(!effort) return UNKNOWN; r0=z3run(pc,goal,1500000u,m,true); return r0; }
  bool nl=nonlinear(goal); for(auto*b:cp) if(!nl) nl=nonlinear(b);
  PR r;
  if(!nl){ r=z3run(cp,goal,effort?20000000u:2000000u,effort?nullptr:nullptr,false); if(r==PROVED){lastBackend="z3";return r;} if(r==REFUTED){ if(m){ PR q=z3run(pc,goal,20000000u,m,false); return q==PROVED?PROVED:REFUTED; } return cp.size()==pc.size()?REFUTED: REFUTED; } }
  else {
    r=handelman(cp,goal,effort?1500:300); if(r==PROVED){lastBackend="lra-products";return r;}
    r=absrun(cp,bd,goal,400000u); if(r==PROVED){lastBackend="z3-linear";return r;}
    r=z3run(cp,goal,effort?3000000u:400000u,nullptr,true); if(r==PROVED){lastBackend="z3";return r;}
    if(r==REFUTED){ if(m){ PR q=z3run(pc,goal,20000000u,m,true); if(q==PROVED){lastBackend="z3";return PROVED;} } return REFUTED; }
  }
  if(!effort) return UNKNOWN;
  // case split on ite atoms
  if(splits>0){ std::set<int> at; boolAtoms(goal,at); int pick=-1; for(int id:at) if(atoms()[id]->k==A_ITE){ // innermost condition (no ite inside)
        std::set<int> ca; boolAtoms(atoms()[id]->c,ca); bool inner=false; for(int c:ca) if(atoms()[c]->k==A_ITE) inner=true; if(!inner){pick=id;break;} }
    if(pick>=0){ Atom*a=atoms()[pick]; bool ok=true; 
      for(int side=0;side<2;side++){ std::vector<const BNode*> pc2; const BNode*c=side?bnot(a->c):a->c; std::map<int,const Poly*> sm; 
        for(int id:at) if(atoms()[id]->k==A_ITE){ if(atoms()[id]->c==a->c) sm[id]=side?atoms()[id]->b:atoms()[id]->a; else if(atoms()[id]->c==bnot(a->c)) sm[id]=side?atoms()[id]->a:atoms()[id]->b; }
        sm[pick]=side?a->b:a->a;
        for(auto*b:pc) pc2.push_back(bsubst(b,sm)); pc2.push_back(c); bool incons=false; for(auto*b:pc2) if(b->k==B_F) incons=true; if(incons)continue;
        PR q=proveCore(pc2,bd,bsubst(goal,sm),effort,m,splits-1); if(q!=PROVED){ return q; } }
      return PROVED; } }
  r=z3run(cp,goal,60000000u,nullptr,nl); if(r==PROVED){lastBackend="z3";return r;}
  if(r==REFUTED){ if(m){ PR q=z3run(pc,goal,60000000u,m,nl); if(q==PROVED)return PROVED; } return REFUTED; }
  if(allowExt){ r=ext(cp,goal); if(r==PROVED) return r; if(r==REFUTED){ if(m) z3run(pc,goal,100000000u,m,nl); return REFUTED; } }
  if(m){ PR q=z3run(pc,goal,60000000u,m,nl); if(q==REFUTED) return REFUTED; }
  return UNKNOWN;
}
PR Prover::prove(const std::vector<const BNode*>&pc,const Bounds*bd,const BNode*goal,int effort,Model*m){
  std::string key; if(!m&&effort==0){ key=std::to_string(goal->id)+"|"; for(auto*b:pc){key+=std::to_string(b->id);key+=',';} auto it=cache.find(key); if(it!=cache.end())return it->second; }
  PR r=proveCore(pc,bd,goal,effort,m,6);
  if(!key.empty()) cache[key]=r; return r;
}
