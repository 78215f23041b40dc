#include "expr.h"
int g_maxTerms=40000;
static std::vector<Atom*> g_atoms;
std::vector<Atom*>& atoms(){return g_atoms;}
// ---- monomials
struct MonoKeyHash{size_t operator()(const std::vector<std::pair<int,int>>&v)const{size_t h=1469598103934665603ull;for(auto&p:v){h=(h^(size_t)p.first)*1099511628211ull;h=(h^(size_t)p.second)*1099511628211ull;}return h;}};
static std::unordered_map<std::vector<std::pair<int,int>>,Mono*,MonoKeyHash> g_monos;
static const Mono* mk(std::vector<std::pair<int,int>> f){
  auto it=g_monos.find(f); if(it!=g_monos.end()) return it->second;
  Mono*m=new Mono; m->id=g_monos.size(); m->deg=0; for(auto&p:f)m->deg+=p.second; m->f=f; g_monos[f]=m; return m;
}
const Mono* mono1(){static const Mono*m=mk({});return m;}
const Mono* monoAtom(int a,int e){return mk({{a,e}});}
const Mono* monoMul(const Mono*a,const Mono*b){
  if(a->f.empty())return b; if(b->f.empty())return a;
  std::vector<std::pair<int,int>> r; size_t i=0,j=0;
  while(i<a->f.size()||j<b->f.size()){
    if(j==b->f.size()||(i<a->f.size()&&a->f[i].first<b->f[j].first)) r.push_back(a->f[i++]);
    else if(i==a->f.size()||b->f[j].first<a->f[i].first) r.push_back(b->f[j++]);
    else { r.push_back({a->f[i].first,a->f[i].second+b->f[j].second}); i++;j++; }
  }
  return mk(std::move(r));
}
bool monoDivides(const Mono*d,const Mono*m,const Mono**q){
  std::vector<std::pair<int,int>> r; size_t j=0;
  for(auto&p:m->f){
    if(j<d->f.size()&&d->f[j].first==p.first){ int e=p.second-d->f[j].second; if(e<0)return false; if(e)r.push_back({p.first,e}); j++; }
    else { if(j<d->f.size()&&d->f[j].first<p.first) return false; r.push_back(p); }
  }
  if(j<d->f.size())return false; if(q)*q=mk(std::move(r)); return true;
}
bool monoLess(const Mono*a,const Mono*b){ // a before b : higher degree first
  if(a==b)return false;
  if(a->deg!=b->deg) return a->deg>b->deg;
  size_t i=0;
  for(;i<a->f.size()&&i<b->f.size();i++){
    if(a->f[i].first!=b->f[i].first) return a->f[i].first<b->f[i].first;
    if(a->f[i].second!=b->f[i].second) return a->f[i].second>b->f[i].second;
  }
  return a->f.size()<b->f.size();
}
// ---- polynomials
struct PolyPtrHash{size_t operator()(const Poly*p)const{return p->h;}};
struct PolyPtrEq{bool operator()(const Poly*a,const Poly*b)const{ if(a->t.size()!=b->t.size())return false; for(size_t i=0;i<a->t.size();i++) if(a->t[i].m!=b->t[i].m||a->t[i].c!=b->t[i].c) return false; return true;}};
static std::unordered_set<const Poly*,PolyPtrHash,PolyPtrEq> g_polys;
static size_t hq(const Q&q){ return mpz_get_ui(q.get_num_mpz_t())*31+mpz_get_ui(q.get_den_mpz_t())*7+(sgn(q)<0); }
static const Poly* pintern(std::vector<Term>&&t){
  if((int)t.size()>g_maxTerms) throw Unsupported("polynomial too large");
  Poly tmp; tmp.t=std::move(t); size_t h=17; for(auto&x:tmp.t) h=(h*1000003)^((size_t)x.m->id*2654435761u+hq(x.c)); tmp.h=h;
  auto it=g_polys.find(&tmp); if(it!=g_polys.end()) return *it;
  Poly*p=new Poly(std::move(tmp)); p->id=g_polys.size();
  p->isInt=true; for(auto&x:p->t){ if(x.c.get_den()!=1){p->isInt=false;break;} for(auto&f:x.m->f) if(!g_atoms[f.first]->isInt){p->isInt=false;break;} if(!p->isInt)break; }
  g_polys.insert(p); return p;
}
const Poly* pconst(const Q&q){ std::vector<Term> t; if(q!=0) t.push_back({mono1(),q}); return pintern(std::move(t)); }
const Poly* patom(int id){ return pintern({Term{monoAtom(id),Q(1)}}); }
static const Poly* addsc(const Poly*a,const Poly*b,int s){
  if(b->t.empty())return a;
  std::vector<Term> r; r.reserve(a->t.size()+b->t.size()); size_t i=0,j=0;
  while(i<a->t.size()||j<b->t.size()){
    if(j==b->t.size()||(i<a->t.size()&&monoLess(a->t[i].m,b->t[j].m))) r.push_back(a->t[i++]);
    else if(i==a->t.size()||a->t[i].m!=b->t[j].m) { Term t=b->t[j++]; if(s<0)t.c=-t.c; r.push_back(t);}
    else { Q c=s>0?Q(a->t[i].c+b->t[j].c):Q(a->t[i].c-b->t[j].c); if(c!=0) r.push_back({a->t[i].m,c}); i++;j++; }
  }
  return pintern(std::move(r));
}
const Poly* padd(const Poly*a,const Poly*b){return addsc(a,b,1);}
const Poly* psub(const Poly*a,const Poly*b){return addsc(a,b,-1);}
const Poly* pscale(const Poly*a,const Q&q){ if(q==0)return pconst(0); if(q==1)return a; std::vector<Term> r=a->t; for(auto&x:r)x.c*=q; return pintern(std::move(r)); }
const Poly* pneg(const Poly*a){return pscale(a,Q(-1));}
bool pisconst(const Poly*p,Q*v){ if(p->t.empty()){ if(v)*v=0; return true;} if(p->t.size()==1&&p->t[0].m->f.empty()){ if(v)*v=p->t[0].c; return true;} return false; }
const Poly* pmul(const Poly*a,const Poly*b){
  Q v; if(pisconst(a,&v)) return pscale(b,v); if(pisconst(b,&v)) return pscale(a,v);
  if(a->t.size()*b->t.size()>4000000) throw Unsupported("polynomial product too large");
  std::unordered_map<const Mono*,Q> acc;
  for(auto&x:a->t) for(auto&y:b->t){ const Mono*m=monoMul(x.m,y.m); Q c=x.c*y.c; auto it=acc.find(m); if(it==acc.end())acc.emplace(m,c); else it->second+=c; }
  std::vector<Term> r; for(auto&kv:acc) if(kv.second!=0) r.push_back({kv.first,kv.second});
  std::sort(r.begin(),r.end(),[](const Term&x,const Term&y){return monoLess(x.m,y.m);});
  return pintern(std::move(r));
}
// ---- atoms
static std::map<std::string,int> g_atomKey;
static int mkAtom(const std::string&key,AtomKind k,bool isInt,std::function<void(Atom*)> init){
  auto it=g_atomKey.find(key); if(it!=g_atomKey.end()) return it->second;
  Atom*a=new Atom; a->id=g_atoms.size(); a->k=k; a->isInt=isInt; a->name=key; init(a); g_atoms.push_back(a); g_atomKey[key]=a->id; return a->id;
}
const Poly* pvar(const std::string&n,bool isInt,Iv iv,bool input){
  return patom(mkAtom("v:"+n,A_VAR,isInt,[&](Atom*a){a->name=n;a->iv=iv;a->isInput=input;}));
}
static std::string K(const char*p,std::initializer_list<int> l){ std::string s=p; for(int x:l){s+=':';s+=std::to_string(x);} return s; }
const Poly* pite(const BNode*c,const Poly*x,const Poly*y){
  if(c->k==B_T||x==y)return x; if(c->k==B_F)return y;
  if(c->k==B_NOT) return pite(c->x,y,x);
  // factor the common part: ite(c,x,y) = y + ite(c,x-y,0); keep simple form unless constants
  return patom(mkAtom(K("ite",{c->id,x->id,y->id}),A_ITE,x->isInt&&y->isInt,[&](Atom*a){a->c=c;a->a=x;a->b=y;}));
}
static const Poly* pterm(const Mono*m,const Q&c);
const Poly* pidiv(const Poly*x,const Poly*y){
  Q p,q; if(pisconst(y,&q)){ if(q==1)return x; if(pisconst(x,&p)){ Z f; Q r=p/q; mpz_fdiv_q(f.get_mpz_t(),r.get_num_mpz_t(),r.get_den_mpz_t()); return pconst(Q(f)); }
    // split terms divisible by q
    const Poly*A,*R; pdivmod(x,y,&A,&R); if(A->t.size()&&A->isInt){ return padd(A,pidiv(R,y)); } }
  if(x->t.empty())return x;
  return patom(mkAtom(K("idiv",{x->id,y->id}),A_IDIV,true,[&](Atom*a){a->a=x;a->b=y;}));
}
const Poly* pinv(const Poly*x){ Q q; if(pisconst(x,&q)) return pconst(1/q);
  // normalise: make leading coefficient 1 so 1/(c*p) = (1/c) * 1/p ; single monomials factor
  Q lc=x->t[0].c; const Poly*n=pscale(x,1/lc);
  if(n->t.size()==1 && n->t[0].m->deg>1){ const Poly*r=pconst(1/lc); for(auto&f:n->t[0].m->f) for(int e=0;e<f.second;e++) r=pmul(r,pinv(patom(f.first))); return r; }
  if(n->t.size()==1){ int a=n->t[0].m->f[0].first; if(g_atoms[a]->k==A_INV) return pscale(g_atoms[a]->a,1/lc); }
  return pscale(patom(mkAtom(K("inv",{n->id}),A_INV,false,[&](Atom*a){a->a=n;})),1/lc); }
const Poly* pfloor(const Poly*x){ if(x->isInt)return x; Q q; if(pisconst(x,&q)){ Z f; mpz_fdiv_q(f.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); return pconst(Q(f)); }
  std::vector<Term> r; Poly tmp; const Poly*ip=pconst(0),*rest=pconst(0);
  for(auto&t:x->t){ bool in=t.c.get_den()==1; for(auto&f:t.m->f) if(!g_atoms[f.first]->isInt) in=false; const Poly*one=pconst(t.c); const Poly*m=one; for(auto&f:t.m->f) for(int e=0;e<f.second;e++) m=pmul(m,patom(f.first)); if(in) ip=padd(ip,m); else rest=padd(rest,m);}
  if(ip->t.size()) return padd(ip,pfloor(rest));
  return patom(mkAtom(K("floor",{x->id}),A_FLOOR,true,[&](Atom*a){a->a=x;})); }
const Poly* psqrt(const Poly*x){ Q q; if(pisconst(x,&q)&&q>=0){ Z n,d; n=sqrt(q.get_num()); d=sqrt(q.get_den()); if(n*n==q.get_num()&&d*d==q.get_den()) return pconst(Q(n)/Q(d)); }
  return patom(mkAtom(K("sqrt",{x->id}),A_SQRT,false,[&](Atom*a){a->a=x;a->iv.l=true;a->iv.lo=0;})); }
const Poly* puf(const std::string&n,const std::vector<const Poly*>&args,bool isInt){ std::string k="uf:"+n; for(auto*a:args)k+=":"+std::to_string(a->id);
  return patom(mkAtom(k,A_UF,isInt,[&](Atom*a){a->name=n;a->args=args;})); }
const Poly* psel(const std::string&n,const Poly*idx,bool isInt,Iv iv){ return patom(mkAtom("sel:"+n+":"+std::to_string(idx->id),A_SEL,isInt,[&](Atom*a){a->name=n;a->args={idx};a->iv=iv;})); }
static const Poly* pterm(const Mono*m,const Q&c){ if(c==0) return pconst(0); return pintern({Term{m,c}}); }
void pdivmod(const Poly*P,const Poly*D,const Poly**A,const Poly**R){
  const Poly*a=pconst(0),*r=pconst(0); Q dc;
  if(pisconst(D,&dc)){ // integer content division term by term (floor on coefficients)
    for(auto&t:P->t){ Q q=t.c/dc; Z f; mpz_fdiv_q(f.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t());
      if(q.get_den()==1 || t.m->f.empty()){ Q fq(f); if(fq!=0) a=padd(a,pterm(t.m,fq)); Q rest=t.c-fq*dc; if(rest!=0) r=padd(r,pterm(t.m,rest)); }
      else r=padd(r,pterm(t.m,t.c)); }
    *A=a;*R=r; return;
  }
  const Poly*p=P; int guard=0;
  while(!p->t.empty() && guard++<2000){
    const Term&lt=p->t[0]; const Mono*q;
    if(monoDivides(D->t[0].m,lt.m,&q)){ Q c=lt.c/D->t[0].c; if(c.get_den()==1||!P->isInt){ const Poly*x=pterm(q,c); a=padd(a,x); p=psub(p,pmul(x,D)); continue; } }
    const Poly*x=pterm(lt.m,lt.c); r=padd(r,x); p=psub(p,x);
  }
  if(guard>=2000){ a=pconst(0); r=P; }
  *A=a;*R=r;
}
// ---- booleans
static std::map<std::string,const BNode*> g_b;
static const BNode* mkb(const std::string&key,BK k,const Poly*p,const BNode*x,const BNode*y){
  auto it=g_b.find(key); if(it!=g_b.end()) return it->second;
  BNode*b=new BNode; b->id=g_b.size(); b->k=k;b->p=p;b->x=x;b->y=y; g_b[key]=b; return b;
}
const BNode* bT(){static const BNode*b=mkb("T",B_T,0,0,0);return b;}
const BNode* bF(){static const BNode*b=mkb("F",B_F,0,0,0);return b;}
static Q content(const Poly*p){ // positive rational c with p/c primitive integer
  Z g=0,l=1; for(auto&t:p->t){ Z n=abs(t.c.get_num()); g=gcd(g,n); l=lcm(l,t.c.get_den()); }
  // exact: content = gcd(nums * l/den)/l
  g=0; for(auto&t:p->t){ Z n=abs(t.c.get_num())*(l/t.c.get_den()); g=gcd(g,n); }
  Q q; q.get_num()=g; q.get_den()=l; q.canonicalize(); return q; }
static bool allIntAtoms(const Poly*p){ for(auto&t:p->t) for(auto&f:t.m->f) if(!g_atoms[f.first]->isInt) return false; return true; }
const BNode* bcmp(BK k,const Poly*p){
  Q v; if(pisconst(p,&v)){ bool r= k==B_EQ? v==0 : k==B_LT? v<0 : v<=0; return r?bT():bF(); }
  // k + c*ite(...)
  if(p->t[0].m->deg==1 && (p->t.size()==1||(p->t.size()==2&&p->t[1].m->f.empty()))){
    Atom*at=g_atoms[p->t[0].m->f[0].first];
    if(at->k==A_ITE){ Q c0; Q cc=p->t.size()==2?p->t[1].c:Q(0); bool ca=pisconst(at->a),cb=pisconst(at->b);
      if(ca||cb){ const Poly*pa=padd(pscale(at->a,p->t[0].c),pconst(cc)),*pb=padd(pscale(at->b,p->t[0].c),pconst(cc));
        return bite(at->c,bcmp(k,pa),bcmp(k,pb)); } }
  }
  bool ia=allIntAtoms(p);
  // strip the constant for gcd tightening
  if(ia){
    Q c=content(p); const Poly*q=pscale(p,1/c);
    Q k0=0; Z g=0; for(auto&t:q->t){ if(t.m->f.empty())k0=t.c; else g=gcd(g,abs(t.c.get_num())); }
    const Poly*nc=psub(q,pconst(k0));
    if(g>1){ // g*X + k0
      Q X; 
      if(k==B_EQ){ if(k0.get_num()%g!=0) return bF(); }
      else { if(k==B_LT){ k0+=1; k=B_LE; } // g*X <= -k0 -> X <= floor(-k0/g)
        Q m=-k0/Q(g); Z f; mpz_fdiv_q(f.get_mpz_t(),m.get_num_mpz_t(),m.get_den_mpz_t()); q=padd(pscale(nc,Q(1)/Q(g)),pconst(-Q(f))); }
    } 
    if(k==B_LT){ q=padd(q,pconst(1)); k=B_LE; }
    p=q;
  } else { Q c=content(p); p=pscale(p,1/c); }
  if(k==B_EQ && p->t[0].c<0) p=pneg(p);
  return mkb(std::string(k==B_EQ?"=":k==B_LT?"<":"l")+std::to_string(p->id),k,p,0,0);
}
const BNode* bnot(const BNode*x){
  switch(x->k){ case B_T:return bF(); case B_F:return bT(); case B_NOT:return x->x;
    case B_LT: return bcmp(B_LE,pneg(x->p)); case B_LE: return bcmp(B_LT,pneg(x->p));
    case B_AND: return bor(bnot(x->x),bnot(x->y)); case B_OR: return band(bnot(x->x),bnot(x->y));
    default: return mkb("!"+std::to_string(x->id),B_NOT,0,x,0); }
}
const BNode* band(const BNode*x,const BNode*y){
  if(x==y)return x; if(x->k==B_F||y->k==B_F)return bF(); if(x->k==B_T)return y; if(y->k==B_T)return x; { auto lit=[](const BNode*n){return n->k==B_NOT||n->k==B_LT||n->k==B_LE||n->k==B_EQ||n->k==B_VAR;}; if(lit(x)&&lit(y)&&bnot(x)==y) return bF(); }
  if(x->id>y->id)std::swap(x,y);
  return mkb("&"+std::to_string(x->id)+","+std::to_string(y->id),B_AND,0,x,y); }
const BNode* bor(const BNode*x,const BNode*y){
  if(x==y)return x; if(x->k==B_T||y->k==B_T)return bT(); if(x->k==B_F)return y; if(y->k==B_F)return x;
  { // avoid infinite recursion: only literal complement check
    const BNode*n = x->k==B_NOT? x->x : (x->k==B_LT||x->k==B_LE||x->k==B_EQ||x->k==B_VAR)? bnot(x):nullptr; if(n==y) return bT(); }
  if(x->id>y->id)std::swap(x,y);
  // (a&b)|(a&!b) = a
  if(x->k==B_AND&&y->k==B_AND){ 
    auto comp=[](const BNode*a,const BNode*b){ if(a->k==B_NOT) return a->x==b; if(a->k==B_LT||a->k==B_LE||a->k==B_EQ||a->k==B_VAR) return bnot(a)==b; return false; };
    if(x->x==y->x&&comp(x->y,y->y))return x->x; if(x->y==y->y&&comp(x->x,y->x))return x->y; if(x->x==y->y&&comp(x->y,y->x))return x->x; if(x->y==y->x&&comp(x->x,y->y))return x->y; }
  return mkb("|"+std::to_string(x->id)+","+std::to_string(y->id),B_OR,0,x,y); }
const BNode* bvar(const std::string&n,bool input){ auto*b=mkb("v"+n,B_VAR,0,0,0); const_cast<BNode*>(b)->name=n; const_cast<BNode*>(b)->isInput=input; return b; }
// ---- traversal
void boolAtoms(const BNode*b,std::set<int>&out,bool deep){
  if(b->p)polyAtoms(b->p,out,deep); if(b->x)boolAtoms(b->x,out,deep); if(b->y)boolAtoms(b->y,out,deep); }
void polyAtoms(const Poly*p,std::set<int>&out,bool deep){
  for(auto&t:p->t) for(auto&f:t.m->f) if(out.insert(f.first).second && deep){ Atom*a=g_atoms[f.first];
    if(a->a)polyAtoms(a->a,out,true); if(a->b)polyAtoms(a->b,out,true); if(a->c)boolAtoms(a->c,out,true); for(auto*x:a->args)polyAtoms(x,out,true); } }
struct Sub { const std::map<int,const Poly*>&m; std::unordered_map<const Poly*,const Poly*> pc; std::unordered_map<int,const Poly*> ac; std::unordered_map<const BNode*,const BNode*> bc;
  const Poly* atom(int id){ auto it=ac.find(id); if(it!=ac.end())return it->second; const Poly*r; auto f=m.find(id);
    if(f!=m.end()) r=f->second; else { Atom*a=g_atoms[id]; switch(a->k){
      case A_VAR: r=patom(id); break;
      case A_ITE: r=pite(b(a->c),p(a->a),p(a->b)); break;
      case A_IDIV: r=pidiv(p(a->a),p(a->b)); break;
      case A_INV: { const Poly*d=p(a->a); if(d->t.empty()) r=patom(id); else r=pinv(d); break; }
      case A_FLOOR: r=pfloor(p(a->a)); break;
      case A_SQRT: r=psqrt(p(a->a)); break;
      case A_UF: { std::vector<const Poly*> v; for(auto*x:a->args)v.push_back(p(x)); r=puf(a->name,v,a->isInt); break; }
      case A_SEL: r=psel(a->name,p(a->args[0]),a->isInt,a->iv); break; default: r=patom(id);} }
    ac[id]=r; return r; }
  const Poly* p(const Poly*x){ auto it=pc.find(x); if(it!=pc.end())return it->second; 
    bool ch=false; for(auto&t:x->t) for(auto&f:t.m->f) if(atom(f.first)!=patom(f.first)) ch=true;
    const Poly*r=x; if(ch){ r=pconst(0); for(auto&t:x->t){ const Poly*q=pconst(t.c); for(auto&f:t.m->f){ const Poly*a=atom(f.first); for(int e=0;e<f.second;e++) q=pmul(q,a);} r=padd(r,q);} }
    pc[x]=r; return r; }
  const BNode* b(const BNode*x){ auto it=bc.find(x); if(it!=bc.end())return it->second; const BNode*r=x;
    switch(x->k){ case B_EQ:case B_LT:case B_LE: r=bcmp(x->k,p(x->p)); break; case B_NOT: r=bnot(b(x->x)); break; case B_AND: r=band(b(x->x),b(x->y)); break; case B_OR: r=bor(b(x->x),b(x->y)); break; default: break; }
    bc[x]=r; return r; } };
const Poly* psubst(const Poly*x,const std::map<int,const Poly*>&m){ if(m.empty())return x; Sub s{m}; return s.p(x); }
const BNode* bsubst(const BNode*x,const std::map<int,const Poly*>&m){ if(m.empty())return x; Sub s{m}; return s.b(x); }
// ---- intervals
static Iv ivadd(const Iv&a,const Iv&b){ Iv r; if(a.l&&b.l){r.l=true;r.lo=a.lo+b.lo;} if(a.h&&b.h){r.h=true;r.hi=a.hi+b.hi;} return r; }
static Iv ivscale(const Iv&a,const Q&c){ Iv r; if(c==0){r.l=r.h=true;r.lo=r.hi=0;return r;} if(c>0){ if(a.l){r.l=true;r.lo=a.lo*c;} if(a.h){r.h=true;r.hi=a.hi*c;} } else { if(a.h){r.l=true;r.lo=a.hi*c;} if(a.l){r.h=true;r.hi=a.lo*c;} } return r; }
static Iv ivmul(const Iv&a,const Iv&b){ Iv r;
  if(a.l&&a.h&&b.l&&b.h){ Q v[4]={a.lo*b.lo,a.lo*b.hi,a.hi*b.lo,a.hi*b.hi}; r.l=r.h=true; r.lo=*std::min_element(v,v+4); r.hi=*std::max_element(v,v+4); return r; }
  if(a.l&&b.l&&a.lo>=0&&b.lo>=0){ r.l=true;r.lo=a.lo*b.lo; if(a.h&&b.h){r.h=true;r.hi=a.hi*b.hi;} }
  return r; }
static Iv atomIv(int id,const Bounds*b,int depth){
  Atom*a=g_atoms[id]; Iv r=a->iv;
  auto meet=[&](const Iv&x){ if(x.l&&(!r.l||x.lo>r.lo)){r.l=true;r.lo=x.lo;} if(x.h&&(!r.h||x.hi<r.hi)){r.h=true;r.hi=x.hi;} };
  if(b){ auto it=b->find(id); if(it!=b->end()) meet(it->second); }
  if(depth>0){
    extern Iv pboundsD(const Poly*,const Bounds*,int);
    if(a->k==A_ITE){ Iv x=pboundsD(a->a,b,depth-1),y=pboundsD(a->b,b,depth-1); Iv u; if(x.l&&y.l){u.l=true;u.lo=std::min(x.lo,y.lo);} if(x.h&&y.h){u.h=true;u.hi=std::max(x.hi,y.hi);} meet(u); }
    else if(a->k==A_IDIV){ Iv x=pboundsD(a->a,b,depth-1),y=pboundsD(a->b,b,depth-1); Iv u; 
      if(x.l&&x.lo>=0&&y.l&&y.lo>=1){ u.l=true;u.lo=0; if(x.h){u.h=true; Q t=x.hi/y.lo; Z f; mpz_fdiv_q(f.get_mpz_t(),t.get_num_mpz_t(),t.get_den_mpz_t()); u.hi=Q(f);} }
      else if(y.l&&y.lo>=1){ if(x.l){u.l=true;u.lo=x.lo-1;} if(x.h){u.h=true;u.hi=x.hi<0?Q(0):x.hi;} if(u.l&&u.lo>0)u.lo=0; }
      meet(u); }
    else if(a->k==A_FLOOR){ Iv x=pboundsD(a->a,b,depth-1); Iv u; if(x.l){u.l=true; Z f; mpz_fdiv_q(f.get_mpz_t(),x.lo.get_num_mpz_t(),x.lo.get_den_mpz_t()); u.lo=Q(f);} if(x.h){u.h=true; Z f; mpz_fdiv_q(f.get_mpz_t(),x.hi.get_num_mpz_t(),x.hi.get_den_mpz_t()); u.hi=Q(f);} meet(u); }
  }
  return r; }
Iv pboundsD(const Poly*p,const Bounds*b,int depth){
  Iv r; r.l=r.h=true; r.lo=r.hi=0;
  for(auto&t:p->t){ Iv m; m.l=m.h=true;m.lo=m.hi=1; for(auto&f:t.m->f){ Iv a=atomIv(f.first,b,depth); if(f.second%2==0){ // even power
        Iv s=ivmul(a,a); if(!s.l||s.lo<0){s.l=true;s.lo=0;} for(int e=0;e<f.second/2;e++) m=ivmul(m,s); }
      else for(int e=0;e<f.second;e++) m=ivmul(m,a); }
    r=ivadd(r,ivscale(m,t.c)); if(!r.l&&!r.h)break; }
  // mod pattern: X - d*idiv(X,d) + rest with const d : within [0,d-1]
  if(p->t.size()>=2) for(auto&t:p->t) if(t.m->deg==1){ Atom*a=g_atoms[t.m->f[0].first]; Q d; if(a->k==A_IDIV&&pisconst(a->b,&d)){ const Poly*modp=psub(a->a,pmul(a->b,patom(a->id))); 
      if(modp==p){ if(!r.l||r.lo<0){r.l=true;r.lo=0;} if(!r.h||r.hi>d-1){r.h=true;r.hi=d-1;} }
      else { Q ratio=t.c/(-d); const Poly*rest=psub(p,pscale(modp,ratio)); if(rest->t.size()<p->t.size()){ Iv mi; mi.l=mi.h=true; mi.lo=0; mi.hi=d-1; Iv q=ivadd(ivscale(mi,ratio),pboundsD(rest,b,depth>0?depth-1:0)); if(q.l&&(!r.l||q.lo>r.lo)){r.l=true;r.lo=q.lo;} if(q.h&&(!r.h||q.hi<r.hi)){r.h=true;r.hi=q.hi;} } } } }
  return r; }
Iv pbounds(const Poly*p,const Bounds*b){ return pboundsD(p,b,4); }
// ---- printing
std::string pstr(const Poly*p,int depth){
  if(p->t.empty())return "0"; std::ostringstream o; int n=0;
  for(auto&t:p->t){ if(n++>12){o<<"+...("<<p->t.size()<<" terms)";break;} if(n>1&&t.c>0)o<<"+"; bool one=false; if(t.m->f.empty()) o<<t.c; else { if(t.c==-1)o<<"-"; else if(t.c!=1)o<<t.c<<"*"; }
    int k=0; for(auto&f:t.m->f){ if(k++)o<<"*"; Atom*a=g_atoms[f.first]; 
      if(depth<=0 && a->k!=A_VAR) o<<"#"<<a->id; else switch(a->k){ case A_VAR:o<<a->name;break; case A_ITE:o<<"ite("<<bstr(a->c,depth-1)<<","<<pstr(a->a,depth-1)<<","<<pstr(a->b,depth-1)<<")";break;
        case A_IDIV:o<<"div("<<pstr(a->a,depth-1)<<","<<pstr(a->b,depth-1)<<")";break; case A_INV:o<<"inv("<<pstr(a->a,depth-1)<<")";break; case A_FLOOR:o<<"floor("<<pstr(a->a,depth-1)<<")";break; case A_SQRT:o<<"sqrt("<<pstr(a->a,depth-1)<<")";break;
        default:o<<a->name<<"(";for(size_t i=0;i<a->args.size();i++)o<<(i?",":"")<<pstr(a->args[i],depth-1);o<<")"; }
      if(f.second>1)o<<"^"<<f.second; } }
  return o.str(); }
std::string bstr(const BNode*b,int d){ switch(b->k){ case B_T:return "true";case B_F:return "false"; case B_EQ:return pstr(b->p,d)+"==0"; case B_LT:return pstr(b->p,d)+"<0"; case B_LE:return pstr(b->p,d)+"<=0";
  case B_NOT:return "!("+bstr(b->x,d)+")"; case B_AND: if(d<-3)return "..."; return "("+bstr(b->x,d-1)+" && "+bstr(b->y,d-1)+")"; case B_OR: if(d<-3)return "..."; return "("+bstr(b->x,d-1)+" || "+bstr(b->y,d-1)+")"; default:return b->name; } }
