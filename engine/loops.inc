  // ---------- loops with a symbolic trip count: one arbitrary iteration stands for all of them.
  // Loop-carried scalars are either affine in the iteration number (checked on the arbitrary iteration) or arbitrary;
  // an array is either written at one affine index per iteration and read only there (then its final contents are a
  // closed form over the index) or arbitrary.  Every claim used is checked on an arbitrary iteration k, 0 <= k < N,
  // from the state at loop entry with the claims substituted (induction); what cannot be checked becomes arbitrary.
  struct LV { bool phi; int dst; u64 id; i64 off; Type*t; int cls; const Poly*v0,*step; unsigned n; };   // cls 0 affine, 1 arbitrary, 2 invariant (any type)
  bool noLoops=false; int latchNow=-1; int loopDepth=0; std::map<std::string,int> loopCount;
  Val lvGet(State*X,const LV&v){ State*o=S; S=X; Val r; try{ if(v.phi) r=X->st.back().r[v.dst]; else r=load(VC(baseOf(v.id)+v.off),v.t); }catch(...){ S=o; throw; } S=o; return r; }
  void lvSet(State*X,const LV&v,const Val&x){ State*o=S; S=X; Trial*t=tr; tr=nullptr; if(v.phi) X->st.back().r[v.dst]=x; else store(VC(baseOf(v.id)+v.off),x,v.t); tr=t; S=o; }
  static bool sameVal(const Val&a,const Val&b){ return a.k==b.k&&(a.k==Val::CONC?a.c==b.c:a.k==Val::UNDEF?true:a.s==b.s); }
  bool newAtoms(const Poly*p,int nAt,int kid){ std::set<int> s; polyAtoms(p,s,true); for(int x:s){ Atom*a=atoms()[x]; if(x>=nAt&&x!=kid&&(a->k==A_VAR||(a->k==A_SEL&&a->name.rfind("havoc",0)==0))) return true; if(a->k==A_ITE&&newB(a->c)) return true; } return false; }
  int bThresh=0; bool newB(const BNode*b){ if(!b) return false; if(b->k==B_VAR&&b->id>=bThresh) return true; return newB(b->x)||newB(b->y); }
  bool newAtomsV(const Val&v,int nAt,int kid){ if(v.k==Val::CONC) return false; if(v.k==Val::POLY) return newAtoms(v.p(),nAt,kid); if(v.k==Val::BOOL){ if(newB(v.b())) return true; std::set<int> s; boolAtoms(v.b(),s,true); for(int x:s){ Atom*a=atoms()[x]; if(x>=nAt&&x!=kid&&(a->k==A_VAR||a->k==A_SEL)) return true; if(a->k==A_ITE&&newB(a->c)) return true; } return false; } return true; }
  Val havocVal(Type*t){ if(t->isIntegerTy(1)) return VB(bvar("loopany"+std::to_string(fresh++))); if(t->isPointerTy()) return Val(); if(isFP(t)) return VP(pvar("loopany"+std::to_string(fresh++),false)); return VP(ivar("loopany"+std::to_string(fresh++),W(t))); }
  struct LoopFail { std::string why; };
  // run T (positioned just after a jump into the body) until it is back at header h; collects the end states
  void runBody(State*T,size_t depth,int h,const std::vector<char>&L,std::vector<State*>&ends,bool stopAtBr,int brIp,int xb){
    std::deque<State*> save; save.swap(wl); wl.push_back(T); std::string bad; State*keep=S;
    while(!wl.empty()&&bad.empty()){ S=wl.back(); wl.pop_back(); bool done=false;
      try{ while(true){
          if(S->st.size()==depth){ Frame&fr=S->st.back(); if(stopAtBr){ if(fr.bb==xb&&fr.ip==brIp){ done=true; break; } if(!L[fr.bb]||(fr.bb==h&&fr.prev>=0&&fr.prev!=latchNow)){ bad="exit test not reached"; break; } } else { if(fr.bb==h&&fr.prev>=0&&L[fr.prev]){ done=true; break; } if(!L[fr.bb]){ bad="loop exit from the body"; break; } } }
          step(); if(S->st.size()<depth){ bad="return from the body"; break; } if((S->steps&0xfff)==0&&(S->steps>maxSteps||elapsed()>timeLimit)){ bad="limit"; break; } } }
      catch(std::string&e){ if(e!="infeasible") bad=e; } catch(Unsupported&e){ bad=e.what(); } catch(LoopFail&e){ bad=e.why; }
      if(done){ ends.push_back(S); if(ends.size()>24) bad="too many paths"; } else { delete S; } }
    S=keep; for(auto*x:wl) delete x; wl.swap(save); if(!bad.empty()){ throw LoopFail{bad}; } if(ends.empty()) throw LoopFail{"no iteration"}; }
  std::map<std::pair<FInfo*,int>,int> loopFails;
  // statically: the loop can be left from another block (other than into a block that ends the program or unwinds)
  bool otherExit(FInfo*f,const std::vector<char>&L,int xb){ auto&F=*f->F; int i=0; for(auto&B:F){ int b=f->bbi[&B]; if(!L[b]||b==xb) continue; auto*T=B.getTerminator(); for(unsigned q=0;q<T->getNumSuccessors();q++){ auto*X=T->getSuccessor(q); if(L[f->bbi[X]]) continue; if(isa<UnreachableInst>(X->getTerminator())||X->isLandingPad()) continue; return true; } } return false; }
  bool loopRule(const BNode*c,DI&d){
    Frame&fr=S->st.back(); FInfo*f=fr.f; int xb=fr.bb, h=f->lhead[f->inl[xb]]; auto&L=f->loops[f->inl[xb]]; if(noLoops||loopDepth>3||d.s1<0) return false; bool in0=L[d.s0],in1=L[d.s1]; if(in0==in1) return false;
    for(int x:fr.tried) if(x==xb) return false;
    auto&lf=loopFails[{f,xb}]; if(lf>=6||(lf==0&&otherExit(f,L,xb))){ lf=6; return false; }
    if(!S->subst.empty()) c=bsubst(c,S->subst); const BNode*cont=in0?c:bnot(c); { const BNode*q=cont; while(q->k==B_NOT) q=q->x; if(!q->p) return false; Iv iv=pbounds(q->p,&S->bd); Q sc=1; for(auto&t:q->p->t) if(!t.m->f.empty()){ Q a=abs(t.c); if(sc==1||a<sc) sc=a; } if(iv.l&&iv.h&&(iv.hi-iv.lo)<=64*sc) return false; if(!q->p->isInt) return false; }
    int dc=decide(cont); if(dc==0) return false;
    fr.tried.push_back(xb); State*S0=S; auto so=obs; auto sf=fails; auto sn=failNames; auto sa=assum; auto se=exts; long sp=paths; Trial*ptr=tr; int pb=bThresh; std::string why; bool ok=false; loopDepth++; auto swl=wl.size();
    try{ ok=summarise(cont,d,h,L,dc,ptr); }catch(LoopFail&e){ why=e.why; } catch(Unsupported&e){ why=e.what(); } catch(std::string&e){ why=e; }
    loopDepth--; S=S0; tr=ptr; bThresh=pb; if(!ok){ lf++; if(getenv("FTKV_DEBUG")) std::cerr<<"loop rule not applied: "<<why<<" at "<<where()<<"\n"; obs=so; fails=sf; failNames=sn; assum=sa; exts=se; paths=sp; return false; }
    lf=-1000000; assum["loops with symbolic trip count closed by the arbitrary-iteration rule"]++; return true; }
  bool summarise(const BNode*cont,DI&d,int h,const std::vector<char>&L,int dc,Trial*outer){
    State*S0=S; size_t depth=S0->st.size(); int inb=L[d.s0]?d.s0:d.s1; auto&B=S0->st.back().f->bb[h]; int brIp=S0->st.back().ip, xb=S0->st.back().bb; int np=0; while(np<(int)B.size()&&B[np].op==Instruction::PHI) np++;
    bThresh=bvar("loopmark"+std::to_string(fresh++))->id; int nAt=atoms().size(); u64 nobj=S0->objs.size(); int latch=-1;
    std::vector<LV> lv; for(int i=0;i<np;i++) lv.push_back(LV{true,B[i].dst,0,0,B[i].I->getType(),0,nullptr,nullptr,0});
    struct AW { int cls; /*0 closed form,1 arbitrary*/ unsigned n; Type*t; }; std::map<u64,AW> aw;
    struct Killer { std::vector<State*> v; ~Killer(){ for(auto*x:v) delete x; } } kill_;
    auto addWrites=[&](Trial&T)->bool{ bool nw=false; for(auto&r:T.wt){ if(r.c){ bool have=false; for(auto&x:lv) if(!x.phi&&x.id==r.id&&x.off<r.off+(i64)r.n&&r.off<x.off+(i64)x.n){ have=true; if(x.off!=r.off||x.n!=r.n) throw LoopFail{"overlapping cells"}; if(r.t&&x.t!=r.t){ if(isFP(r.t)!=isFP(x.t)) x.cls=1; } } if(!have){ lv.push_back(LV{false,0,r.id,r.off,r.t?r.t:(Type*)Type::getIntNTy(g_ctx,r.n*8),r.t?0:0,nullptr,nullptr,r.n}); nw=true; } } else if(!aw.count(r.id)){ aw[r.id]=AW{0,r.n,r.t}; nw=true; } } return nw; };
    // --- first iteration: which cells change, by how much
    { Trial t0; t0.nobj=nobj; State*T=new State(*S0); tr=&t0; S=T; addPC(cont); { Frame&fr=T->st.back(); fr.prev=fr.bb; fr.bb=inb; fr.ip=0; doPhis(); } std::vector<State*> ends; try{ runBody(T,depth,h,L,ends,false,0,0); }catch(...){ for(auto*x:ends) kill_.v.push_back(x); tr=nullptr; throw; } tr=nullptr; for(auto*x:ends) kill_.v.push_back(x); addWrites(t0); latch=ends[0]->st.back().prev;
      for(auto&v:lv) classify(v,S0,ends[0],nAt); }
    auto ro=obs; auto rf=fails; auto rn=failNames; auto ra_=assum;
    for(int round=0;round<8;round++){ if(round){ obs=ro; fails=rf; failNames=rn; assum=ra_; }
      int kid; const Poly*k; { Iv iv; iv.l=iv.h=true; iv.lo=0; iv.hi=Q("4611686018427387904"); k=pvar("loopk"+std::to_string(fresh++),true,iv); kid=k->t[0].m->f[0].first; }
      bool deadPtr=false; State*T=new State(*S0); Trial tg; tg.nobj=nobj; S=T; std::map<u64,std::shared_ptr<ArrData>> before; std::map<u64,size_t> nw0;
      for(auto&v:lv){ if(v.cls==0) lvSet(T,v,mkI(padd(v.v0,pmul(v.step,k)),W(v.t))); else if(v.cls==1){ if(v.t->isPointerTy()){ if(v.phi) throw LoopFail{"pointer loop variable"}; deadPtr=true; } lvSet(T,v,havocVal(v.t)); } }
      for(auto&a:aw){ Obj&o=T->objs[a.first]; if(o.d->arr==nullptr) ensureArr(o,a.second.n,a.second.t&&isFP(a.second.t)); if(a.second.cls==1) havocArr(o); before[a.first]=T->objs[a.first].d->arr; nw0[a.first]=before[a.first]->w.size(); }
      T->st.back().bb=h; T->st.back().ip=np; T->st.back().prev=latch; std::vector<State*> hs,ends; tr=&tg; size_t epc=0;
      struct Guard { Trial*&t; ~Guard(){ t=nullptr; } } g{tr};
      latchNow=latch; runBody(T,depth,h,L,hs,true,brIp,xb); for(auto*x:hs) kill_.v.push_back(x); if(hs.size()!=1) throw LoopFail{"header forks"}; if(!tg.wt.empty()) throw LoopFail{"writes before the exit test"};
      State*H=new State(*hs[0]); S=H; const BNode*c=bb_(opv(H->st.back(),d,0)); if(!H->subst.empty()) c=bsubst(c,H->subst); if(inb==d.s1) c=bnot(c); // c: continue condition at k
      const Poly*N=nullptr; bool ne=false; { const BNode*q=c; bool neg=false; while(q->k==B_NOT){ neg=!neg; q=q->x; } if(!q->p) throw LoopFail{"exit condition shape"}; Q a=0; const Poly*rest=q->p; for(auto&t:q->p->t) if(t.m->deg==1&&t.m->f[0].first==kid) a=t.c; else for(auto&z:t.m->f) if(z.first==kid) throw LoopFail{"exit condition not linear"};
        if(a==0) throw LoopFail{"exit condition without the counter"}; rest=psub(q->p,pscale(k,a)); if(newAtoms(rest,nAt,-1)) throw LoopFail{"trip count not invariant"};
        std::set<int> ra; polyAtoms(rest,ra,true); if(ra.count(kid)) throw LoopFail{"exit condition nested counter"};
        if(q->k==B_EQ&&neg){ N=pscale(rest,Q(-1)/a); ne=true; } 
        else if((q->k==B_LT||q->k==B_LE)){ // a*k+rest <(=) 0, or its negation
          const Poly*R=rest; Q A=a; bool strict=q->k==B_LT; if(neg){ R=pneg(R); A=-A; strict=!strict; } if(A<=0) throw LoopFail{"exit condition direction"}; R=pscale(R,Q(1)/A); // k + R < 0 or <= 0
          if(!R->isInt){ const Poly*fl=pfloorInt(pneg(R),strict); if(!fl) throw LoopFail{"non-integer trip count"}; N=fl; } else N=strict?pneg(R):padd(pneg(R),pconst(1)); }
        else throw LoopFail{"exit condition kind"}; }
      if(!N->isInt) throw LoopFail{"non-integer trip count"};
      { State*o=S; S=S0; bool nn=!ne||decide(ble(pconst(0),N))==1; S=o; if(!nn) throw LoopFail{"trip count may be negative"}; }
      // an interval of at most a few iterations is better unrolled
      { State*o=S; S=S0; Iv iv=pbounds(N,&S0->bd); S=o; if(iv.l&&iv.h&&iv.hi<=16) throw LoopFail{"short loop"}; }
      S=H; addPC(blt(k,N)); addPC(ble(pconst(0),k)); addPC(c); epc=H->pc.size(); { Frame&fr=H->st.back(); fr.prev=fr.bb; fr.bb=inb; fr.ip=0; doPhis(); }
      try{ runBody(H,depth,h,L,ends,false,0,0); }catch(...){ for(auto*x:ends) kill_.v.push_back(x); throw; } for(auto*x:ends) kill_.v.push_back(x); tr=nullptr;
      // --- check
      bool again=addWrites(tg); 
      for(auto&v:lv) if(v.v0==nullptr&&v.cls==0) classify(v,S0,ends[0],nAt,true);
      for(auto*E:ends){ for(u64 i=1;i<nobj;i++) if(E->objs[i].alive!=S0->objs[i].alive) throw LoopFail{"object freed in the body"};
        if(again) continue;
        for(auto&v:lv){ if(v.cls==1) continue; Val e=lvGet(E,v); if(v.cls==2){ Val i=lvGet(S0,v); if(!sameVal(i,e)){ v.cls=1; again=true; } continue; }
          State*o=S; S=E; bool good=false; if(e.k==Val::CONC||(e.k==Val::POLY&&e.p()->isInt)){ const Poly*x=ip(e,v.t); const Poly*want=applySubst(padd(v.v0,pmul(v.step,padd(k,pconst(1))))); good=x==want||decide(beq(x,want))==1; } S=o; if(!good){ v.cls=1; again=true; } } }
      for(auto&v:lv) if(v.cls==1&&v.phi&&v.t->isPointerTy()) throw LoopFail{"pointer loop variable"};
      // a pointer cell that is rewritten before it is read in every iteration (a local container): undefined at entry and after the loop
      if(deadPtr&&fails.size()>rf.size()) throw LoopFail{"pointer loop variable is read"};
      if(again) continue;
      // arrays in closed form
      struct Out { const Poly*start; const Poly*len; Val v; std::vector<std::pair<int,const Poly*>> kv; }; std::map<u64,std::vector<Out>> outs;
      for(auto&a:aw){ if(a.second.cls==1) continue; u64 id=a.first; unsigned el=before[id]->elem; Type*t=before[id]->fp?(el==4?Type::getFloatTy(g_ctx):Type::getDoubleTy(g_ctx)):(Type*)Type::getIntNTy(g_ctx,el*8); if(a.second.t&&!a.second.t->isPointerTy()) t=a.second.t; std::string bad;
        std::vector<const Poly*> fam; bool range=false; Q strd=0; 
        for(auto&r:tg.wt) if(!r.c&&r.id==id){ if(r.len) range=true; else { bool have=false; for(auto*x:fam) if(x==r.idx) have=true; if(!have) fam.push_back(r.idx); } }
        if(range&&!fam.empty()) bad="mixed writes";
        if(!range) for(auto*x:fam){ Q s=0; const Poly*rest=x; for(auto&m:x->t) if(m.m->deg==1&&m.m->f[0].first==kid) s=m.c; rest=psub(x,pscale(k,s)); std::set<int> ra; polyAtoms(rest,ra,true); if(s==0||s.get_den()!=1||ra.count(kid)||newAtoms(rest,nAt,-1)){ bad="write index"; break; } if(strd!=0&&strd!=s){ bad="stride"; break; } strd=s; if(fam[0]!=x){ Q df; if(!pisconst(psub(x,fam[0]),&df)){ bad="families"; break; } Q m=df/abs(s); if(m.get_den()==1&&df!=0){ bad="overlapping families"; break; } } }
        if(bad.empty()&&!range) for(auto&r:tg.rd) if(r.id==id){ bool okr=false; if(!r.len&&r.idx) for(auto*x:fam) if(x==r.idx) okr=true; if(!okr){ bad="reads another element"; break; } }
        if(bad.empty()&&range) for(auto&r:tg.rd) if(r.id==id){ bad="reads a written range"; break; }
        if(bad.empty()&&!range) for(auto*x:fam){ Val val; bool first=true; for(size_t q=ends.size();q-->0;){ State*E=ends[q]; State*o=S; S=E; Val e=readArr(E->objs[id].d->arr,x,(int)E->objs[id].d->arr->w.size(),t); S=o; if(e.k==Val::CONC&&(e.c>>32)>=nobj&&(e.c>>32)<E->objs.size()&&el==8&&!before[id]->fp&&(e.c&0xffffffff)==BIAS) bad="stores a pointer"; const BNode*pcn=bT(); for(size_t z=epc;z<E->pc.size();z++) pcn=band(pcn,E->pc[z]); if(first) val=e; else { S=E; val=iteV(pcn,e,val,t); S=o; } first=false; }
            if(!bad.empty()) break; if(newAtomsV(val,nAt,kid)){ bad="value depends on loop-carried state"; break; } Q s=strd; const Poly*start=psub(x,pscale(k,s)); Q as=abs(s); 
            if(s>0) outs[id].push_back(Out{start,as==1?N:padd(pscale(psub(N,pconst(1)),as),pconst(1)),val,{{kid,pconst(as)}}});
            else { // descending: index start - as*k ; reverse the counter
              if(as!=1){ bad="descending stride"; break; } const Poly*ns=psub(start,psub(N,pconst(1))); std::map<int,const Poly*> sb; sb[kid]=psub(psub(N,pconst(1)),k); Val v2=val; if(val.k==Val::POLY) v2=VP(psubst(val.p(),sb)); else if(val.k==Val::BOOL) v2=VB(bsubst(val.b(),sb)); outs[id].push_back(Out{ns,N,v2,{{kid,pconst(1)}}}); } }
        if(bad.empty()&&range){ if(ends.size()!=1){ bad="range write on several paths"; } else { State*E=ends[0]; auto&A=*E->objs[id].d->arr; size_t n0=nw0[id]; if(A.w.size()!=n0+1) bad="several range writes"; else { ArrWrite w=A.w.back(); const Poly*Sz=nullptr; Q s=0; // start = e0 + Sz*k
              std::map<int,const Poly*> z0,z1; z0[kid]=pconst(0); z1[kid]=pconst(1); const Poly*e0=psubst(w.idx,z0); Sz=psub(psubst(w.idx,z1),e0); if(padd(e0,pmul(Sz,k))!=w.idx) bad="range start"; else if(newAtoms(e0,nAt,-1)||newAtoms(Sz,nAt,-1)) bad="range start varies"; else { State*o=S; S=E; bool eq=(w.len==Sz)||decide(beq(w.len,Sz))==1; S=o; if(!eq) bad="range length is not the stride";
                if(bad.empty()){ std::vector<std::pair<int,const Poly*>> kv{{kid,Sz}}; Val val=w.v; if(w.kind==3){ for(auto&x:w.kv) kv.push_back(x); } else { Iv iv; iv.l=iv.h=true; iv.lo=0; iv.hi=Q("4611686018427387904"); const Poly*kk=pvar("loopk"+std::to_string(fresh++),true,iv); int kkid=kk->t[0].m->f[0].first; kv.push_back({kkid,pconst(1)}); if(w.kind==2){ S=E; addPC(ble(pconst(0),kk)); addPC(blt(kk,w.len)); val=readArr(w.src,padd(w.soff,kk),(int)w.src->w.size(),t); S=o; } else if(w.kind!=1) bad="range kind"; }
                  std::map<int,const Poly*> none; auto okAt=[&](const Val&v){ if(v.k==Val::CONC) return true; if(v.k!=Val::POLY) return false; std::set<int> sA; polyAtoms(v.p(),sA,true); for(int x:sA){ bool isk=false; for(auto&q:kv) if(q.first==x) isk=true; Atom*aa=atoms()[x]; if(x>=nAt&&!isk&&(aa->k==A_VAR||(aa->k==A_SEL&&aa->name.rfind("havoc",0)==0))) return false; if(aa->k==A_ITE&&newB(aa->c)) return false; } return true; };
                  if(bad.empty()&&!okAt(val)) bad="value depends on loop-carried state"; if(bad.empty()) outs[id].push_back(Out{e0,pmul(Sz,N),val,kv}); } } } } }
        if(!bad.empty()){ if(getenv("FTKV_DEBUG")) std::cerr<<"array becomes arbitrary: "<<bad<<"\n"; a.second.cls=1; again=true; outs.erase(id); } }
      if(again) continue;
      // --- conclude
      S=S0; if(dc<0){ State*X=new State(*S0); S=X; addPC(bnot(cont)); S=S0; if(++paths>maxPaths){ delete X; throw LoopFail{"path limit"}; } X->forks++; wl.push_back(X); }
      addPC(cont); 
      for(auto&v:lv){ if(v.cls==0) lvSet(S0,v,mkI(applySubst(padd(v.v0,pmul(v.step,N))),W(v.t))); else if(v.cls==1) lvSet(S0,v,havocVal(v.t)); if(outer&&!v.phi&&v.id<outer->nobj) outer->wt.push_back(Rec{v.id,true,v.off,v.n,nullptr,v.t,nullptr}); }
      for(auto&a:aw){ Obj&o=S0->objs[a.first]; if(!o.d->arr) ensureArr(o,a.second.n,a.second.t&&isFP(a.second.t)); Data&dd=wr(o); dd.arr=std::make_shared<ArrData>(*dd.arr); if(a.second.cls==1){ havocArr(o); if(outer&&a.first<outer->nobj) outer->wt.push_back(Rec{a.first,false,0,a.second.n,pconst(0),nullptr,pconst(0)}); }
        else for(auto&x:outs[a.first]){ ArrWrite w; w.kind=3; w.idx=x.start; w.len=x.len; w.v=x.v; w.soff=nullptr; w.kv=x.kv; dd.arr->w.push_back(w); if(outer&&a.first<outer->nobj) outer->wt.push_back(Rec{a.first,false,0,a.second.n,x.start,nullptr,x.len}); } }
      if(outer) for(auto&r:tg.rd) if(r.id<outer->nobj) outer->rd.push_back(Rec{r.id,false,0,r.n,nullptr,nullptr,nullptr});
      Frame&fr=S0->st.back(); fr.bb=h; fr.prev=latch; fr.ip=np; loopCount[demangle(fr.f->F->getName().str())]++; return true; }
    throw LoopFail{"no stable classification"}; }
  const Poly* pfloorInt(const Poly*,bool){ return nullptr; }
  void havocArr(Obj&o){ Data&d=wr(o); auto n=std::make_shared<ArrData>(); n->elem=d.arr->elem; n->fp=d.arr->fp; n->base=2; n->name="havoc"+std::to_string(fresh++)+"@"+std::to_string(n->elem)+","+std::to_string(n->fp)+",0,0"; if(!n->fp){ Z one=1; unsigned w=n->elem*8; n->iv.l=n->iv.h=true; n->iv.hi=Q((one<<(w-1))-1); n->iv.lo=Q(-(one<<(w-1))); } d.arr=n; }
  void classify(LV&v,State*S0,State*E,int nAt,bool late=false){ Val a=lvGet(S0,v),b=lvGet(E,v); v.v0=v.step=nullptr;
    if(late){ v.cls=1; return; }
    if(sameVal(a,b)&&a.k!=Val::UNDEF){ if(a.k==Val::CONC||a.k==Val::POLY){ if(v.t->isPointerTy()||(v.t->isIntegerTy()&&!v.t->isIntegerTy(1))){ State*o=S; S=S0; v.v0=ip(a,v.t); S=o; if(v.v0->isInt){ v.step=pconst(0); v.cls=0; return; } } } v.cls=2; return; }
    if(!(v.t->isPointerTy()||v.t->isIntegerTy())||v.t->isIntegerTy(1)||a.k==Val::UNDEF||b.k==Val::UNDEF||a.k==Val::BOOL||b.k==Val::BOOL||a.k==Val::AGG||b.k==Val::AGG){ v.cls=1; return; }
    State*o=S; S=S0; v.v0=ip(a,v.t); S=E; const Poly*n=ip(b,v.t); S=o; if(!v.v0->isInt||!n->isInt){ v.cls=1; return; } v.step=psub(n,v.v0); if(newAtoms(v.step,nAt,-1)||newAtoms(v.v0,nAt,-1)){ v.cls=1; return; } v.cls=0; }
