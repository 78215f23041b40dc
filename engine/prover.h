#pragma once
#include "expr.h"
#include <z3++.h>
#include <chrono>
enum PR { PROVED, REFUTED, UNKNOWN };
struct Model { std::map<std::string,std::string> vals; std::map<std::string,std::map<std::string,std::string>> arrays; std::map<int,long double> av; };
struct Prover {
  z3::context ctx;
  std::map<int,z3::expr> atomE; std::map<int,z3::expr> bE; std::map<const Poly*,z3::expr> pE;
  std::map<std::string,z3::func_decl> fns;
  std::map<std::string,int> backendCount; double solverSec=0; long queries=0;
  std::string lastBackend; std::string tmpdir="/tmp"; int extTimeout=60; bool allowExt=true; int dumpN=0;
  z3::expr atom(int id); z3::expr poly(const Poly*); z3::expr boolE(const BNode*);
  void axioms(const std::set<int>& at,std::vector<z3::expr>& out);
  // effort: 0 = quick (branch feasibility), 1 = obligation
  PR prove(const std::vector<const BNode*>& pc,const Bounds* bounds,const BNode* goal,int effort,Model* m=nullptr);
  bool ringZero(const Poly* p,const std::vector<const BNode*>& pc);
  PR handelman(const std::vector<const BNode*>& pc,const BNode* goal,int maxprod);
  PR z3run(const std::vector<const BNode*>& pc,const BNode* goal,unsigned rlimit,Model* m,bool nl);
  PR ext(const std::vector<const BNode*>& pc,const BNode* goal);
  bool sample(const std::vector<const BNode*>& pc,const Bounds* bd,const BNode* goal,Model* m,int tries);
  bool mixedRadix(const std::vector<const BNode*>& pc,const Bounds* bd,const BNode* goal);
  bool reachQuery=false; bool absMode=false; std::vector<const Mono*> absMonos; std::set<const Mono*> absSeen; PR absrun(const std::vector<const BNode*>& pc,const Bounds* bd,const BNode* goal,unsigned rlimit);
  bool cheap(const std::vector<const BNode*>& pc,const Bounds* bd,const BNode* goal);   // interval and monotone reasoning only
private:
  PR proveCore(const std::vector<const BNode*>& pc,const Bounds*,const BNode* goal,int effort,Model*,int splits);
  std::vector<const BNode*> cone(const std::vector<const BNode*>& pc,const BNode* goal);
  std::unordered_map<std::string,PR> cache;
};
