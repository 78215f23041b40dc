// Contract harness API.  The same text is (a) compiled to LLVM IR and discharged by ftkv for all inputs, and
// (b) compiled natively against the real code to replay a counterexample.
#pragma once
extern "C" {
long __v_int(const char* name,long lo,long hi);      // arbitrary integer in [lo,hi]
double __v_real(const char* name);                   // arbitrary real
bool __v_bool(const char* name);
void __v_assume(bool);                               // requires
void __v_assert(bool,const char* obligation);        // ensures / obligation
bool __v_eqd(double,double);                         // real equality (tolerance when replayed natively)
long __v_split(long);                                // exhaustive case split over a bounded integer
bool __v_branch(bool);                               // case split on a condition
void __v_cover(const char*);                         // reachability marker (non-vacuity)
int  __v_symbolic(void);
void __v_allow_throw(int);
void __v_check_overflow(int);                        // signed overflow becomes an obligation
void __v_replace(void* real,void* stub);             // use callee contract instead of callee body
void __v_unreplace(void* real);
void __v_replace_rec(void* real,void* stub);         // recursive calls of `real` from inside itself use the callee contract (no-op natively)
void __v_sqrt_hint(double h);                        // sqrt(h*h) is h (h >= 0 becomes an obligation)
void __v_print(const char*,long); void __v_printd(const char*,double);
void* __v_array(const char* name,long n,int elemsize,int isfp,long lo,long hi); // arbitrary array
}
#define REQUIRES(c) __v_assume(c)
#define ENSURES(c,name) __v_assert((c),name)
#define ENSURES_EQ(a,b,name) __v_assert(__v_eqd((a),(b)),name)
#define COVER(n) __v_cover(n)
// CONTRACT(id, "real functions under contract", "contract")
#define CONTRACT(id,funcs,text) extern "C" void H_##id()
#define BOUNDED(id,funcs,text,bound) extern "C" void H_##id()
#define CONTRACT_T(id,funcs,text) extern "C" void H_##id()          // thorough tier only
#define BOUNDED_T(id,funcs,text,bound) extern "C" void H_##id()
#define FINDING(id,funcs,text) extern "C" void H_##id()             // known defect: concrete input, replayed natively
