// Native runtime of the contract harness API: replays inputs from a file, or searches inputs at random.
#include "vharness.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <random>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <signal.h>
#include <time.h>
struct v_reject {}; struct v_violation { std::string name; };
struct Shared { int n; char names[512][48]; double v[512]; long iv[512]; char kind[512]; char viol[256]; int rejected; int done; };
static Shared* sh; static std::map<std::string,std::string> fixed; static bool searchMode=false; static std::mt19937_64 rng; static int mode=0; static int allowThrow=0;
static void rec(const char*n,char k,long i,double d){ if(sh->n<512){ snprintf(sh->names[sh->n],48,"%d_%s",sh->n,n); sh->kind[sh->n]=k; sh->iv[sh->n]=i; sh->v[sh->n]=d; sh->n++; } }
static std::string key(const char*n){ return std::to_string(sh->n)+"_"+n; }
static double q2d(const std::string&s){ size_t p=s.find('/'); if(p==std::string::npos) return strtod(s.c_str(),0); return (double)(strtold(s.c_str(),0)/strtold(s.c_str()+p+1,0)); }
static long rnd(long lo,long hi){ if(hi<=lo)return lo; unsigned long w=(unsigned long)hi-(unsigned long)lo; int m=rng()%8; 
  if(m<4 && w>8){ // small / boundary values
    long c=(rng()%4==0)?hi:(lo<=0&&hi>=0&&rng()%2?0:lo); long d=(long)(rng()%7)-3; long v=c+d; if(v<lo)v=lo; if(v>hi)v=hi; return v; }
  if(m<6 && lo<=0&&hi>=0 && w>40){ long v=(long)(rng()%21)-10; if(v<lo)v=lo; if(v>hi)v=hi; return v; }
  return w==~0ul?(long)rng():(long)((unsigned long)lo+rng()%(w+1)); }
#include <sys/mman.h>
#include <cstring>
#include <cstdint>
struct Patch{void*at;unsigned char old[14];bool on;}; static Patch patches[64]; static int npatch=0;
extern "C" {
long __v_int(const char*n,long lo,long hi){ long v; if(!searchMode){ auto it=fixed.find(key(n)); v=it==fixed.end()?((lo<=0&&0<=hi)?0:lo):strtol(it->second.c_str(),0,10); } else v=rnd(lo,hi); rec(n,'i',v,0); if(v<lo||v>hi) throw v_reject(); return v; }
double __v_real(const char*n){ double v; if(!searchMode){ auto it=fixed.find(key(n)); v=it==fixed.end()?0:q2d(it->second); } else { switch(mode%5){ case 0: v=(long)(rng()%7)-3; break; case 1: v=((long)(rng()%41)-20)/4.0; break; case 2: v=(long)(rng()%2001)-1000; break; case 3: v=((long)(rng()%257)-128)/64.0; break; default: v=(rng()%3)?(long)(rng()%5)-2:(long)(rng()%65)/64.0; } } rec(n,'r',0,v); return v; }
bool __v_bool(const char*n){ bool v; if(!searchMode){ auto it=fixed.find(key(n)); v=it!=fixed.end()&&it->second!="0"; } else v=rng()&1; rec(n,'i',v,0); return v; }
void __v_assume(bool c){ if(!c) throw v_reject(); }
void __v_assert(bool c,const char*n){ if(!c){ snprintf(sh->viol,256,"%s",n); throw v_violation{n}; } }
bool __v_eqd(double a,double b){ if(a==b)return true; if(std::isnan(a)||std::isnan(b)) return false; double m=std::max(std::fabs(a),std::fabs(b)); return std::fabs(a-b)<=1e-6*(1+m); }
long __v_split(long x){return x;} bool __v_branch(bool b){return b;} void __v_cover(const char*){} int __v_symbolic(void){return 0;} void __v_allow_throw(int b){allowThrow=b;} void __v_check_overflow(int){} 
// callee replaced by its contract stub: the first bytes of the real function are overwritten with a jump
void __v_unreplace(void*r){ for(int i=0;i<npatch;i++) if(patches[i].at==r&&patches[i].on){ memcpy(r,patches[i].old,14); patches[i].on=false; } }
void __v_replace(void*r,void*st){ __v_unreplace(r); uintptr_t pg=(uintptr_t)r&~4095ul; mprotect((void*)pg,8192,PROT_READ|PROT_WRITE|PROT_EXEC); if(npatch>=64) npatch=0; auto&p=patches[npatch++]; p.at=r; p.on=true; memcpy(p.old,r,14); unsigned char j[14]={0xff,0x25,0,0,0,0}; memcpy(j+6,&st,8); memcpy(r,j,14); }
 
void __v_replace_rec(void*,void*){}  void __v_sqrt_hint(double){}
void __v_print(const char*n,long v){ if(getenv("V_PRINT")) fprintf(stderr,"PRINT %s = %ld\n",n,v);} void __v_printd(const char*n,double v){ if(getenv("V_PRINT")) fprintf(stderr,"PRINT %s = %.17g\n",n,v);}
void* __v_array(const char*n,long cnt,int el,int isfp,long lo,long hi){ rec(n,'a',cnt,0); char*p=(char*)calloc(cnt>0?cnt:1,el); for(long i=0;i<cnt;i++){ if(isfp){ double v=searchMode?(double)((long)(rng()%9)-4):0; if(el==8)((double*)p)[i]=v; else ((float*)p)[i]=v; } else { long v=searchMode?rnd(lo,hi):lo; if(el==8)((long*)p)[i]=v; else if(el==4)((int*)p)[i]=v; else p[i]=v; } } return p; }
}
static int runOnce(void(*h)(),std::string*viol){ for(int i=0;i<npatch;i++) if(patches[i].on) __v_unreplace(patches[i].at); npatch=0; sh->n=0; sh->viol[0]=0; allowThrow=0; try{ h(); return 0; } catch(v_reject&){ return 2; } catch(v_violation&v){ *viol=v.name; return 1; } catch(std::exception&e){ if(allowThrow) return 0; *viol=std::string("no-exception: ")+e.what(); return 1; } catch(...){ if(allowThrow) return 0; *viol="no-exception"; return 1; } }
static void dump(FILE*f){ for(int i=0;i<sh->n;i++) if(sh->kind[i]=='r') fprintf(f,"%s %.17g\n",sh->names[i],sh->v[i]); else fprintf(f,"%s %ld\n",sh->names[i],sh->iv[i]); }
int main(int argc,char**argv){ // prog replay H file | prog search H seconds seed out
  sh=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if(argc<4) return 9;
  void(*h)()=(void(*)())dlsym(RTLD_DEFAULT,argv[2]); if(!h){ fprintf(stderr,"no harness %s\n",argv[2]); return 9; } if(void(*su)()=(void(*)())dlsym(RTLD_DEFAULT,"H_setup")) su();
  if(!getenv("V_PRINT")){ if(!freopen("/dev/null","w",stderr)){} }
  std::string cmd=argv[1];
  if(cmd=="replay"){ FILE*f=fopen(argv[3],"r"); char a[256],b[256]; while(f&&fscanf(f,"%255s %255s",a,b)==2) fixed[a]=b; if(f)fclose(f);
    pid_t p=fork(); if(!p){ alarm(20); std::string v; int r=runOnce(h,&v); if(r==1) printf("VIOLATED %s\n",v.c_str()); else printf(r==2?"REJECTED\n":"HELD\n"); fflush(stdout); _exit(r); }
    int st; waitpid(p,&st,0); if(WIFSIGNALED(st)){ printf(WTERMSIG(st)==SIGALRM?"TIMEOUT\n":"CRASHED signal %d\n",WTERMSIG(st)); return WTERMSIG(st)==SIGALRM?3:1; } if(WEXITSTATUS(st)>2){ printf("CRASHED exit %d\n",WEXITSTATUS(st)); return 1; } return WEXITSTATUS(st); }
  double secs=atof(argv[3]); unsigned long seed=strtoul(argv[4],0,10); searchMode=true; const char*out=argv[5]; time_t t0=time(0); long runs=0,rej=0; int crashes=0;
  struct timespec a,b; clock_gettime(CLOCK_MONOTONIC,&a); long*cnt=(long*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  while(true){ clock_gettime(CLOCK_MONOTONIC,&b); if((b.tv_sec-a.tv_sec)+(b.tv_nsec-a.tv_nsec)*1e-9>=secs) break;
    pid_t p=fork(); if(!p){ alarm(10); rng.seed(seed+cnt[0]*7919+cnt[2]); for(int i=0;i<2000;i++){ std::string v; mode=rng()%5; if(i%50==0)alarm(10); int r=runOnce(h,&v); cnt[0]++; if(r==2)cnt[1]++; if(r==1) _exit(1); clock_gettime(CLOCK_MONOTONIC,&b); if((b.tv_sec-a.tv_sec)>=secs) break; } _exit(0); }
    cnt[2]++; int st; waitpid(p,&st,0); bool sig=WIFSIGNALED(st); if(sig&&WTERMSIG(st)==SIGALRM){ if(cnt[3]++>3) break; continue; }
    if(sig||WEXITSTATUS(st)){ FILE*f=fopen(out,"w"); dump(f); fclose(f); printf("FOUND %s after %ld runs\n",sig?"crash":(sh->viol[0]?sh->viol:"crash"),cnt[0]); return 1; } }
  printf("NOTFOUND runs %ld rejected %ld\n",cnt[0],cnt[1]); return cnt[0]>cnt[1]?0:4; }
