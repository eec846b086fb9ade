// Replay runtime: the harness compiled natively, linked with this file, runs on concrete
// inputs (one process per input set).  usage: prog ENTRY INPUTS [timeout_s]
// INPUTS: lines "name value"; sets are separated by lines "---".
// Output, one line per set:  RESULT <k> <status> | VIOL id;... | EMIT name=value;...
#include "vp.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <algorithm>
#include <functional>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
#include <signal.h>
#include <dlfcn.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <thread>
#include <atomic>
#include <sys/resource.h>
#include <fstream>
#include <iostream>
static std::map<std::string,std::string> in; static int outfd=1;
static void say(const std::string&s){ std::string l=s+"\n"; if(write(outfd,l.data(),l.size())){} }
[[noreturn]] static void stop(const char*s){ say(std::string("STOP ")+s); _exit(0); }
static const std::string& get(const char*n){ static const std::string z="0"; auto it=in.find(n); if(it==in.end()) return z; return it->second; }
static double num(const std::string&s0){ std::string s=s0; size_t p=s.find('/'); if(p==std::string::npos) return strtod(s.c_str(),0);
  long double x=strtold(s.substr(0,p).c_str(),0),y=strtold(s.substr(p+1).c_str(),0); return (double)(x/y); }
static void viol(const char*id,const std::string&d=""){ say(std::string("VIOL ")+id+" @@ "+d); }
extern "C" {
int64_t vp_int(const char*n,int64_t lo,int64_t hi){ int64_t v=(int64_t)strtoull(get(n).c_str(),0,10); if(get(n)[0]=='-') v=strtoll(get(n).c_str(),0,10); if(v<lo||v>hi) stop("ASSUME"); return v; }
uint64_t vp_u64(const char*n){ return strtoull(get(n).c_str(),0,10); }
uint8_t vp_byte(const char*n){ return (uint8_t)strtoull(get(n).c_str(),0,10); }
double vp_real(const char*n,double lo,double hi){ double v=num(get(n)); if(!(v>=lo&&v<=hi)) stop("ASSUME"); return v; }
double vp_lat(const char*n,int64_t lo,int64_t hi,int64_t sc){ double v=num(get(n)); if(!(v>=double(lo*sc)&&v<=double(hi*sc))) stop("ASSUME"); return v; }
void vp_assume(bool c){ if(!c) stop("ASSUME"); }
void vp_assert(bool c,const char*id){ if(!c) viol(id); }
void vp_close(double a,double b,double tol,const char*id){ if(!(std::fabs(a-b)<=tol)){ char s[120]; snprintf(s,120,"%.17g vs %.17g",a,b); viol(id,s);} }
static bool feq(double a,double b){ return a==b || std::fabs(a-b)<=1e-10*std::max(std::fabs(a),std::fabs(b))+1e-13; }
void vp_eq(double a,double b,const char*id){ if(!feq(a,b)){ char s[120]; snprintf(s,120,"%.17g vs %.17g",a,b); viol(id,s);} }
void vp_same(double a,double b,const char*id){ if(!(a==b)){ char s[120]; snprintf(s,120,"%.17g vs %.17g",a,b); viol(id,s);} }
void vp_multiset(const double*a,const double*b,uint64_t n,uint64_t w,const char*id){
  std::vector<int> mt(n,-1); std::function<bool(int,std::vector<char>&)> tr=[&](int u,std::vector<char>&vis){ for(uint64_t v=0;v<n;v++){ if(vis[v]) continue; bool ok=true; for(uint64_t k=0;k<w&&ok;k++) ok=feq(a[u*w+k],b[v*w+k]); if(!ok) continue; vis[v]=1; if(mt[v]<0||tr(mt[v],vis)){ mt[v]=u; return true; } } return false; };
  for(uint64_t u=0;u<n;u++){ std::vector<char> vis(n,0); if(!tr(u,vis)){ viol(id,"element "+std::to_string(u)+" unmatched"); return; } } }
void vp_reach(const char*){ }
void vp_emit(const char*n,double v){ char s[200]; snprintf(s,200,"EMIT %s=%.17g",n,v); say(s); }
int64_t vp_param(const char*n,int64_t d){ auto it=in.find(std::string("param:")+n); return it==in.end()? d: strtoll(it->second.c_str(),0,10); }
int64_t vp_pin(int64_t v){ return v; }
void vp_fail(const char*id){ viol(id); stop("FAIL"); }
int64_t vp_is_symbolic_run(void){ return 0; }
double vp_deriv(double,double){ return NAN; }
int vp_fresh_begin(void){ pid_t p=fork(); if(!p) return 1; int ws; waitpid(p,&ws,0); if(WIFSIGNALED(ws)) viol("fresh run died"); return 0; }
void vp_fresh_end(void){ _exit(0); }
void* vp_shared(uint64_t n){ return mmap(nullptr,n?n:1,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); }
int vp_thread(int){ return 1; }
void vp_threads_native(void(*f)(void*),void*a,void(*g)(void*),void*b){ std::atomic<int> go{0}; auto w=[&]{ go.fetch_add(1,std::memory_order_relaxed); while(go.load(std::memory_order_relaxed)<2){} }; std::thread s([&]{ w(); f(a); }),t([&]{ w(); g(b); }); s.join(); t.join(); }
void vp_s2_moments(const double*P,const double*W,uint64_t N,uint64_t L,double*out){ typedef uint64_t u64;
  std::vector<double> er(N,1),ei(N,0),pmm(N,sqrt(1/(4*M_PI))),p0,p1,p(N); for(u64 k=0;k<(L+1)*(L+1);k++) out[k]=0;
  for(u64 m=0;m<=L;m++){ if(m) for(u64 i=0;i<N;i++){ double x=P[3*i],y=P[3*i+1],a=er[i]*x-ei[i]*y,b=er[i]*y+ei[i]*x; er[i]=a; ei[i]=b; pmm[i]*=-sqrt((2.0*m+1)/(2.0*m)); }
    p0=pmm; for(u64 l=m;l<=L;l++){ if(l==m) p=p0; else if(l==m+1){ p1.resize(N); for(u64 i=0;i<N;i++) p1[i]=sqrt(2.0*m+3)*P[3*i+2]*p0[i]; p=p1; } else { double a=sqrt((4.0*l*l-1)/((double)l*l-(double)m*m)), b=sqrt(((2.0*l+1)*(l-1.0-m)*(l-1.0+m))/((2.0*l-3)*((double)l*l-(double)m*m))); for(u64 i=0;i<N;i++) p[i]=a*P[3*i+2]*p1[i]-b*p0[i]; p0=p1; p1=p; }
      double sr=0,si=0,cr=0,ci=0; for(u64 i=0;i<N;i++){ double t=W[i]*p[i]; double a=t*er[i]-cr,s=sr+a; cr=(s-sr)-a; sr=s; a=t*ei[i]-ci; s=si+a; ci=(s-si)-a; si=s; } double f=m?sqrt(2.0):1; out[l*l+l+m]=f*sr; if(m) out[l*l+l-m]=f*si; } } }
}
int main(int c,char**v){ if(c<3) return 2; double to=c>3?atof(v[3]):20; void(*fn)()=(void(*)())dlsym(RTLD_DEFAULT,v[1]); if(!fn){ fprintf(stderr,"no entry\n"); return 2; }
  std::vector<std::map<std::string,std::string>> sets(1); std::ifstream f(v[2]); std::string l; while(std::getline(f,l)){ if(l=="---"){ sets.emplace_back(); continue; } size_t p=l.find(' '); if(p!=std::string::npos) sets.back()[l.substr(0,p)]=l.substr(p+1); }
  for(size_t k=0;k<sets.size();k++){ if(sets[k].empty()&&k+1==sets.size()&&k) break; int pp[2]; if(pipe(pp)) return 2; fflush(stdout); pid_t p=fork();
    if(p==0){ close(pp[0]); outfd=pp[1]; in=sets[k]; struct rlimit r{0,0}; setrlimit(RLIMIT_CORE,&r); r.rlim_cur=r.rlim_max=(rlim_t)to+1; setrlimit(RLIMIT_CPU,&r); alarm((unsigned)to+1);
      if(!getenv("VP_ERR")){ if(!freopen("/dev/null","w",stderr)){} }
      try{ fn(); }catch(std::exception&e){ std::string s=e.what(); if(s.size()>100) s.resize(100); for(auto&ch:s) if(ch=='\n') ch=' '; int st; char*nm=abi::__cxa_demangle(typeid(e).name(),0,0,&st); say("UNCAUGHT "+std::string(nm?nm:"?")+" "+s); _exit(0); }catch(...){ say("UNCAUGHT ?"); _exit(0); }
      say("STOP DONE"); _exit(0); }
    close(pp[1]); std::string out; char b[4096]; ssize_t n; while((n=read(pp[0],b,4096))>0) if(out.size()<2000000) out.append(b,n); close(pp[0]); int ws; waitpid(p,&ws,0);
    std::string status,vi,em; size_t q=0; while(q<out.size()){ size_t e=out.find('\n',q); if(e==std::string::npos) e=out.size(); std::string L=out.substr(q,e-q); q=e+1; if(!L.rfind("VIOL ",0)){ if(vi.size()<20000) vi+=L.substr(5)+"; "; } else if(!L.rfind("EMIT ",0)) em+=L.substr(5)+";"; else if(!L.rfind("STOP ",0)) status=L.substr(5); else if(!L.rfind("UNCAUGHT",0)) status=L; }
    if(WIFSIGNALED(ws)) status= WTERMSIG(ws)==SIGALRM||WTERMSIG(ws)==SIGXCPU||WTERMSIG(ws)==SIGKILL? "TIMEOUT": std::string("SIGNAL ")+strsignal(WTERMSIG(ws)); else if(status.empty()) status="EXIT "+std::to_string(WEXITSTATUS(ws));
    printf("RESULT %zu %s | VIOL %s| EMIT %s\n",k,status.c_str(),vi.c_str(),em.c_str()); fflush(stdout); }
  return 0; }
