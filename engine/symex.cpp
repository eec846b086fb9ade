// IR-level symbolic executor for LLVM-18 bitcode (see DESIGN.md, section "Engine").
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <z3++.h>
#include <gmpxx.h>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <signal.h>
#include <cmath>
#include <cstring>
#include <chrono>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <string>
#include <vector>
#include <algorithm>
using namespace llvm;
typedef uint64_t u64; typedef int64_t i64; typedef uint8_t u8; typedef uint32_t u32;

static inline u64 maskw(unsigned w){ return w>=64? ~0ull : ((1ull<<w)-1); }
static inline i64 sextw(u64 v, unsigned w){ if(w>=64) return (i64)v; u64 m=1ull<<(w-1); v&=maskw(w); return (i64)((v^m)-m); }
static double b2d(u64 b){ double d; memcpy(&d,&b,8); return d; }
static u64 d2b(double d){ u64 b; memcpy(&b,&d,8); return b; }

// ============================ terms ===================================================
enum TOp : u8 { T_VAR, T_BVC, T_BOOLC, T_REALC, T_RAT,
  // bool
  T_NOT, T_AND, T_OR, T_EQ, T_ULT, T_ULE, T_SLT, T_SLE, T_RLT, T_RLE, T_REQ,
  // bv
  T_ADD, T_SUB, T_MUL, T_UDIV, T_SDIV, T_UREM, T_SREM, T_SHL, T_LSHR, T_ASHR, T_BAND, T_BOR, T_BXOR,
  T_ZEXT, T_SEXT, T_EXTRACT, T_CONCAT,
  // real
  T_RADD, T_RSUB, T_RMUL, T_RDIV, T_RNEG, T_UF1, T_UF2,
  T_ITE };
static const char* TN[]={"var","bvc","boolc","realc","rat","not","and","or","=","bvult","bvule","bvslt","bvsle","<","<=","=r",
 "bvadd","bvsub","bvmul","bvudiv","bvsdiv","bvurem","bvsrem","bvshl","bvlshr","bvashr","bvand","bvor","bvxor","zext","sext","extract","concat",
 "+","-","*","/","neg","uf1","uf2","ite"};
enum Sort : u8 { S_BOOL, S_BV, S_REAL };
struct Term { TOp op; Sort sort; u8 w; u32 aux; u32 id; u64 c; const Term* a[3]; };
struct THash{ size_t operator()(const Term*t)const{ size_t h=t->op*1000003u^t->sort*7919u^t->w*131u^t->aux*2654435761u; h^=t->c*0x9E3779B97F4A7C15ull; for(auto x:t->a) h=(h*31)^(size_t)x; return h; } };
struct TEq{ bool operator()(const Term*x,const Term*y)const{ return x->op==y->op&&x->sort==y->sort&&x->w==y->w&&x->aux==y->aux&&x->c==y->c&&x->a[0]==y->a[0]&&x->a[1]==y->a[1]&&x->a[2]==y->a[2]; } };
static std::unordered_set<Term*,THash,TEq> ttab;
static std::vector<Term*> tall;
typedef const Term* TP;
static TP mk(TOp op,Sort s,u8 w,u32 aux,u64 c,TP a=nullptr,TP b=nullptr,TP d=nullptr){
  Term t{op,s,w,aux,0,c,{a,b,d}}; auto it=ttab.find(&t); if(it!=ttab.end()) return *it;
  Term*n=new Term(t); n->id=tall.size(); tall.push_back(n); ttab.insert(n); return n; }
static TP bvc(u64 v,unsigned w){ return mk(T_BVC,S_BV,w,0,v&maskw(w)); }
static TP boolc(bool b){ return mk(T_BOOLC,S_BOOL,0,0,b); }
static TP realc(double d){ if(d==0) d=0; return mk(T_REALC,S_REAL,0,0,d2b(d)); }
static bool isC(TP t){ return t->op==T_BVC||t->op==T_BOOLC||t->op==T_REALC; }
static bool isRC(TP t,double v){ return t->op==T_REALC && b2d(t->c)==v; }
static TP tnot(TP a){ if(a->op==T_BOOLC) return boolc(!a->c); if(a->op==T_NOT) return a->a[0];
  return mk(T_NOT,S_BOOL,0,0,0,a); }
static TP tand(TP a,TP b){ if(a->op==T_BOOLC) return a->c? b:a; if(b->op==T_BOOLC) return b->c? a:b; if(a==b) return a; if(a==tnot(b)) return boolc(false); if(a->id>b->id) std::swap(a,b); return mk(T_AND,S_BOOL,0,0,0,a,b); }
static TP tor(TP a,TP b){ if(a->op==T_BOOLC) return a->c? a:b; if(b->op==T_BOOLC) return b->c? b:a; if(a==b) return a; if(a==tnot(b)) return boolc(true); if(a->id>b->id) std::swap(a,b); return mk(T_OR,S_BOOL,0,0,0,a,b); }
static TP tite(TP c,TP a,TP b){ if(c->op==T_BOOLC) return c->c? a:b; if(a==b) return a;
  if(c->op==T_NOT) return tite(c->a[0],b,a);
  if(a->sort==S_BOOL){ if(a->op==T_BOOLC) return a->c? tor(c,b): tand(tnot(c),b); if(b->op==T_BOOLC) return b->c? tor(tnot(c),a): tand(c,a); }
  return mk(T_ITE,a->sort,a->w,0,0,c,a,b); }
static u64 bvop(TOp op,u64 x,u64 y,unsigned w,bool&ok){ ok=true; x&=maskw(w); y&=maskw(w); switch(op){
  case T_ADD:return x+y; case T_SUB:return x-y; case T_MUL:return x*y;
  case T_UDIV: if(!y){ok=false;return 0;} return x/y; case T_UREM: if(!y){ok=false;return 0;} return x%y;
  case T_SDIV: if(!y){ok=false;return 0;} if(sextw(y,w)==-1) return 0-x; return (u64)(sextw(x,w)/sextw(y,w));
  case T_SREM: if(!y){ok=false;return 0;} if(sextw(y,w)==-1) return 0; return (u64)(sextw(x,w)%sextw(y,w));
  case T_SHL: return y>=w?0:x<<y; case T_LSHR: return y>=w?0:x>>y; case T_ASHR: return (u64)(sextw(x,w)>>(y>=w?w-1:y));
  case T_BAND:return x&y; case T_BOR:return x|y; case T_BXOR:return x^y; default: ok=false; return 0; } }
static bool iteCC(TP t){ return t->op==T_ITE && isC(t->a[1]) && isC(t->a[2]); }
static TP tbv(TOp op,TP a,TP b){ unsigned w=a->w; bool ok;
  if(a->op==T_BVC&&b->op==T_BVC){ u64 r=bvop(op,a->c,b->c,w,ok); if(ok) return bvc(r,w); }
  if(b->op==T_BVC){ u64 c=b->c;
    if(c==0&&(op==T_ADD||op==T_SUB||op==T_SHL||op==T_LSHR||op==T_ASHR||op==T_BOR||op==T_BXOR)) return a;
    if(c==0&&(op==T_MUL||op==T_BAND)) return b; if(c==1&&(op==T_MUL||op==T_UDIV||op==T_SDIV)) return a;
    if(op==T_BAND&&c==maskw(w)) return a;
    if(op==T_SUB) return tbv(T_ADD,a,bvc(0-c,w));
    if(op==T_ADD&&a->op==T_ADD&&a->a[1]->op==T_BVC) return tbv(T_ADD,a->a[0],bvc(a->a[1]->c+c,w));
    if(iteCC(a)) return tite(a->a[0],tbv(op,a->a[1],b),tbv(op,a->a[2],b)); }
  if(a->op==T_BVC){ if(a->c==0&&(op==T_ADD||op==T_BOR||op==T_BXOR)) return b; if(a->c==0&&(op==T_MUL||op==T_BAND||op==T_SHL||op==T_LSHR)) return a;
    if(op==T_ADD||op==T_MUL||op==T_BAND||op==T_BOR||op==T_BXOR) return tbv(op,b,a);
    if(iteCC(b)) return tite(b->a[0],tbv(op,a,b->a[1]),tbv(op,a,b->a[2])); }
  if(a==b){ if(op==T_SUB||op==T_BXOR) return bvc(0,w); if(op==T_BAND||op==T_BOR) return a; }
  return mk(op,S_BV,w,0,0,a,b); }
static TP tzext(TP a,unsigned w){ if(a->w==w) return a; if(a->op==T_BVC) return bvc(a->c,w); if(a->op==T_ZEXT) return tzext(a->a[0],w); if(iteCC(a)) return tite(a->a[0],tzext(a->a[1],w),tzext(a->a[2],w)); return mk(T_ZEXT,S_BV,w,0,0,a); }
static TP tsext(TP a,unsigned w){ if(a->w==w) return a; if(a->op==T_BVC) return bvc((u64)sextw(a->c,a->w),w); if(iteCC(a)) return tite(a->a[0],tsext(a->a[1],w),tsext(a->a[2],w)); return mk(T_SEXT,S_BV,w,0,0,a); }
static TP textr(TP a,unsigned lo,unsigned w){ if(lo==0&&a->w==w) return a; if(a->op==T_BVC) return bvc(a->c>>lo,w);
  if(a->op==T_ZEXT){ TP b=a->a[0]; if(lo+w<=b->w) return textr(b,lo,w); if(lo>=b->w) return bvc(0,w); if(lo==0) return tzext(b,w); }
  if(a->op==T_SEXT){ TP b=a->a[0]; if(lo+w<=b->w) return textr(b,lo,w); }
  if(a->op==T_EXTRACT) return textr(a->a[0],a->aux+lo,w);
  if(a->op==T_CONCAT){ TP h=a->a[0],l=a->a[1]; if(lo+w<=l->w) return textr(l,lo,w); if(lo>=l->w) return textr(h,lo-l->w,w); }
  if(iteCC(a)) return tite(a->a[0],textr(a->a[1],lo,w),textr(a->a[2],lo,w));
  return mk(T_EXTRACT,S_BV,w,lo,0,a); }
static TP tconcat(TP h,TP l){ if(h->op==T_BVC&&l->op==T_BVC) return bvc(h->c<<l->w|l->c,h->w+l->w); if(h->op==T_BVC&&h->c==0) return tzext(l,h->w+l->w);
  if(h->op==T_EXTRACT&&l->op==T_EXTRACT&&h->a[0]==l->a[0]&&h->aux==l->aux+l->w) return textr(h->a[0],l->aux,h->w+l->w);
  return mk(T_CONCAT,S_BV,h->w+l->w,0,0,h,l); }
static TP teq(TP a,TP b){ if(a==b) return boolc(true); if(isC(a)&&isC(b)) return boolc(a->sort==S_REAL? b2d(a->c)==b2d(b->c): a->c==b->c);
  if(a->sort==S_BOOL){ if(a->op==T_BOOLC) return a->c? b: tnot(b); if(b->op==T_BOOLC) return b->c? a: tnot(a); }
  if(isC(a)) std::swap(a,b);
  if(isC(b)&&iteCC(a)) return tite(a->a[0],teq(a->a[1],b),teq(a->a[2],b));
  if(a->sort==S_BV&&b->op==T_BVC){ if(a->op==T_ZEXT){ TP x=a->a[0]; if(b->c>>x->w&&x->w<64) return boolc(false); return teq(x,bvc(b->c,x->w)); }
    if(a->op==T_ADD&&a->a[1]->op==T_BVC) return teq(a->a[0],bvc(b->c-a->a[1]->c,a->w));
    if(a->op==T_CONCAT) return tand(teq(a->a[0],bvc(b->c>>a->a[1]->w,a->a[0]->w)),teq(a->a[1],bvc(b->c,a->a[1]->w)));
    if(a->op==T_BXOR&&a->a[1]->op!=T_BVC&&b->c==0) return teq(a->a[0],a->a[1]);
    if(a->op==T_BXOR&&a->a[1]->op==T_BVC) return teq(a->a[0],bvc(b->c^a->a[1]->c,a->w));
    if(a->op==T_SUB&&b->c==0) return teq(a->a[0],a->a[1]);
    if(a->op==T_BOR&&b->c==0) return tand(teq(a->a[0],bvc(0,a->w)),teq(a->a[1],bvc(0,a->w)));
    if(a->op==T_ITE&&isC(a->a[1])){ return tite(a->a[0],teq(a->a[1],b),teq(a->a[2],b)); }
    if(a->op==T_ITE&&isC(a->a[2])){ return tite(a->a[0],teq(a->a[1],b),teq(a->a[2],b)); }
  }
  if(a->id>b->id&&!isC(b)) std::swap(a,b);
  return mk(T_EQ,S_BOOL,0,0,0,a,b); }
static TP tcmp(TOp op,TP a,TP b){ // bv compares
  if(a->op==T_BVC&&b->op==T_BVC){ u64 x=a->c,y=b->c; i64 sx=sextw(x,a->w),sy=sextw(y,a->w);
    return boolc(op==T_ULT? x<y: op==T_ULE? x<=y: op==T_SLT? sx<sy: sx<=sy); }
  if(a==b) return boolc(op==T_ULE||op==T_SLE);
  if(b->op==T_BVC&&op==T_ULT&&b->c==0) return boolc(false);
  if(b->op==T_BVC&&op==T_ULT&&b->c==1) return teq(a,bvc(0,a->w));
  if(a->op==T_BVC&&op==T_ULE&&a->c==0) return boolc(true);
  if(isC(b)&&a->op==T_ITE&&(isC(a->a[1])||isC(a->a[2]))) return tite(a->a[0],tcmp(op,a->a[1],b),tcmp(op,a->a[2],b));
  if(isC(a)&&b->op==T_ITE&&(isC(b->a[1])||isC(b->a[2]))) return tite(b->a[0],tcmp(op,a,b->a[1]),tcmp(op,a,b->a[2]));
  return mk(op,S_BOOL,0,0,0,a,b); }
static TP trcmp(TOp op,TP a,TP b){ if(isC(a)&&isC(b)){ double x=b2d(a->c),y=b2d(b->c); return boolc(op==T_RLT? x<y: op==T_RLE? x<=y: x==y); }
  auto inf=[&](TP t){ return t->op==T_REALC&&!std::isfinite(b2d(t->c)); };
  if(inf(a)){ double x=b2d(a->c); if(std::isnan(x)) return boolc(false); return boolc(op==T_REQ? false: x<0); }
  if(inf(b)){ double y=b2d(b->c); if(std::isnan(y)) return boolc(false); return boolc(op==T_REQ? false: y>0); }
  if(a==b) return boolc(op!=T_RLT); if(op==T_REQ&&a->id>b->id) std::swap(a,b); return mk(op,S_BOOL,0,0,0,a,b); }
struct Unsup { std::string msg; };
[[noreturn]] static void unsup(const std::string&m){ throw Unsup{m}; }
static void chkfin(TP t){ if(t->op==T_REALC&&!std::isfinite(b2d(t->c))) unsup("non-finite constant in symbolic arithmetic"); }
static TP treal(TOp op,TP a,TP b){
  if(isC(a)&&isC(b)){ double x=b2d(a->c),y=b2d(b->c); return realc(op==T_RADD?x+y:op==T_RSUB?x-y:op==T_RMUL?x*y:x/y); }
  chkfin(a); chkfin(b);
  if(op==T_RADD){ if(isRC(a,0)) return b; if(isRC(b,0)) return a; if(a->id>b->id) std::swap(a,b);}
  if(op==T_RSUB){ if(isRC(b,0)) return a; if(a==b) return realc(0); }
  if(op==T_RMUL){ if(isRC(a,0)) return a; if(isRC(b,0)) return b; if(isRC(a,1)) return b; if(isRC(b,1)) return a; if(a->id>b->id) std::swap(a,b);}
  if(op==T_RDIV){ if(isRC(b,1)) return a; if(isRC(a,0)) return a; }
  return mk(op,S_REAL,0,0,0,a,b); }
static TP trneg(TP a){ if(isC(a)) return realc(-b2d(a->c)); if(a->op==T_RNEG) return a->a[0]; return mk(T_RNEG,S_REAL,0,0,0,a); }
static std::vector<std::string> ufn; static std::map<std::string,u32> ufi;
static u32 ufid(const std::string&n){ auto it=ufi.find(n); if(it!=ufi.end()) return it->second; u32 k=ufn.size(); ufn.push_back(n); ufi[n]=k; return k; }
struct VarInfo{ std::string name; Sort sort; u8 w; int kind; i64 lo,hi,scale; double dlo,dhi; TP term; };
static std::vector<VarInfo> vars;
static TP mkvar(VarInfo v){ u32 k=vars.size(); vars.push_back(v); TP t=mk(T_VAR,v.sort,v.w,k,0); vars[k].term=t; return t; }

// ============================ statistics / options ====================================
static struct Stats{ u64 queries=0,sat=0,unsat=0,unknown=0,asserts=0,dis_syn=0,steps=0,forks=0,skipped=0; double solver_s=0; } st;
static struct Opt{ std::string entry,out,dump; u64 maxsteps=400000000ull; unsigned rlimit=20000000; int jobs=8; int pend=200; double wall=600; bool concrete=false; int maxdepth=100000; } opt;
static std::map<std::string,i64> params; static std::map<std::string,std::string> concr;
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double t0;
static std::string jesc(const std::string&s){ std::string r="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r+"\""; }

// ============================ SMT back end ============================================
static z3::context* Z; static z3::solver* SV;
static std::vector<Z3_ast> zmemo; static std::vector<z3::expr> zkeep;
static std::vector<z3::func_decl> zuf; 
static std::vector<TP> PC; // path condition
static z3::expr zdbl(double d){ if(!std::isfinite(d)) unsup("non-finite constant in query");
  int e; double m=frexp(d,&e); i64 mi=(i64)ldexp(m,53); e-=53; while(mi&&!(mi&1)){ mi/=2; e++; } if(!mi) return Z->real_val(0);
  z3::expr r=Z->real_val((int64_t)mi); if(e==0) return r; 
  std::string s="1"; // 2^|e| as decimal via z3 power on numerals
  z3::expr p=Z->real_val(1); int k=abs(e); z3::expr two62=Z->real_val((int64_t)(1ll<<62)); while(k>=62){ p=(p*two62).simplify(); k-=62; } p=(p*Z->real_val((int64_t)(1ll<<k))).simplify();
  return (e>0? r*p: r/p).simplify(); }
static z3::expr tz(TP t);
static std::vector<TP> pendax; // axioms for new UF terms
static void need_ax(TP t);
static z3::expr tz_(TP t){ auto A=[&](int i){ return tz(t->a[i]); };
  switch(t->op){
  case T_VAR:{ auto&v=vars[t->aux]; if(v.kind==2){ z3::expr k=Z->int_const((v.name+"!k").c_str()); return z3::to_real(k)*Z->real_val((int64_t)v.scale); }
     return v.sort==S_BV? Z->bv_const(v.name.c_str(),v.w): v.sort==S_REAL? Z->real_const(v.name.c_str()): Z->bool_const(v.name.c_str()); }
  case T_BVC: return Z->bv_val((uint64_t)t->c,t->w); case T_BOOLC: return Z->bool_val((bool)t->c); case T_REALC: return zdbl(b2d(t->c));
  case T_NOT: return !A(0); case T_AND: return A(0)&&A(1); case T_OR: return A(0)||A(1); case T_EQ: case T_REQ: return A(0)==A(1);
  case T_ULT: return z3::ult(A(0),A(1)); case T_ULE: return z3::ule(A(0),A(1)); case T_SLT: return A(0)<A(1); case T_SLE: return A(0)<=A(1);
  case T_RLT: return A(0)<A(1); case T_RLE: return A(0)<=A(1);
  case T_ADD: return A(0)+A(1); case T_SUB: return A(0)-A(1); case T_MUL: return A(0)*A(1);
  case T_UDIV: return z3::udiv(A(0),A(1)); case T_SDIV: return A(0)/A(1); case T_UREM: return z3::urem(A(0),A(1)); case T_SREM: return z3::srem(A(0),A(1));
  case T_SHL: return z3::shl(A(0),A(1)); case T_LSHR: return z3::lshr(A(0),A(1)); case T_ASHR: return z3::ashr(A(0),A(1));
  case T_BAND: return A(0)&A(1); case T_BOR: return A(0)|A(1); case T_BXOR: return A(0)^A(1);
  case T_ZEXT: return z3::zext(A(0),t->w-t->a[0]->w); case T_SEXT: return z3::sext(A(0),t->w-t->a[0]->w);
  case T_EXTRACT: return A(0).extract(t->aux+t->w-1,t->aux); case T_CONCAT: return z3::concat(A(0),A(1));
  case T_RADD: return A(0)+A(1); case T_RSUB: return A(0)-A(1); case T_RMUL: return A(0)*A(1); case T_RDIV: return A(0)/A(1); case T_RNEG: return -A(0);
  case T_UF1: { z3::expr a=A(0); return Z->function(ufn[t->aux].c_str(),Z->real_sort(),Z->real_sort())(a); }
  case T_UF2: { z3::expr a=A(0),b=A(1); return Z->function(ufn[t->aux].c_str(),Z->real_sort(),Z->real_sort(),Z->real_sort())(a,b); }
  case T_ITE: return z3::ite(A(0),A(1),A(2));
  default: unsup("term"); } }
static bool memoed(TP t){ return zmemo.size()>t->id&&zmemo[t->id]; }
static bool sumleaves(TP t,std::vector<std::pair<TP,bool>>&out){ out.clear(); std::vector<std::pair<TP,bool>> w{{t,false}}; bool first=true; while(!w.empty()){ auto [x,n]=w.back(); w.pop_back(); if((x->op==T_RADD||x->op==T_RSUB)&&(first||!memoed(x))){ w.push_back({x->a[1],n!=(x->op==T_RSUB)}); w.push_back({x->a[0],n}); } else out.push_back({x,n}); first=false; if(out.size()+w.size()>2000) return false; } return true; }
static z3::expr tz(TP t){ if(zmemo.size()<=t->id) zmemo.resize(tall.size()+64,nullptr); if(zmemo[t->id]) return z3::expr(*Z,zmemo[t->id]);
  // iterative post-order to keep the C stack shallow; sums are flattened to one n-ary addition
  std::vector<TP> stk{t}; std::vector<std::pair<TP,bool>> lv; while(!stk.empty()){ TP x=stk.back(); if(zmemo.size()<=x->id) zmemo.resize(tall.size()+64,nullptr); if(zmemo[x->id]){ stk.pop_back(); continue; }
    bool ready=true,sum=(x->op==T_RADD||x->op==T_RSUB)&&sumleaves(x,lv);
    if(sum){ for(auto&y:lv) if(!memoed(y.first)){ stk.push_back(y.first); ready=false; } }
    else for(auto y:x->a) if(y&&!memoed(y)){ stk.push_back(y); ready=false; }
    if(!ready) continue; z3::expr e(*Z); if(sum){ z3::expr_vector ev(*Z); for(auto&y:lv){ z3::expr q(*Z,zmemo[y.first->id]); ev.push_back(y.second?-q:q); } e=z3::sum(ev); } else e=tz_(x); zkeep.push_back(e); zmemo[x->id]=e; stk.pop_back(); }
  return z3::expr(*Z,zmemo[t->id]); }
enum Res{ SAT,UNSAT,UNK };
static z3::model* curmodel=nullptr;
static int dumpno=0;
static Res zcheck(TP extra, bool keepmodel){
  double a=now(); st.queries++;
  SV->push(); Res r; try{ if(extra) SV->add(tz(extra)); auto c=SV->check(); r= c==z3::sat?SAT: c==z3::unsat?UNSAT:UNK;
    if(r==SAT&&keepmodel){ delete curmodel; curmodel=new z3::model(SV->get_model()); }
    if(r==UNK){ // second attempt: fresh non-incremental solver (different engine, e.g. nlsat)
      z3::solver s2(*Z); z3::params p(*Z); p.set("rlimit",opt.rlimit*4u); p.set("timeout",30000u); s2.set(p); for(auto e:SV->assertions()) s2.add(e); auto c2=s2.check(); r= c2==z3::sat?SAT: c2==z3::unsat?UNSAT:UNK; if(r==SAT&&keepmodel){ delete curmodel; curmodel=new z3::model(s2.get_model()); } }
    if(!opt.dump.empty()){ char fn[512]; snprintf(fn,512,"%s/q_%d_%d_%s.smt2",opt.dump.c_str(),getpid(),dumpno++,r==SAT?"sat":r==UNSAT?"unsat":"unknown"); FILE*f=fopen(fn,"w"); if(f){ fputs(SV->to_smt2().c_str(),f); fclose(f);} }
  }catch(z3::exception&e){ r=UNK; fprintf(stderr,"z3: %s\n",e.msg()); }
  SV->pop(); st.solver_s+=now()-a; if(r==SAT) st.sat++; else if(r==UNSAT) st.unsat++; else st.unknown++; return r; }
// does the cached model satisfy c ?
static int modeleval(TP c){ if(!curmodel) return -1; try{ z3::expr v=curmodel->eval(tz(c),true); if(v.is_true()) return 1; if(v.is_false()) return 0; }catch(...){} return -1; }
// pinned variables: equality facts  var==const  on this path
static std::unordered_map<TP,TP> pinned; static std::unordered_map<TP,TP> submemo;
static TP rebuild(TP t,TP a,TP b,TP c){ switch(t->op){
  case T_NOT: return tnot(a); case T_AND: return tand(a,b); case T_OR: return tor(a,b); case T_EQ: return teq(a,b);
  case T_ULT: case T_ULE: case T_SLT: case T_SLE: return tcmp(t->op,a,b); case T_RLT: case T_RLE: case T_REQ: return trcmp(t->op,a,b);
  case T_ADD: case T_SUB: case T_MUL: case T_UDIV: case T_SDIV: case T_UREM: case T_SREM: case T_SHL: case T_LSHR: case T_ASHR: case T_BAND: case T_BOR: case T_BXOR: return tbv(t->op,a,b);
  case T_ZEXT: return tzext(a,t->w); case T_SEXT: return tsext(a,t->w); case T_EXTRACT: return textr(a,t->aux,t->w); case T_CONCAT: return tconcat(a,b);
  case T_RADD: case T_RSUB: case T_RMUL: case T_RDIV: return treal(t->op,a,b); case T_RNEG: return trneg(a);
  case T_ITE: return tite(a,b,c); default: return mk(t->op,t->sort,t->w,t->aux,t->c,a,b,c); } }
static TP subst(TP t){ if(pinned.empty()||isC(t)) return t; { auto p=pinned.find(t); if(p!=pinned.end()) return p->second; }
  auto m=submemo.find(t); if(m!=submemo.end()) return m->second; TP r=t; if(t->a[0]){ TP a=subst(t->a[0]),b=t->a[1]?subst(t->a[1]):nullptr,c=t->a[2]?subst(t->a[2]):nullptr; if(a!=t->a[0]||b!=t->a[1]||c!=t->a[2]) r=rebuild(t,a,b,c); }
  submemo[t]=r; return r; }
static void learn(TP c){ // record equalities
  if(c->op==T_AND){ learn(c->a[0]); learn(c->a[1]); return; }
  if((c->op==T_EQ||c->op==T_REQ)&&isC(c->a[1])&&!isC(c->a[0])){ pinned[c->a[0]]=c->a[1]; submemo.clear(); }
  else if((c->op==T_EQ||c->op==T_REQ)&&isC(c->a[0])&&!isC(c->a[1])){ pinned[c->a[1]]=c->a[0]; submemo.clear(); } }
static void addpc(TP c){ if(c->op==T_BOOLC&&c->c) return; PC.push_back(c); SV->add(tz(c)); learn(c); if(modeleval(c)!=1){ delete curmodel; curmodel=nullptr; } }

// ============================ values & memory =========================================
struct Agg;
struct Val{ u64 b=0; TP t=nullptr; Agg* g=nullptr; };
struct Agg{ std::vector<Val> e; };
static Val cv(u64 b){ Val v; v.b=b; return v; }
static Val tv(TP t){ Val v; if(isC(t)){ v.b=t->c; return v; } v.t=t; return v; }
struct Slot{ u32 size; TP t; };
enum OK_ : u8 { O_GLOBAL,O_STACK,O_HEAP,O_FUNC,O_EXT };
struct Obj{ u64 base,size; std::vector<u8> d; std::map<u64,Slot> sym; bool alive=true,ro=false; OK_ kind; GlobalVariable*gv=nullptr; bool lazy=false; Function*fn=nullptr; std::string name; u8 how=0; };
static std::map<u64,Obj*> mem; static u64 nextaddr=0x10000; static Obj* lastobj[4];
struct PathEnd{ std::string outcome,msg; };
[[noreturn]] static void endpath(const std::string&o,const std::string&m){ throw PathEnd{o,m}; }
static Obj* newobj(u64 size,OK_ k,const std::string&name,bool junk=true){ Obj*o=new Obj; o->base=nextaddr; o->size=size; o->kind=k; o->name=name; if(k!=O_FUNC) o->d.assign(size,junk?0x41:0); nextaddr+=((size+15)&~15ull)+64; nextaddr=(nextaddr+63)&~63ull; mem[o->base]=o; return o; }
static void initgv(Obj*o);
static Obj* findobj(u64 a){ for(auto o:lastobj) if(o&&a>=o->base&&a<=o->base+o->size) return o; auto it=mem.upper_bound(a); if(it==mem.begin()) return nullptr; --it; Obj*o=it->second; if(a>o->base+o->size) return nullptr; lastobj[3]=lastobj[2]; lastobj[2]=lastobj[1]; lastobj[1]=lastobj[0]; lastobj[0]=o; return o; }
static std::string where(); static std::string fnwhere();
// ---- two threads run one after the other from the same initial state; their accesses are compared for races
struct Acc{ u64 off,n; bool wr,at; int ls; bool operator<(const Acc&o)const{ return std::tie(off,n,wr,at,ls)<std::tie(o.off,o.n,o.wr,o.at,o.ls); } };
struct Locks{ std::set<u64> held,init,passed; bool operator==(const Locks&o)const{ return held==o.held&&init==o.init&&passed==o.passed; } };
static int phase=0; static u64 phmark=0; static bool atomicacc=false; static Locks curlocks; static std::vector<Locks> locksets; static int curls=-1;
static std::map<Obj*,std::map<Acc,std::string>> accs[3];
static int lockid(){ if(curls>=0) return curls; for(size_t i=0;i<locksets.size();i++) if(locksets[i]==curlocks) return curls=(int)i; locksets.push_back(curlocks); return curls=(int)locksets.size()-1; }
static void record(Obj*o,u64 off,u64 n,bool wr){ if(o->ro||!n||(o->gv&&o->gv->isThreadLocal())||(o->base>=phmark&&o->kind!=O_GLOBAL)||(o->kind==O_GLOBAL&&!o->gv)) return; Acc k{off,n,wr,atomicacc,lockid()}; auto&m=accs[phase][o]; if(m.find(k)==m.end()) m[k]=fnwhere(); }
static Obj* access(u64 a,u64 n,bool wr){ Obj*o=findobj(a); char buf[160];
  if(!o||a+n>o->base+o->size){ snprintf(buf,160,"%s of %llu bytes outside any object%s",wr?"write":"read",(unsigned long long)n,o?(" (past end of "+o->name+")").c_str():a<4096?" (null)":""); endpath("memory",buf+where()); }
  if(!o->alive) endpath("memory",std::string(wr?"write to":"read of")+" dead object "+o->name+where());
  if(o->kind==O_FUNC) endpath("memory","data access to function"); if(o->kind==O_EXT) unsup("access to external object "+o->name);
  if(o->lazy) initgv(o); if(wr&&o->ro) endpath("memory","write to constant "+o->name); if(phase) record(o,a-o->base,n,wr); return o; }
static void clearsym(Obj*o,u64 off,u64 n){ if(o->sym.empty()||!n) return; auto it=o->sym.lower_bound(off>64?off-64:0);
  while(it!=o->sym.end()&&it->first<off+n){ u64 s=it->first,e=s+it->second.size; if(e<=off){ ++it; continue; }
    if(s>=off&&e<=off+n){ it=o->sym.erase(it); continue; }
    Slot sl=it->second; if(sl.t->sort==S_REAL) unsup("partial overwrite of real slot"); it=o->sym.erase(it);
    for(u64 k=s;k<e;k++) if(k<off||k>=off+n){ TP b=textr(sl.t,(k-s)*8,8); if(b->op==T_BVC) o->d[k]=b->c; else o->sym[k]={1,b}; } it=o->sym.lower_bound(off); } }
static void storebits(u64 a,u64 v,unsigned n){ Obj*o=access(a,n,true); u64 off=a-o->base; clearsym(o,off,n); memcpy(&o->d[off],&v,n); }
static void storeterm(u64 a,TP t,unsigned n){ Obj*o=access(a,n,true); u64 off=a-o->base; clearsym(o,off,n); if(t->sort==S_BOOL) t=tite(t,bvc(1,n*8),bvc(0,n*8)); else if(t->sort==S_BV&&t->w<n*8) t=tzext(t,n*8); if(isC(t)){ memcpy(&o->d[off],&t->c,n); return; } o->sym[off]={n,t}; }
static Val loadscalar(u64 a,unsigned n){ Obj*o=access(a,n,false); u64 off=a-o->base; Val v;
  if(!o->sym.empty()){ auto it=o->sym.lower_bound(off>64?off-64:0); while(it!=o->sym.end()&&it->first+it->second.size<=off) ++it;
    if(it!=o->sym.end()&&it->first<off+n){ if(it->first==off&&it->second.size==n){ TP t=subst(it->second.t); return tv(t); }
      // compose bytes
      TP r=nullptr; for(unsigned k=0;k<n;k++){ TP b=nullptr; for(auto j=it;j!=o->sym.end()&&j->first<=off+k;++j) if(off+k<j->first+j->second.size){ if(j->second.t->sort==S_REAL) unsup("partial load of real slot"); b=textr(subst(j->second.t),(off+k-j->first)*8,8); }
        if(!b) b=bvc(o->d[off+k],8); r= r? tconcat(b,r): b; } return tv(r); } }
  memcpy(&v.b,&o->d[off],n); return v; }
static void memcopy(u64 dst,u64 src,u64 n){ if(!n) return; Obj*s=access(src,n,false); Obj*d=access(dst,n,true); u64 so=src-s->base,dof=dst-d->base;
  std::vector<std::pair<u64,Slot>> mv; if(!s->sym.empty()){ auto it=s->sym.lower_bound(so>64?so-64:0); for(;it!=s->sym.end()&&it->first<so+n;++it){ u64 b=it->first,e=b+it->second.size; if(e<=so) continue; if(b>=so&&e<=so+n) mv.push_back({b-so,it->second}); else { if(it->second.t->sort==S_REAL) unsup("partial copy of real slot"); for(u64 k=b;k<e;k++) if(k>=so&&k<so+n) mv.push_back({k-so,{1,textr(it->second.t,(k-b)*8,8)}}); } } }
  std::vector<u8> tmp(s->d.begin()+so,s->d.begin()+so+n); clearsym(d,dof,n); memcpy(&d->d[dof],tmp.data(),n); for(auto&p:mv){ if(isC(p.second.t)) memcpy(&d->d[dof+p.first],&p.second.t->c,p.second.size); else d->sym[dof+p.first]=p.second; } }

// ============================ decoded program =========================================
static Module* M; static const DataLayout* DL;
struct Opd{ int slot=-1; Val c; };
struct DBB;
struct DInst{ unsigned opc; int dst=-1; unsigned w=0,w2=0; unsigned pred=0; bool isfp=false; std::vector<Opd> o; Instruction* I; std::vector<std::pair<int,i64>> gep; i64 gepc=0; DBB* s[2]={nullptr,nullptr}; Type*ty=nullptr; Function*callee=nullptr; const std::function<Val(std::vector<Val>&,DInst&)>* ext=nullptr; };
struct DBB{ std::vector<DInst> in; std::vector<std::pair<int,std::vector<std::pair<DBB*,Opd>>>> phis; BasicBlock*bb; bool landing=false; };
struct DFn{ Function*F; std::vector<DBB*> bbs; int nslots=0; bool decoded=false; };
static std::unordered_map<Function*,DFn*> dfn; static std::unordered_map<GlobalValue*,u64> gaddr; static std::unordered_map<u64,Function*> faddr;
static std::set<std::string> fnseen;
struct Frame{ DFn*f; DBB*bb; size_t ip; std::vector<Val> r; std::vector<Obj*> al; DInst*call=nullptr; DBB*prev=nullptr; std::vector<Val> va; };
static std::vector<Frame> stk;
static std::string fnwhere(){ for(size_t i=stk.size();i-->0;){ std::string s=llvm::demangle(stk[i].f->F->getName().str()); if(s.find("IntegratorXX")!=std::string::npos){ if(s.size()>160) s.resize(160); return s; } } return stk.empty()?"":stk.back().f->F->getName().str(); }
static std::string where(){ if(stk.empty()) return ""; std::string s=" in "; s+=llvm::demangle(stk.back().f->F->getName().str()); if(s.size()>200) s.resize(200); return s; }

static u64 addrof(GlobalValue*g){ auto it=gaddr.find(g); if(it!=gaddr.end()) return it->second;
  if(auto*al=dyn_cast<GlobalAlias>(g)){ auto*b=dyn_cast<GlobalValue>(al->getAliasee()->stripPointerCasts()); u64 a=addrof(b); gaddr[g]=a; return a; }
  if(auto*F=dyn_cast<Function>(g)){ Obj*o=newobj(16,O_FUNC,F->getName().str()); o->fn=F; faddr[o->base]=F; return gaddr[g]=o->base; }
  auto*v=cast<GlobalVariable>(g); u64 sz=v->getValueType()->isSized()? DL->getTypeAllocSize(v->getValueType()).getFixedValue():8;
  bool ext=v->isDeclaration(); Obj*o=newobj(ext?std::max<u64>(sz,256):std::max<u64>(sz,1),ext?O_EXT:O_GLOBAL,v->getName().str(),false);
  if(v->getName()=="__libc_single_threaded"){ o->kind=O_GLOBAL; o->d[0]=1; }
  else if(!ext){ o->gv=v; o->lazy=true; o->ro=v->isConstant(); }
  return gaddr[g]=o->base; }
static Val constval(const Constant*c);
static void storeconst(u8*p,const Constant*c){ Type*t=c->getType(); if(isa<UndefValue>(c)||c->isNullValue()) return;
  if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ StringRef r=cd->getRawDataValues(); memcpy(p,r.data(),r.size()); return; }
  if(auto*ca=dyn_cast<ConstantArray>(c)){ u64 es=DL->getTypeAllocSize(ca->getType()->getElementType()).getFixedValue(); for(unsigned i=0;i<ca->getNumOperands();i++) storeconst(p+i*es,ca->getOperand(i)); return; }
  if(auto*cs=dyn_cast<ConstantStruct>(c)){ auto*sl=DL->getStructLayout(cs->getType()); for(unsigned i=0;i<cs->getNumOperands();i++) storeconst(p+sl->getElementOffset(i).getFixedValue(),cs->getOperand(i)); return; }
  if(auto*cvv=dyn_cast<ConstantVector>(c)){ u64 es=DL->getTypeAllocSize(cvv->getType()->getElementType()).getFixedValue(); for(unsigned i=0;i<cvv->getNumOperands();i++) storeconst(p+i*es,cvv->getOperand(i)); return; }
  Val v=constval(c); u64 n=DL->getTypeStoreSize(t).getFixedValue(); if(n>8) unsup("wide constant"); memcpy(p,&v.b,n); }
static void initgv(Obj*o){ o->lazy=false; storeconst(o->d.data(),o->gv->getInitializer()); }
static Val constval(const Constant*c){ Type*t=c->getType();
  if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()>64){ if(ci->getValue().getActiveBits()>64) unsup("wide int constant"); } return cv(ci->getValue().getLimitedValue()); }
  if(auto*cf=dyn_cast<ConstantFP>(c)){ if(t->isX86_FP80Ty()){ bool li; APFloat f=cf->getValueAPF(); f.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&li); return cv(d2b(f.convertToDouble())); } return cv(cf->getValueAPF().bitcastToAPInt().getZExtValue()); }
  if(isa<ConstantPointerNull>(c)) return cv(0);
  if(auto*g=dyn_cast<GlobalValue>(c)) return cv(addrof(const_cast<GlobalValue*>(g)));
  if(t->isAggregateType()||t->isVectorTy()){ Val v; v.g=new Agg; unsigned n= t->isStructTy()? t->getStructNumElements(): t->isArrayTy()? t->getArrayNumElements(): cast<FixedVectorType>(t)->getNumElements();
    for(unsigned i=0;i<n;i++){ Constant*e=c->getAggregateElement(i); v.g->e.push_back(e?constval(e):Val()); } return v; }
  if(isa<UndefValue>(c)) return cv(0);
  if(auto*ce=dyn_cast<ConstantExpr>(c)){ switch(ce->getOpcode()){
    case Instruction::GetElementPtr:{ auto*go=cast<GEPOperator>(ce); APInt off(64,0); if(!go->accumulateConstantOffset(*DL,off)) unsup("const gep"); return cv(constval(ce->getOperand(0)).b+off.getSExtValue()); }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constval(ce->getOperand(0));
    case Instruction::Trunc: return cv(constval(ce->getOperand(0)).b&maskw(t->getIntegerBitWidth()));
    case Instruction::Sub: return cv((constval(ce->getOperand(0)).b-constval(ce->getOperand(1)).b)&maskw(t->getIntegerBitWidth()));
    case Instruction::Add: return cv((constval(ce->getOperand(0)).b+constval(ce->getOperand(1)).b)&maskw(t->getIntegerBitWidth()));
    default: unsup(std::string("constexpr ")+ce->getOpcodeName()); } }
  unsup("constant"); }
typedef std::function<Val(std::vector<Val>&,DInst&)> Ext;
static std::map<std::string,Ext> exts;
static unsigned bw(Type*t){ if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isPointerTy()) return 64; if(t->isDoubleTy()) return 64; if(t->isFloatTy()) return 32; if(t->isX86_FP80Ty()) return 64; return 0; }
static const Ext* findext(Function*F);
static DFn* decode(Function*F){ auto it=dfn.find(F); DFn*d; if(it!=dfn.end()){ d=it->second; if(d->decoded) return d; } else { d=new DFn; d->F=F; dfn[F]=d; }
  d->decoded=true; std::unordered_map<const Value*,int> sl; std::unordered_map<const BasicBlock*,DBB*> bm; int n=0; for(auto&a:F->args()) sl[&a]=n++; for(auto&bb:*F){ DBB*b=new DBB; b->bb=&bb; bm[&bb]=b; d->bbs.push_back(b); for(auto&I:bb) if(!I.getType()->isVoidTy()) sl[&I]=n++; } d->nslots=n;
  auto op=[&](const Value*v){ Opd o; if(auto*c=dyn_cast<Constant>(v)){ o.c=constval(c); } else if(isa<MetadataAsValue>(v)||isa<BasicBlock>(v)||isa<InlineAsm>(v)){ } else o.slot=sl.at(v); return o; };
  for(auto&bb:*F){ DBB*b=bm[&bb]; for(auto&I:bb){
    if(auto*p=dyn_cast<PHINode>(&I)){ std::vector<std::pair<DBB*,Opd>> v; for(unsigned i=0;i<p->getNumIncomingValues();i++) v.push_back({bm[p->getIncomingBlock(i)],op(p->getIncomingValue(i))}); b->phis.push_back({sl[&I],v}); continue; }
    if(isa<DbgInfoIntrinsic>(I)) continue; if(auto*ii=dyn_cast<IntrinsicInst>(&I)){ auto id=ii->getIntrinsicID(); if(id==Intrinsic::lifetime_start||id==Intrinsic::lifetime_end||id==Intrinsic::assume||id==Intrinsic::experimental_noalias_scope_decl||id==Intrinsic::invariant_start||id==Intrinsic::invariant_end) continue; }
    DInst x; x.opc=I.getOpcode(); x.I=&I; x.ty=I.getType(); if(!I.getType()->isVoidTy()) x.dst=sl[&I]; x.w=bw(I.getType()); x.isfp=I.getType()->isFloatingPointTy();
    if(isa<LandingPadInst>(I)) b->landing=true;
    if(auto*g=dyn_cast<GetElementPtrInst>(&I)){ if(g->getType()->isVectorTy()) { x.opc=0; } else { x.o.push_back(op(g->getPointerOperand())); for(auto gi=gep_type_begin(g),ge=gep_type_end(g);gi!=ge;++gi){ Value*idx=gi.getOperand(); if(auto*stt=gi.getStructTypeOrNull()){ x.gepc+=DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()).getFixedValue(); } else { i64 es=gi.getSequentialElementStride(*DL).getFixedValue(); if(auto*ci=dyn_cast<ConstantInt>(idx)) x.gepc+=ci->getSExtValue()*es; else { Opd o=op(idx); o.c.b=idx->getType()->getIntegerBitWidth(); x.o.push_back(o); x.gep.push_back({(int)x.o.size()-1,es}); } } } } }
    else if(auto*br=dyn_cast<BranchInst>(&I)){ if(br->isConditional()) x.o.push_back(op(br->getCondition())); for(unsigned i=0;i<br->getNumSuccessors();i++) x.s[i]=bm[br->getSuccessor(i)]; }
    else if(auto*sw=dyn_cast<SwitchInst>(&I)){ x.o.push_back(op(sw->getCondition())); x.w=sw->getCondition()->getType()->getIntegerBitWidth(); }
    else if(auto*cb=dyn_cast<CallBase>(&I)){ for(auto&a:cb->args()) x.o.push_back(op(a.get())); x.o.push_back(op(cb->getCalledOperand())); if(auto*iv=dyn_cast<InvokeInst>(&I)){ x.s[0]=bm[iv->getNormalDest()]; x.s[1]=bm[iv->getUnwindDest()]; } x.callee=dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()); if(x.callee) x.ext=findext(x.callee); }
    else { for(auto&o:I.operands()) x.o.push_back(op(o.get())); if(auto*c=dyn_cast<CmpInst>(&I)){ x.pred=c->getPredicate(); } if(I.getNumOperands()) x.w2=bw(I.getOperand(0)->getType()); if(isa<StoreInst>(I)) x.ty=I.getOperand(0)->getType(); if(isa<AllocaInst>(I)) x.ty=cast<AllocaInst>(I).getAllocatedType(); }
    b->in.push_back(std::move(x)); } }
  return d; }

// switch targets need block map: resolve via name
static std::unordered_map<const SwitchInst*,std::pair<std::map<u64,DBB*>,DBB*>> swmap;
static void decodesw(DFn*f){ std::unordered_map<const BasicBlock*,DBB*> bm; for(auto b:f->bbs) bm[b->bb]=b; for(auto b:f->bbs) if(auto*s=dyn_cast<SwitchInst>(b->bb->getTerminator())){ auto&m=swmap[s]; for(auto&c:s->cases()) m.first[c.getCaseValue()->getZExtValue()]=bm[c.getCaseSuccessor()]; m.second=bm[s->getDefaultDest()]; } }

// ============================ path recording & forking ================================
static std::string pathid; static std::vector<std::string> viols,undec,reached,emits,notes; static int tokr=-1,tokw=-1,penr=-1,penw=-1; static bool havepend=false; static std::vector<pid_t> kids; static int depth=0; static u64 pathsteps=0;
static std::string modelval(TP t){ z3::expr v=curmodel->eval(tz(t),true); if(v.is_algebraic()){ std::string lo=v.get_decimal_string(17); if(!lo.empty()&&lo.back()=='?') lo.pop_back(); return lo; } if(t->sort==S_BV){ uint64_t u=0; if(v.is_numeral_u64(u)) return std::to_string((unsigned long long)u); std::string s=v.to_string(); if(s.rfind("#x",0)==0) return std::to_string(strtoull(s.c_str()+2,0,16)); if(s.rfind("#b",0)==0) return std::to_string(strtoull(s.c_str()+2,0,2)); return s; }
  std::string s=Z3_get_numeral_string(*Z,v); return s; }
static std::string modeljson(){ std::string s="{"; bool first=true; for(auto&v:vars){ if(v.kind==4) continue; if(!first) s+=","; first=false; s+=jesc(v.name)+":"; 
    if(v.kind==3){ s+=jesc(concr.count(v.name)?concr[v.name]:"0"); continue; }
    std::string x; try{ x=modelval(v.term); }catch(...){ x="0"; } s+=jesc(x); } return s+"}"; }
static void writeline(const std::string&s){ int fd=open(opt.out.c_str(),O_WRONLY|O_APPEND|O_CREAT,0644); std::string l=s+"\n"; size_t k=0; while(k<l.size()){ ssize_t r=write(fd,l.data()+k,l.size()-k); if(r<=0) break; k+=r; } close(fd); }
static void resetcounters(){ st=Stats(); viols.clear(); undec.clear(); emits.clear(); notes.clear(); fnseen.clear(); }
static bool released=false; static void release(){ if(released) return; released=true; char c='t'; if(write(tokw,&c,1)){} if(havepend&&write(penw,&c,1)){} havepend=false; }
static void finish(const std::string&outcome,const std::string&msg){
  bool want=outcome!="infeasible"; std::string mj="{}"; if(want&&!opt.concrete){ if(!curmodel){ if(zcheck(nullptr,true)!=SAT){ mj="null"; } } if(curmodel) mj=modeljson(); }
  std::string s="{\"path\":"+jesc(pathid)+",\"outcome\":"+jesc(outcome)+",\"msg\":"+jesc(msg)+",\"model\":"+mj; char b[600];
  snprintf(b,600,",\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"asserts\":%llu,\"syn\":%llu,\"steps\":%llu,\"skipped\":%llu,\"solver_s\":%.4f,\"pc\":%zu",(unsigned long long)st.queries,(unsigned long long)st.sat,(unsigned long long)st.unsat,(unsigned long long)st.unknown,(unsigned long long)st.asserts,(unsigned long long)st.dis_syn,(unsigned long long)st.steps,(unsigned long long)st.skipped,st.solver_s,PC.size()); s+=b;
  auto lst=[&](const char*n,std::vector<std::string>&v,bool raw){ s+=std::string(",\"")+n+"\":["; for(size_t i=0;i<v.size();i++){ if(i) s+=","; s+= raw? v[i]: jesc(v[i]); } s+="]"; };
  lst("viol",viols,true); lst("undec",undec,false); lst("reached",reached,false); lst("emits",emits,true); lst("notes",notes,false);
  std::vector<std::string> fs(fnseen.begin(),fnseen.end()); lst("fns",fs,false); s+="}"; writeline(s);
  release();
  for(auto k:kids){ int ws; waitpid(k,&ws,0); if(!WIFEXITED(ws)||WEXITSTATUS(ws)!=0){ char c='t'; if(write(tokw,&c,1)){} if(write(penw,&c,1)){} writeline("{\"path\":"+jesc(pathid+"+")+",\"outcome\":\"crash\",\"msg\":\"child status "+std::to_string(ws)+"\"}"); } }
  fflush(stdout); _exit(0); }
// fork the exploration; returns true in the child
// scheduling: a process executes only while it holds a run token; a forked child waits for one of its own
// when a "pending" token is free (at most opt.pend waiting processes), otherwise it runs in place of its parent
static void arm(); static void acquire(){ char c; while(read(tokr,&c,1)!=1){ if(errno!=EINTR) _exit(4); } }
static bool dofork(){ st.forks++; char c; bool pend= read(penr,&c,1)==1; fflush(stdout); pid_t p=fork(); if(p<0){ if(pend&&write(penw,&c,1)){} unsup("fork failed"); }
  if(p==0){ havepend=pend; kids.clear(); resetcounters(); depth++; arm(); if(pend) acquire(); return true; }
  if(pend) kids.push_back(p); else { int ws; waitpid(p,&ws,0); bool okx=WIFEXITED(ws)&&WEXITSTATUS(ws)==0; if(okx) acquire(); if(!okx) writeline("{\"path\":"+jesc(pathid+"+")+",\"outcome\":\"crash\",\"msg\":\"child status "+std::to_string(ws)+"\"}"); }
  return false; }
// hard deadline (a solver call that ignores its own limits): record and leave
static void onalarm(int){ static char b[512]; int n=snprintf(b,512,"{\"path\":\"%.80s\",\"outcome\":\"unsupported\",\"msg\":\"hard time limit\"}\n",pathid.c_str()); int fd=open(opt.out.c_str(),O_WRONLY|O_APPEND|O_CREAT,0644); if(write(fd,b,n)){} if(!released){ if(write(tokw,"t",1)){} if(havepend&&write(penw,"t",1)){} } _exit(0); }
static void arm(){ signal(SIGALRM,onalarm); double r=opt.wall+20-(now()-t0); alarm(r<1?1:(unsigned)r); }
static u32* gviol=nullptr; static u32* gtotal(){ return gviol? gviol+4096: nullptr; } // violation counters shared by all paths
static void checkwall(){ if(gviol&&__atomic_load_n(gtotal(),__ATOMIC_RELAXED)>=150) endpath("stopped","enough violations found"); if(now()-t0>opt.wall) endpath("timeout","wall clock budget"); }
// decide a branch on a symbolic condition; forks when both sides are feasible
static bool decide(TP c){ c=subst(c); if(c->op==T_BOOLC) return c->c; checkwall();
  int me=modeleval(c); bool ft,ff; bool unk=false;
  if(me==1){ ft=true; Res r=zcheck(tnot(c),false); ff=r!=UNSAT; unk|=r==UNK; }
  else if(me==0){ ff=true; Res r=zcheck(c,false); ft=r!=UNSAT; unk|=r==UNK; }
  else { Res r=zcheck(c,true); ft=r!=UNSAT; unk|=r==UNK; Res q=zcheck(tnot(c),false); ff=q!=UNSAT; unk|=q==UNK; }
  if(!ft&&!ff) endpath("infeasible","contradictory path");
  if(unk) notes.push_back("branch feasibility unknown");
  if(ft&&ff){ if(dofork()){ pathid+="0"; addpc(tnot(c)); return false; } pathid+="1"; addpc(c); return true; }
  if(ft){ /* implied */ learn(c); return true; } learn(tnot(c)); return false; }
// enumerate the values of a symbolic bit-vector; returns the concrete one of this path
static u64 pin(TP t){ t=subst(t); if(isC(t)) return t->c; if(t->sort==S_BOOL) return decide(t);
  if(t->sort!=S_BV) unsup("pin of real"); 
  if(t->op==T_ITE&&isC(t->a[1])&&isC(t->a[2])) return decide(t->a[0])? t->a[1]->c: t->a[2]->c;
  for(int k=0;;k++){ checkwall(); if(k>20000) unsup("too many values to enumerate"); if(!curmodel){ Res r=zcheck(nullptr,true); if(r==UNSAT) endpath("infeasible",""); if(r==UNK) unsup("unknown while pinning"); }
    u64 v=strtoull(modelval(t).c_str(),0,10); TP e=teq(t,bvc(v,t->w)); if(e->op==T_BOOLC&&e->c) return v;
    Res r=zcheck(tnot(e),false); if(r==UNSAT){ learn(e); pinned[t]=bvc(v,t->w); submemo.clear(); return v; }
    if(dofork()){ addpc(e); pinned[t]=bvc(v,t->w); submemo.clear(); pathid+="p"+std::to_string(v)+"."; return v; }
    addpc(tnot(e)); } }
static u64 conc(const Val&v){ if(!v.t) return v.b; return pin(v.t); }
// addresses: like pin, but a candidate outside every live object ends that path as a memory error
// and at most two such candidates are explored
static u64 concaddr(const Val&v){ if(!v.t) return v.b; TP t=subst(v.t); if(isC(t)) return t->c; if(t->sort!=S_BV) unsup("address is a real"); int oob=0;
  if(t->op==T_ITE&&isC(t->a[1])&&isC(t->a[2])) return pin(t);
  for(int k=0;;k++){ checkwall(); if(k>20000) unsup("too many addresses to enumerate"); if(!curmodel){ Res r=zcheck(nullptr,true); if(r==UNSAT) endpath("infeasible",""); if(r==UNK) unsup("unknown while pinning"); }
    u64 a=strtoull(modelval(t).c_str(),0,10); Obj*o=findobj(a); bool bad=!o||!o->alive||a>=o->base+o->size; TP e=teq(t,bvc(a,t->w)); if(e->op==T_BOOLC&&e->c) return a;
    Res r=zcheck(tnot(e),false); if(r==UNSAT||(bad&&++oob>2)){ if(r!=UNSAT) notes.push_back("further out-of-bounds addresses not enumerated"); addpc(e); pinned[t]=bvc(a,t->w); submemo.clear(); return a; }
    if(dofork()){ addpc(e); pinned[t]=bvc(a,t->w); submemo.clear(); pathid+="a"+std::to_string(k)+"."; return a; }
    addpc(tnot(e)); } }
static std::vector<std::string> violids;
static TP bvlit(TP,double);
// counterexample at fixed (pseudo-random, coarse) values of the real inputs: cheap for the solver
static bool pinnedcex(TP nc,const std::string&id){ bool hit=false;
    u64 h=88172645463325252ull; for(char ch:pathid+id){ h^=(u8)ch; h*=1099511628211ull; }
    for(int pass=0;pass<8&&!hit;pass++){ SV->push(); try{ for(auto&v:vars) if(v.sort==S_REAL&&v.kind==1){ h^=h<<13; h^=h>>7; h^=h<<17; double u=double((h>>11)&1023)/1024; double lo=std::max(v.dlo,-8.0),hi=std::min(v.dhi,8.0); if(pass&1){ lo=std::max(lo,-1.0); hi=std::min(hi,1.0); } if(lo<hi) SV->add(tz(v.term)==zdbl(std::ldexp(std::floor(std::ldexp(lo+u*(hi-lo),10)),-10))); } SV->add(tz(nc)); st.queries++; double a=now(); if(SV->check()==z3::sat){ delete curmodel; curmodel=new z3::model(SV->get_model()); hit=true; st.sat++; viols.push_back("{\"id\":"+jesc(id)+",\"path\":"+jesc(pathid)+",\"models\":["+modeljson()+"]}"); } st.solver_s+=now()-a; }catch(...){} SV->pop(); }
  return hit; }
// once an assertion has failed often enough (3 times on this path, 64 times over the run) it is not asked again
static std::unordered_map<std::string,int> lviol;
static u32& gslot(const std::string&id){ return gviol[std::hash<std::string>()(id)&4095]; }
static bool enough(const std::string&id){ if(!gviol) return false; auto it=lviol.find(id); return (it!=lviol.end()&&it->second>=3)||__atomic_load_n(&gslot(id),__ATOMIC_RELAXED)>=64; }
static void countviol(const std::string&id){ lviol[id]++; if(gviol){ __atomic_fetch_add(&gslot(id),1,__ATOMIC_RELAXED); __atomic_fetch_add(gtotal(),1,__ATOMIC_RELAXED); } }
static std::vector<TP> powexps; // exponents of uninterpreted powers
// a counterexample that survives rounding: real inputs and exponents from a short list of round numbers
static void roundmodel(TP nc,std::vector<std::string>&ms){ unsigned k=0; SV->push(); double a=now(); try{ static const double L[]={0,1,2,0.5,1.5,4,3,0.25,0.75,-1,-2,6,8}; auto oneof=[&](TP t,double lo,double hi,unsigned n){ z3::expr_vector o(*Z); for(unsigned i=0;i<n;i++) if(L[i]>=lo&&L[i]<=hi) o.push_back(tz(t)==zdbl(L[i])); if(o.size()) SV->add(z3::mk_or(o)); };
    for(auto&v:vars) if(v.sort==S_REAL&&v.kind==1&&k++<48) oneof(v.term,v.dlo,v.dhi,13); for(TP t:powexps){ TP x=subst(t); if(!isC(x)) oneof(x,-1e9,1e9,3); } if(nc) SV->add(tz(nc)); st.queries++; if(SV->check()==z3::sat){ st.sat++; delete curmodel; curmodel=new z3::model(SV->get_model()); ms.push_back(modeljson()); } }catch(...){} st.solver_s+=now()-a; SV->pop(); }
static bool hinted=false; // the caller already found a counterexample
static void assertterm(TP c,const std::string&id,TP strong=nullptr,std::vector<TP> nice={}){
  st.asserts++; c=subst(c); if(c->op==T_BOOLC&&c->c){ st.dis_syn++; return; } if(enough(id)){ st.skipped++; return; } struct Cnt{ const std::string&id; size_t n; ~Cnt(){ if(viols.size()>n) countviol(id); } } cntr{id,viols.size()};
  if(c->op==T_BOOLC){ // definite failure on this path
    if(!curmodel) zcheck(nullptr,true); std::vector<std::string> ms; ms.push_back(curmodel?modeljson():"null"); if(viols.size()<4){ z3::model* keep=curmodel?new z3::model(*curmodel):nullptr; roundmodel(nullptr,ms); if(keep){ delete curmodel; curmodel=keep; } }
    std::string s="{\"id\":"+jesc(id)+",\"path\":"+jesc(pathid)+",\"models\":["; for(size_t i=0;i<ms.size();i++) s+=(i?",":"")+ms[i]; viols.push_back(s+"]}"); return; }
  TP nc=tnot(c); std::vector<std::string> ms; Res r=UNSAT;
  bool got=false; z3::model* save=curmodel?new z3::model(*curmodel):nullptr;
  r=zcheck(nc,true);
  if(r==SAT){ ms.push_back(modeljson()); got=true;
    // look for numerically robust counterexamples: real inputs on a coarse grid, larger gap
    std::vector<TP> cand; if(strong) cand.push_back(strong); 
    z3::expr_vector gv(*Z); for(auto&v:vars) if(v.sort==S_REAL&&v.kind==1){ z3::expr k=Z->int_const((v.name+"!g").c_str()); gv.push_back(z3::expr(*Z,tz(v.term))*Z->real_val(64)==z3::to_real(k)); }
    bool more=viols.size()<6;
    for(int pass=0;more&&gv.size()<=64&&pass<2;pass++){ SV->push(); SV->add(tz(pass==0&&strong?strong:nc)); for(unsigned i=0;i<gv.size();i++) SV->add(gv[i]); st.queries++; double a=now(); z3::check_result q=z3::unknown; try{ q=SV->check(); if(q==z3::sat){ delete curmodel; curmodel=new z3::model(SV->get_model()); ms.push_back(modeljson()); } }catch(...){} st.solver_s+=now()-a; SV->pop(); if(q==z3::sat) break; if(!strong) break; }
    if(more) roundmodel(nc,ms);
    if(strong&&more){ if(zcheck(strong,true)==SAT) ms.push_back(modeljson()); }
    // a generic counterexample: every real input moved to a nearby random double (inputs on a grid can hide rounding)
    if(curmodel&&more){ std::vector<std::pair<TP,double>> want; u64 h=1469598103934665603ull; for(char ch:pathid+id){ h^=(u8)ch; h*=1099511628211ull; }
      for(auto&v:vars) if(v.sort==S_REAL&&v.kind==1){ h^=h<<13; h^=h>>7; h^=h<<17; double u=double(h>>11)*0x1p-53; std::string x=modelval(v.term); size_t q=x.find('/'); double d=q==std::string::npos? atof(x.c_str()): (double)(strtold(x.substr(0,q).c_str(),0)/strtold(x.substr(q+1).c_str(),0)); double lo=std::max(v.dlo,d-0.0625),hi=std::min(v.dhi,d+0.0625); if(std::isfinite(d)&&lo<hi) want.push_back({v.term,lo+u*(hi-lo)}); }
      for(int pass=0;pass<2&&!want.empty();pass++){ SV->push(); try{ SV->add(tz(pass==0&&strong?strong:nc)); for(auto&w:want) SV->add(tz(w.first)==zdbl(w.second)); st.queries++; double a=now(); if(SV->check()==z3::sat){ delete curmodel; curmodel=new z3::model(SV->get_model()); ms.push_back(modeljson()); pass=9; } st.solver_s+=now()-a; }catch(...){} SV->pop(); if(!strong) break; } }
    std::string s="{\"id\":"+jesc(id)+",\"path\":"+jesc(pathid)+",\"models\":["; for(size_t i=ms.size();i-->0;){ s+=ms[i]; if(i) s+=","; } s+="]}"; viols.push_back(s);
  } else if(r==UNK){ bool hit=hinted; if(!hit) // look for a counterexample at fixed values of the real inputs
    hit=pinnedcex(nc,id);
    undec.push_back(id); }
  delete curmodel; curmodel=save; 
  (void)got; }

// ============================ exceptions ==============================================
struct Exc{ u64 obj,ti; }; static std::vector<Exc> caught; static std::unordered_map<u64,u64> excti; // exc object -> typeinfo
static std::map<std::string,std::string> stdparent={{"_ZTISt13runtime_error","_ZTISt9exception"},{"_ZTISt11logic_error","_ZTISt9exception"},{"_ZTISt12out_of_range","_ZTISt11logic_error"},{"_ZTISt12length_error","_ZTISt11logic_error"},{"_ZTISt16invalid_argument","_ZTISt11logic_error"},{"_ZTISt12domain_error","_ZTISt11logic_error"},{"_ZTISt11range_error","_ZTISt13runtime_error"},{"_ZTISt14overflow_error","_ZTISt13runtime_error"},{"_ZTISt15underflow_error","_ZTISt13runtime_error"},{"_ZTISt9bad_alloc","_ZTISt9exception"},{"_ZTISt20bad_array_new_length","_ZTISt9bad_alloc"},{"_ZTISt8bad_cast","_ZTISt9exception"},{"_ZTISt10bad_typeid","_ZTISt9exception"},{"_ZTISt17bad_function_call","_ZTISt9exception"},{"_ZTISt12bad_weak_ptr","_ZTISt9exception"}};
static std::map<std::string,u64> extti;
static u64 tiaddr(const std::string&n){ if(auto*g=M->getNamedValue(n)) return addrof(g); auto it=extti.find(n); if(it!=extti.end()) return it->second; Obj*o=newobj(256,O_EXT,n); return extti[n]=o->base; }
// Itanium RTTI walk: is `sub` derived from `base`?  off = accumulated offset
static bool tiderived(u64 sub,u64 base,i64&off){ if(sub==base) return true; Obj*o=findobj(sub); if(!o) return false; if(o->kind==O_EXT){ auto it=stdparent.find(o->name); return it!=stdparent.end()&&tiderived(tiaddr(it->second),base,off); }
  u64 vt=loadscalar(sub,8).b; Obj*v=findobj(vt); std::string vn=v?v->name:""; if(vn.find("__si_class_type_info")!=std::string::npos) return tiderived(loadscalar(sub+16,8).b,base,off);
  if(vn.find("__vmi_class_type_info")!=std::string::npos){ u32 n=loadscalar(sub+20,4).b; for(u32 i=0;i<n;i++){ i64 of=(i64)loadscalar(sub+24+16*i+8,8).b; i64 o2=off+(of>>8); if(of&1) unsup("virtual base"); if(tiderived(loadscalar(sub+24+16*i,8).b,base,o2)){ off=o2; return true; } } }
  return false; }
static bool unwinding=false;
static void popframe(){ for(auto o:stk.back().al) o->alive=false; stk.pop_back(); }
static void gobb(Frame&f,DBB*b);
[[noreturn]] static void uncaught(u64 ti){ Obj*o=findobj(ti); endpath("uncaught",o?llvm::demangle(o->name):"?"); }
// transfers control to the landing pad for exception object e
static void unwind(u64 e,bool fromresume){ u64 ti=excti[e]; 
  for(;;){ if(stk.size()<=1&&stk.empty()) uncaught(ti); Frame&f=stk.back(); DInst*c=f.call; // instruction currently calling in this frame
    if(c&&c->s[1]){ LandingPadInst*lp=nullptr; lp=c->s[1]->bb->getLandingPadInst(); i64 sel=0; bool take=lp->isCleanup(); for(unsigned i=0;i<lp->getNumClauses();i++){ if(lp->isCatch(i)){ Constant*cl=lp->getClause(i); i64 off=0; if(cl->isNullValue()){ sel=1; take=true; break; } u64 ct=constval(cl).b; if(tiderived(ti,ct,off)){ sel=(i64)(ct&0x7fffffff); take=true; break; } } else { auto*ar=cast<ArrayType>(lp->getClause(i)->getType()); if(ar->getNumElements()==0){ sel=-1; take=true; break; } } }
      if(take){ DBB*b=c->s[1]; f.call=nullptr; gobb(f,b); // find landingpad slot
        DInst&l=b->in[0]; if(!isa<LandingPadInst>(l.I)) unsup("landingpad position"); Val v; v.g=new Agg; v.g->e={cv(e),cv((u64)(u32)sel)}; f.r[l.dst]=v; f.ip=1; return; } }
    popframe(); if(stk.empty()) uncaught(ti); } }
static void throwstd(const std::string&tiname){ Obj*o=newobj(64,O_HEAP,"exception"); excti[o->base]=tiaddr(tiname); unwinding=true; throw (u64)o->base; }

// ============================ interpreter =============================================
static void gobb(Frame&f,DBB*b){ if(!b->phis.empty()){ static std::vector<Val> tmp; tmp.clear(); for(auto&p:b->phis){ bool ok=false; for(auto&q:p.second) if(q.first==f.bb){ tmp.push_back(q.second.slot>=0? f.r[q.second.slot]: q.second.c); ok=true; break; } if(!ok) unsup("phi"); } for(size_t i=0;i<b->phis.size();i++) f.r[b->phis[i].first]=tmp[i]; } f.bb=b; f.ip=0; }
static TP asbv(const Val&v,unsigned w){ if(v.t){ if(v.t->sort==S_BOOL) return w==1? v.t: tite(v.t,bvc(1,w),bvc(0,w)); if(v.t->sort==S_REAL) unsup("integer operation on the bits of a symbolic real"); return v.t; } return bvc(v.b,w); }
static TP asbool(const Val&v){ if(!v.t) return boolc(v.b&1); if(v.t->sort==S_BOOL) return v.t; return teq(textr(v.t,0,1),bvc(1,1)); }
static TP asreal(const Val&v,unsigned w=64){ if(v.t){ if(v.t->sort!=S_REAL) unsup("float operation on symbolic bits"); return v.t; } if(w==32){ float f; u32 b=v.b; memcpy(&f,&b,4); return realc(f);} return realc(b2d(v.b)); }
static double asd(const Val&v){ return b2d(v.b); }
static u64 fb(float f){ u32 b; memcpy(&b,&f,4); return b; } static float bf(u64 v){ float f; u32 b=v; memcpy(&f,&b,4); return f; }
static void axiom(TP a);
static TP nonzero_guard(TP d){ TP z=trcmp(T_REQ,subst(d),realc(0)); if(z->op==T_BOOLC){ if(z->c) endpath("fpzero","floating-point division by zero"+where()); return d; } if(decide(z)) endpath("fpzero","floating-point division by zero"+where()); return subst(d); }
static std::unordered_set<TP> axdone;
static void axiom(TP a){ a=subst(a); if(a->op==T_BOOLC) return; PC.push_back(a); SV->add(tz(a)); if(modeleval(a)!=1){ delete curmodel; curmodel=nullptr; } }
static TP uf1(const std::string&n,TP a){ if(isC(a)){ double x=b2d(a->c); if(n=="log") return realc(std::log(x)); if(n=="exp") return realc(std::exp(x)); if(n=="log1p") return realc(std::log1p(x)); if(n=="expm1") return realc(std::expm1(x)); if(n=="sqrt") return realc(std::sqrt(x)); if(n=="sin") return realc(std::sin(x)); if(n=="cos") return realc(std::cos(x)); if(n=="tan") return realc(std::tan(x)); if(n=="log2") return realc(std::log2(x)); if(n=="log10") return realc(std::log10(x)); if(n=="cbrt") return realc(std::cbrt(x)); if(n=="acos") return realc(std::acos(x)); if(n=="asin") return realc(std::asin(x)); if(n=="atan") return realc(std::atan(x)); if(n=="exp2") return realc(std::exp2(x)); if(n=="sinh")return realc(std::sinh(x)); if(n=="cosh")return realc(std::cosh(x)); if(n=="tanh")return realc(std::tanh(x)); unsup("uf "+n); }
  TP t=mk(T_UF1,S_REAL,0,ufid(n),0,a); if(axdone.insert(t).second){ TP z=realc(0),o=realc(1);
    if(n=="sqrt"){ axiom(tor(trcmp(T_RLT,a,z),tand(trcmp(T_RLE,z,t),trcmp(T_REQ,treal(T_RMUL,t,t),a)))); }
    if(n=="exp") axiom(trcmp(T_RLT,z,t));
    if(n=="log1p"){ TP mo=realc(-1); axiom(tor(trcmp(T_RLE,a,mo),tand(teq(trcmp(T_RLT,z,a),trcmp(T_RLT,z,t)),teq(trcmp(T_RLT,a,z),trcmp(T_RLT,t,z))))); }
    if(n=="expm1"){ axiom(trcmp(T_RLT,realc(-1),t)); axiom(teq(trcmp(T_RLT,z,a),trcmp(T_RLT,z,t))); }
    if(n=="log"){ // sign relative to 1 (a>0)
      axiom(tor(trcmp(T_RLE,a,z),tand(teq(trcmp(T_RLT,o,a),trcmp(T_RLT,z,t)),teq(trcmp(T_RLT,a,o),trcmp(T_RLT,t,z))))); } }
  return t; }
static TP rpowi(TP a,int k){ if(k<0) return treal(T_RDIV,realc(1),rpowi(nonzero_guard(a),-k)); TP r=realc(1); for(int i=0;i<k;i++) r=treal(T_RMUL,r,a); return r; }
static TP uf2(const std::string&n,TP a,TP b){ if(isC(a)&&isC(b)){ double x=b2d(a->c),y=b2d(b->c); if(n=="pow") return realc(std::pow(x,y)); if(n=="fmod") return realc(std::fmod(x,y)); if(n=="atan2") return realc(std::atan2(x,y)); if(n=="hypot") return realc(std::hypot(x,y)); if(n=="copysign") return realc(std::copysign(x,y)); unsup("uf "+n); }
  if(n=="pow"&&isC(b)){ double y=b2d(b->c); if(y==std::floor(y)&&fabs(y)<=12) return rpowi(a,(int)y); if(y==0.5) return uf1("sqrt",a); }
  if(n=="pow"&&isC(a)&&b2d(a->c)==1) return realc(1);
  TP t=mk(T_UF2,S_REAL,0,ufid(n),0,a,b); if(axdone.insert(t).second&&n=="pow"){ axiom(tor(trcmp(T_RLE,a,realc(0)),trcmp(T_RLT,realc(0),t))); if(!isC(b)){ powexps.push_back(b); axiom(tor(tnot(trcmp(T_REQ,b,realc(0))),trcmp(T_REQ,t,realc(1)))); axiom(tor(tnot(trcmp(T_REQ,b,realc(1))),trcmp(T_REQ,t,a))); axiom(tor(tnot(trcmp(T_REQ,b,realc(2))),trcmp(T_REQ,t,treal(T_RMUL,a,a)))); } } return t; }
static Val binint(unsigned opc,Val a,Val b,unsigned w){
  if(!a.t&&!b.t){ bool ok; TOp op; switch(opc){ case Instruction::Add:op=T_ADD;break; case Instruction::Sub:op=T_SUB;break; case Instruction::Mul:op=T_MUL;break; case Instruction::UDiv:op=T_UDIV;break; case Instruction::SDiv:op=T_SDIV;break; case Instruction::URem:op=T_UREM;break; case Instruction::SRem:op=T_SREM;break; case Instruction::Shl:op=T_SHL;break; case Instruction::LShr:op=T_LSHR;break; case Instruction::AShr:op=T_ASHR;break; case Instruction::And:op=T_BAND;break; case Instruction::Or:op=T_BOR;break; case Instruction::Xor:op=T_BXOR;break; default: unsup("int op"); }
    if(w>64) unsup("wide integer"); u64 r=bvop(op,a.b,b.b,w,ok); if(!ok) endpath("trap","integer division by zero"+where()); return cv(r&maskw(w)); }
  if(w==1){ TP x=asbool(a),y=asbool(b); switch(opc){ case Instruction::And: return tv(tand(x,y)); case Instruction::Or: return tv(tor(x,y)); case Instruction::Xor: return tv(tnot(teq(x,y))); default: unsup("i1 op"); } }
  TP x=asbv(a,w),y=asbv(b,w); switch(opc){ case Instruction::Add:return tv(tbv(T_ADD,x,y)); case Instruction::Sub:return tv(tbv(T_SUB,x,y)); case Instruction::Mul:return tv(tbv(T_MUL,x,y));
    case Instruction::UDiv: case Instruction::URem: if(y->op==T_BVC&&y->c>1&&(y->c&(y->c-1))&&!isC(x)){ TP xs=subst(x); if(isC(xs)) return binint(opc,cv(xs->c),b,w);
        // division by a constant: fresh quotient q with q*c <= x < q*c+c
        static std::map<std::pair<TP,u64>,TP> qm; TP&q=qm[{xs,y->c}]; if(!q){ q=mkvar(VarInfo{"!q"+std::to_string(vars.size()),S_BV,(u8)w,4,0,0,1,0,0,nullptr}); TP m=tbv(T_MUL,q,y); axiom(tcmp(T_ULE,q,bvc(maskw(w)/y->c,w))); axiom(tcmp(T_ULE,m,xs)); axiom(tcmp(T_ULT,tbv(T_SUB,xs,m),y)); }
        return tv(opc==Instruction::UDiv? q: tbv(T_SUB,xs,tbv(T_MUL,q,y))); }
      [[fallthrough]];
    case Instruction::SDiv: case Instruction::SRem: { if(decide(teq(y,bvc(0,w)))) endpath("trap","integer division by zero"+where()); return tv(tbv(opc==Instruction::UDiv?T_UDIV:opc==Instruction::SDiv?T_SDIV:opc==Instruction::URem?T_UREM:T_SREM,x,subst(y))); }
    case Instruction::Shl:return tv(tbv(T_SHL,x,y)); case Instruction::LShr:return tv(tbv(T_LSHR,x,y)); case Instruction::AShr:return tv(tbv(T_ASHR,x,y)); case Instruction::And:return tv(tbv(T_BAND,x,y)); case Instruction::Or:return tv(tbv(T_BOR,x,y)); case Instruction::Xor:return tv(tbv(T_BXOR,x,y)); } unsup("int op"); }
static TP tofloat(TP a);
static Val binfp(unsigned opc,const Val&a,const Val&b,unsigned w){
  if(!a.t&&!b.t){ if(w==32){ float x=bf(a.b),y=bf(b.b),r; switch(opc){ case Instruction::FAdd:r=x+y;break; case Instruction::FSub:r=x-y;break; case Instruction::FMul:r=x*y;break; case Instruction::FDiv:r=x/y;break; default:r=fmodf(x,y);} return cv(fb(r)); }
    double x=asd(a),y=asd(b),r; switch(opc){ case Instruction::FAdd:r=x+y;break; case Instruction::FSub:r=x-y;break; case Instruction::FMul:r=x*y;break; case Instruction::FDiv:r=x/y;break; default:r=std::fmod(x,y);} return cv(d2b(r)); }
  if(w==32){ Val r=binfp(opc,a.t?a:tv(asreal(a,32)),b.t?b:tv(asreal(b,32)),64); return r.t? tv(tofloat(r.t)): cv(fb((float)asd(r))); }
  TP x=asreal(a,w),y=asreal(b,w); switch(opc){ case Instruction::FAdd:return tv(treal(T_RADD,x,y)); case Instruction::FSub:return tv(treal(T_RSUB,x,y)); case Instruction::FMul:return tv(treal(T_RMUL,x,y)); case Instruction::FDiv:{ if(y->op==T_REALC&&std::isinf(b2d(y->c))) return cv(0); y=nonzero_guard(y); return tv(treal(T_RDIV,x,y)); } } unsup("frem"); }
static Val icmp(unsigned p,const Val&a,const Val&b,unsigned w){
  if(!a.t&&!b.t){ u64 x=a.b&maskw(w),y=b.b&maskw(w); i64 sx=sextw(x,w),sy=sextw(y,w); bool r; switch(p){ case CmpInst::ICMP_EQ:r=x==y;break; case CmpInst::ICMP_NE:r=x!=y;break; case CmpInst::ICMP_UGT:r=x>y;break; case CmpInst::ICMP_UGE:r=x>=y;break; case CmpInst::ICMP_ULT:r=x<y;break; case CmpInst::ICMP_ULE:r=x<=y;break; case CmpInst::ICMP_SGT:r=sx>sy;break; case CmpInst::ICMP_SGE:r=sx>=sy;break; case CmpInst::ICMP_SLT:r=sx<sy;break; default:r=sx<=sy; } return cv(r); }
  if(w==1){ TP x=asbool(a),y=asbool(b); if(p==CmpInst::ICMP_EQ) return tv(teq(x,y)); if(p==CmpInst::ICMP_NE) return tv(tnot(teq(x,y))); TP bx=tite(x,bvc(1,8),bvc(0,8)),by=tite(y,bvc(1,8),bvc(0,8)); if(p==CmpInst::ICMP_UGT) return tv(tcmp(T_ULT,by,bx)); if(p==CmpInst::ICMP_ULT) return tv(tcmp(T_ULT,bx,by)); unsup("i1 cmp"); }
  if(a.t&&b.t&&a.t->sort==S_REAL&&b.t->sort==S_REAL&&a.t==b.t&&(p==CmpInst::ICMP_EQ||p==CmpInst::ICMP_NE)) return cv(p==CmpInst::ICMP_EQ);
  TP x=asbv(a,w),y=asbv(b,w); switch(p){ case CmpInst::ICMP_EQ:return tv(teq(x,y)); case CmpInst::ICMP_NE:return tv(tnot(teq(x,y))); case CmpInst::ICMP_UGT:return tv(tcmp(T_ULT,y,x)); case CmpInst::ICMP_UGE:return tv(tcmp(T_ULE,y,x)); case CmpInst::ICMP_ULT:return tv(tcmp(T_ULT,x,y)); case CmpInst::ICMP_ULE:return tv(tcmp(T_ULE,x,y)); case CmpInst::ICMP_SGT:return tv(tcmp(T_SLT,y,x)); case CmpInst::ICMP_SGE:return tv(tcmp(T_SLE,y,x)); case CmpInst::ICMP_SLT:return tv(tcmp(T_SLT,x,y)); default:return tv(tcmp(T_SLE,x,y)); } }
static Val fcmp(unsigned p,const Val&a,const Val&b,unsigned w){
  if(!a.t&&!b.t){ double x=w==32?bf(a.b):asd(a),y=w==32?bf(b.b):asd(b); bool un=std::isnan(x)||std::isnan(y),r; switch(p){ case CmpInst::FCMP_FALSE:r=false;break; case CmpInst::FCMP_OEQ:r=x==y;break; case CmpInst::FCMP_OGT:r=x>y;break; case CmpInst::FCMP_OGE:r=x>=y;break; case CmpInst::FCMP_OLT:r=x<y;break; case CmpInst::FCMP_OLE:r=x<=y;break; case CmpInst::FCMP_ONE:r=!un&&x!=y;break; case CmpInst::FCMP_ORD:r=!un;break; case CmpInst::FCMP_UNO:r=un;break; case CmpInst::FCMP_UEQ:r=un||x==y;break; case CmpInst::FCMP_UGT:r=un||x>y;break; case CmpInst::FCMP_UGE:r=un||x>=y;break; case CmpInst::FCMP_ULT:r=un||x<y;break; case CmpInst::FCMP_ULE:r=un||x<=y;break; case CmpInst::FCMP_UNE:r=un||x!=y;break; default:r=true; } return cv(r); }
  TP x=asreal(a,w),y=asreal(b,w); bool nan=(isC(x)&&std::isnan(b2d(x->c)))||(isC(y)&&std::isnan(b2d(y->c))); if(nan) return cv(p>=CmpInst::FCMP_UNO);
  switch(p){ case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return tv(trcmp(T_REQ,x,y)); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return tv(tnot(trcmp(T_REQ,x,y))); case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return tv(trcmp(T_RLT,y,x)); case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return tv(trcmp(T_RLE,y,x)); case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return tv(trcmp(T_RLT,x,y)); case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return tv(trcmp(T_RLE,x,y)); case CmpInst::FCMP_ORD: return cv(1); case CmpInst::FCMP_UNO: return cv(0); case CmpInst::FCMP_TRUE: return cv(1); default: return cv(0);} }
static Val loadty(u64 a,Type*t){ if(t->isIntegerTy()||t->isPointerTy()||t->isDoubleTy()||t->isFloatTy()){ unsigned n=DL->getTypeStoreSize(t).getFixedValue(); if(n>8) unsup("wide load"); if(n!=1&&n!=2&&n!=4&&n!=8) unsup("odd load"); Val v=loadscalar(a,n); if(t->isIntegerTy(1)){ if(v.t) return tv(asbool(v)); v.b&=1; } return v; }
  if(t->isX86_FP80Ty()) unsup("long double load");
  Val v; v.g=new Agg; if(auto*s=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) v.g->e.push_back(loadty(a+sl->getElementOffset(i).getFixedValue(),s->getElementType(i))); }
  else { Type*e= t->isArrayTy()? t->getArrayElementType(): cast<FixedVectorType>(t)->getElementType(); u64 n=t->isArrayTy()?t->getArrayNumElements():cast<FixedVectorType>(t)->getNumElements(); u64 es= t->isArrayTy()? DL->getTypeAllocSize(e).getFixedValue(): DL->getTypeStoreSize(e).getFixedValue(); for(u64 i=0;i<n;i++) v.g->e.push_back(loadty(a+i*es,e)); } return v; }
static void storety(u64 a,Type*t,const Val&v){ if(t->isIntegerTy()||t->isPointerTy()||t->isDoubleTy()||t->isFloatTy()){ unsigned n=DL->getTypeStoreSize(t).getFixedValue(); if(n>8) unsup("wide store"); if(v.t) storeterm(a,v.t,n); else storebits(a,v.b,n); return; }
  if(t->isX86_FP80Ty()) unsup("long double store");
  if(!v.g) unsup("aggregate store"); if(auto*s=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) storety(a+sl->getElementOffset(i).getFixedValue(),s->getElementType(i),v.g->e[i]); }
  else { Type*e= t->isArrayTy()? t->getArrayElementType(): cast<FixedVectorType>(t)->getElementType(); u64 es= t->isArrayTy()? DL->getTypeAllocSize(e).getFixedValue(): DL->getTypeStoreSize(e).getFixedValue(); for(u64 i=0;i<v.g->e.size();i++) storety(a+i*es,e,v.g->e[i]); } }
// rounding a symbolic real to float: a fresh value within 2^-24 relative (plus the subnormal step) of it
static TP tabs(TP a);
static TP tofloat(TP a){ static std::unordered_map<TP,TP> memo; auto it=memo.find(a); if(it!=memo.end()) return it->second; VarInfo v; v.name="float!"+std::to_string(memo.size()); v.sort=S_REAL; v.w=64; v.kind=4; v.lo=v.hi=v.scale=0; v.dlo=v.dhi=0; TP r=mkvar(v); TP e=treal(T_RADD,treal(T_RMUL,tabs(a),realc(std::ldexp(1,-24))),realc(std::ldexp(1,-149))); TP d=treal(T_RSUB,r,a); axiom(tand(trcmp(T_RLE,d,e),trcmp(T_RLE,trneg(e),d))); memo[a]=r; return r; }
static Val castop(unsigned opc,const Val&a,Type*from,Type*to){ unsigned w=bw(from),w2=bw(to);
  switch(opc){
  case Instruction::Trunc: if(a.t){ if(w2==1) return tv(a.t->sort==S_BOOL?a.t:teq(textr(asbv(a,w),0,1),bvc(1,1))); return tv(textr(asbv(a,w),0,w2)); } return cv(a.b&maskw(w2));
  case Instruction::ZExt: if(a.t) return tv(a.t->sort==S_BOOL? tite(a.t,bvc(1,w2),bvc(0,w2)): tzext(asbv(a,w),w2)); return cv(a.b&maskw(w));
  case Instruction::SExt: if(a.t) return tv(a.t->sort==S_BOOL? tite(a.t,bvc(maskw(w2),w2),bvc(0,w2)): tsext(asbv(a,w),w2)); return cv((u64)sextw(a.b,w)&maskw(w2));
  case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: if(from->isVectorTy()!=to->isVectorTy()) unsup("vector bitcast"); if(opc==Instruction::PtrToInt&&w2<64&&!a.t) return cv(a.b&maskw(w2)); return a;
  case Instruction::SIToFP: case Instruction::UIToFP:{ u64 v=conc(a); double d= opc==Instruction::SIToFP? (double)sextw(v,w): (double)(v&maskw(w)); if(to->isFloatTy()) return cv(fb(opc==Instruction::SIToFP?(float)sextw(v,w):(float)(v&maskw(w)))); return cv(d2b(d)); }
  case Instruction::FPToSI: case Instruction::FPToUI: if(a.t) unsup("symbolic real to int"); { double d=from->isFloatTy()?bf(a.b):asd(a); if(opc==Instruction::FPToSI) return cv((u64)(i64)d&maskw(w2)); return cv((d<0?(u64)(i64)d:(u64)d)&maskw(w2)); }
  case Instruction::FPExt: if(a.t) return a; if(from->isFloatTy()&&to->isDoubleTy()) return cv(d2b(bf(a.b))); return a;
  case Instruction::FPTrunc: if(a.t){ if(to->isFloatTy()) return tv(tofloat(a.t)); return a; } if(to->isFloatTy()) return cv(fb((float)asd(a))); return a; }
  unsup("cast"); }
static Type* elty(Type*t){ return cast<FixedVectorType>(t)->getElementType(); }
static Val vecmap2(const Val&a,const Val&b,const std::function<Val(const Val&,const Val&)>&f){ Val v; v.g=new Agg; for(size_t i=0;i<a.g->e.size();i++) v.g->e.push_back(f(a.g->e[i],b.g->e[i])); return v; }
static Val select(const Val&c,const Val&a,const Val&b,Type*t){
  if(!c.t) return (c.b&1)? a: b; TP ct=subst(asbool(c)); if(ct->op==T_BOOLC) return ct->c? a: b;
  if(t->isPointerTy()||a.g||b.g||t->isAggregateType()) return decide(ct)? a: b;
  if(!a.t&&!b.t&&a.b==b.b) return a;
  if(t->isFloatingPointTy()) return tv(tite(ct,asreal(a,bw(t)),asreal(b,bw(t)))); 
  if((a.t&&a.t->sort==S_REAL)||(b.t&&b.t->sort==S_REAL)) return decide(ct)? a: b;
  unsigned w=bw(t); if(w==1) return tv(tite(ct,asbool(a),asbool(b))); return tv(tite(ct,asbv(a,w),asbv(b,w))); }

static std::vector<Val> argv_; 
static void docall(Frame&f,DInst&x);
static void retval(Val v,bool has){ // return to caller
  popframe(); if(stk.empty()) endpath("ok",""); Frame&f=stk.back(); DInst*c=f.call; f.call=nullptr; if(has&&c->dst>=0) f.r[c->dst]=v; if(c->s[0]) gobb(f,c->s[0]); }
static void pushframe(Function*F,std::vector<Val>&args){ DFn*d=decode(F); static std::unordered_set<DFn*> sd; if(sd.insert(d).second){ decodesw(d); fnseen.insert(F->getName().str()); } else if(d->F) { /* seen */ }
  if(stk.size()>2000) endpath("stack","call depth");
  stk.emplace_back(); Frame&f=stk.back(); f.f=d; f.r.resize(d->nslots); size_t n=F->arg_size(); for(size_t i=0;i<n&&i<args.size();i++){ f.r[i]=args[i]; if(F->hasParamAttribute(i,Attribute::ByVal)){ Type*t=F->getParamByValType(i); u64 sz=DL->getTypeAllocSize(t).getFixedValue(); Obj*o=newobj(sz,O_STACK,"byval"); f.al.push_back(o); memcopy(o->base,args[i].b,sz); f.r[i]=cv(o->base); } } f.bb=d->bbs[0]; f.ip=0; f.prev=nullptr; }
static void run(){
  for(;;){ try{ for(;;){
    Frame&f=stk.back(); DInst&x=f.bb->in[f.ip++]; st.steps++; if(++pathsteps>opt.maxsteps) endpath("timeout","step budget"); if((pathsteps&0xffff)==0) checkwall();
    auto V=[&](int i)->const Val&{ const Opd&o=x.o[i]; return o.slot>=0? f.r[o.slot]: o.c; };
    switch(x.opc){
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor:
      if(x.ty->isVectorTy()){ unsigned w=bw(elty(x.ty)); f.r[x.dst]=vecmap2(V(0),V(1),[&](const Val&a,const Val&b){ return binint(x.opc,a,b,w); }); break; }
      { Val r=binint(x.opc,V(0),V(1),x.w); stk.back().r[x.dst]=r; } break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
      if(x.ty->isX86_FP80Ty()) unsup("long double arithmetic");
      if(x.ty->isVectorTy()){ unsigned w=bw(elty(x.ty)); f.r[x.dst]=vecmap2(V(0),V(1),[&](const Val&a,const Val&b){ return binfp(x.opc,a,b,w); }); break; }
      { Val r=binfp(x.opc,V(0),V(1),x.w); stk.back().r[x.dst]=r; } break;
    case Instruction::FNeg: if(x.ty->isVectorTy()){ bool sp=x.ty->getScalarType()->isFloatTy(); Val v; v.g=new Agg; for(auto&e:V(0).g->e) v.g->e.push_back(e.t? tv(trneg(e.t)): cv(e.b^(sp?0x80000000ull:1ull<<63))); f.r[x.dst]=v; break; } { const Val&a=V(0); f.r[x.dst]= a.t? tv(trneg(a.t)): cv(x.w==32? a.b^0x80000000ull: a.b^(1ull<<63)); } break;
    case Instruction::ICmp: if(x.I->getOperand(0)->getType()->isVectorTy()){ unsigned w=bw(elty(x.I->getOperand(0)->getType())); f.r[x.dst]=vecmap2(V(0),V(1),[&](const Val&a,const Val&b){ return icmp(x.pred,a,b,w); }); break; } f.r[x.dst]=icmp(x.pred,V(0),V(1),x.w2); break;
    case Instruction::FCmp: if(x.I->getOperand(0)->getType()->isVectorTy()){ unsigned w=bw(elty(x.I->getOperand(0)->getType())); f.r[x.dst]=vecmap2(V(0),V(1),[&](const Val&a,const Val&b){ return fcmp(x.pred,a,b,w); }); break; } f.r[x.dst]=fcmp(x.pred,V(0),V(1),x.w2); break;
    case Instruction::Select: if(x.I->getOperand(0)->getType()->isVectorTy()){ Val v; v.g=new Agg; Val c=V(0),a=V(1),b=V(2); for(size_t i=0;i<c.g->e.size();i++) v.g->e.push_back(select(c.g->e[i],a.g->e[i],b.g->e[i],elty(x.ty))); stk.back().r[x.dst]=v; break; } { Val r=select(V(0),V(1),V(2),x.ty); stk.back().r[x.dst]=r; } break;
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::AddrSpaceCast:
      if(x.ty->isVectorTy()&&x.I->getOperand(0)->getType()->isVectorTy()&&x.opc!=Instruction::BitCast){ Val v; v.g=new Agg; Val a=V(0); for(auto&e:a.g->e) v.g->e.push_back(castop(x.opc,e,elty(x.I->getOperand(0)->getType()),elty(x.ty))); stk.back().r[x.dst]=v; break; }
      { Val r=castop(x.opc,V(0),x.I->getOperand(0)->getType(),x.ty); stk.back().r[x.dst]=r; } break;
    case Instruction::Freeze: f.r[x.dst]=V(0); break;
    case Instruction::GetElementPtr:{ const Val&p=V(0); if(!p.t){ u64 a=p.b+x.gepc; bool sym=false; for(auto&g:x.gep){ const Val&iv=V(g.first); if(iv.t){ sym=true; break; } unsigned w=x.o[g.first].c.b; a+=(u64)(sextw(iv.b,w)*g.second); } if(!sym){ f.r[x.dst]=cv(a); break; } }
      TP t=tbv(T_ADD,asbv(p,64),bvc(x.gepc,64)); for(auto&g:x.gep){ const Val&iv=V(g.first); unsigned w=x.o[g.first].c.b; TP it=asbv(iv,w); it= w<64? tsext(it,64): it; t=tbv(T_ADD,t,tbv(T_MUL,it,bvc(g.second,64))); } f.r[x.dst]=tv(t); break; }
    case Instruction::Alloca:{ u64 n=conc(V(0)); u64 sz=DL->getTypeAllocSize(x.ty).getFixedValue()*n; Obj*o=newobj(sz,O_STACK,"stack variable"); Frame&g=stk.back(); g.al.push_back(o); g.r[x.dst]=cv(o->base); break; }
    case Instruction::Load:{ u64 a=concaddr(V(0)); Val r; if(phase&&cast<LoadInst>(x.I)->isAtomic()){ atomicacc=true; } if(x.w&&!x.ty->isX86_FP80Ty()&&x.w>=8&&x.w<=64&&(x.w&7)==0){ unsigned n=x.w/8; if(n==1||n==2||n==4||n==8) r=loadscalar(a,n); else r=loadty(a,x.ty); } else r=loadty(a,x.ty); stk.back().r[x.dst]=r; atomicacc=false; break; }
    case Instruction::Store:{ u64 a=concaddr(V(1)); if(phase&&cast<StoreInst>(x.I)->isAtomic()) atomicacc=true; storety(a,x.ty,V(0)); atomicacc=false; break; }
    case Instruction::Br: if(x.o.empty()) gobb(f,x.s[0]); else { const Val&c=V(0); bool t= c.t? decide(asbool(c)): (c.b&1); gobb(stk.back(),x.s[t?0:1]); } break;
    case Instruction::Switch:{ auto&sm=swmap[cast<SwitchInst>(x.I)]; const Val&c=V(0); if(!c.t){ auto it=sm.first.find(c.b&maskw(x.w)); gobb(f,it==sm.first.end()?sm.second:it->second); break; }
      TP t=subst(asbv(c,x.w)); if(isC(t)){ auto it=sm.first.find(t->c); gobb(f,it==sm.first.end()?sm.second:it->second); break; }
      DBB*dst=nullptr; for(auto&p:sm.first){ if(p.second==sm.second) continue; if(decide(teq(t,bvc(p.first,x.w)))){ dst=p.second; break; } } gobb(stk.back(),dst?dst:sm.second); break; }
    case Instruction::Ret: { bool has=!x.o.empty(); Val v; if(has) v=V(0); retval(v,has); break; }
    case Instruction::Unreachable: endpath("unreachable","unreachable reached"+where());
    case Instruction::ExtractValue:{ auto*e=cast<ExtractValueInst>(x.I); const Val*v=&V(0); for(unsigned i:e->indices()){ if(!v->g) unsup("extractvalue"); v=&v->g->e[i]; } Val r=*v; f.r[x.dst]=r; break; }
    case Instruction::InsertValue:{ auto*e=cast<InsertValueInst>(x.I); Val r; std::function<Val(const Val&,Type*,unsigned)> ins=[&](const Val&o,Type*t,unsigned k)->Val{ if(k==e->getNumIndices()) return V(1); Val n; n.g=new Agg; if(o.g) n.g->e=o.g->e; else n.g->e.resize(t->isStructTy()?t->getStructNumElements():t->getArrayNumElements()); unsigned ix=e->getIndices()[k]; Type*et= t->isStructTy()? t->getStructElementType(ix): t->getArrayElementType(); Val sub=n.g->e[ix]; n.g->e[ix]=ins(sub,et,k+1); return n; }; r=ins(V(0),x.ty,0); f.r[x.dst]=r; break; }
    case Instruction::ExtractElement:{ u64 i=conc(V(1)); Val a=V(0); if(!a.g||i>=a.g->e.size()) unsup("extractelement"); stk.back().r[x.dst]=a.g->e[i]; break; }
    case Instruction::InsertElement:{ u64 i=conc(V(2)); Val n; n.g=new Agg; const Val&o=V(0); if(o.g) n.g->e=o.g->e; else n.g->e.resize(cast<FixedVectorType>(x.ty)->getNumElements()); n.g->e.at(i)=V(1); stk.back().r[x.dst]=n; break; }
    case Instruction::ShuffleVector:{ auto*s=cast<ShuffleVectorInst>(x.I); Val n; n.g=new Agg; const Val&a=V(0),&b=V(1); size_t m=cast<FixedVectorType>(s->getOperand(0)->getType())->getNumElements(); for(int k:s->getShuffleMask()){ if(k<0) n.g->e.push_back(Val()); else if((size_t)k<m) n.g->e.push_back(a.g?a.g->e[k]:Val()); else n.g->e.push_back(b.g?b.g->e[k-m]:Val()); } f.r[x.dst]=n; break; }
    case Instruction::AtomicRMW:{ atomicacc=true; auto*a=cast<AtomicRMWInst>(x.I); u64 p=conc(V(0)); unsigned n=x.w/8; Val old=loadscalar(p,n); Val nv; switch(a->getOperation()){ case AtomicRMWInst::Add: nv=binint(Instruction::Add,old,V(1),x.w); break; case AtomicRMWInst::Sub: nv=binint(Instruction::Sub,old,V(1),x.w); break; case AtomicRMWInst::Xchg: nv=V(1); break; default: unsup("atomicrmw"); } if(nv.t) storeterm(p,nv.t,n); else storebits(p,nv.b,n); stk.back().r[x.dst]=old; atomicacc=false; break; }
    case Instruction::AtomicCmpXchg:{ atomicacc=true; u64 p=conc(V(0)); Type*t=x.I->getOperand(1)->getType(); unsigned n=bw(t)/8; Val old=loadscalar(p,n); Val c=icmp(CmpInst::ICMP_EQ,old,V(1),n*8); bool eq= c.t? decide(asbool(c)): c.b; if(eq){ const Val&nv=stk.back().r.empty()?V(2):V(2); if(nv.t) storeterm(p,nv.t,n); else storebits(p,nv.b,n); } Val r; r.g=new Agg; r.g->e={old,cv(eq)}; stk.back().r[x.dst]=r; atomicacc=false; break; }
    case Instruction::Fence: break;
    case Instruction::Resume:{ Val v=V(0); u64 e=v.g->e[0].b; popframe(); if(stk.empty()) uncaught(excti[e]); unwind(e,true); break; }
    case Instruction::LandingPad: unsup("stray landingpad");
    case Instruction::Call: case Instruction::Invoke: docall(f,x); break;
    default: unsup(std::string("instruction ")+x.I->getOpcodeName()); }
  } } catch(u64 exc){ // C++ exception raised by a model
    unwind(exc,false); } } }
static std::string cstr(u64 a){ std::string s; for(;;){ Val v=loadscalar(a++,1); if(v.t) unsup("symbolic C string"); if(!v.b) return s; s+=(char)v.b; if(s.size()>4096) unsup("long string"); } }
static void docall(Frame&f,DInst&x){ size_t n=x.o.size()-1; std::vector<Val> args(n); for(size_t i=0;i<n;i++) args[i]= x.o[i].slot>=0? f.r[x.o[i].slot]: x.o[i].c;
  Function*F=x.callee; const Ext*e=x.ext; if(!F){ const Opd&o=x.o[n]; u64 a=conc(o.slot>=0? f.r[o.slot]: o.c); auto it=faddr.find(a); if(it==faddr.end()){ if(auto*ia=dyn_cast<InlineAsm>(cast<CallBase>(x.I)->getCalledOperand())){ if(ia->getAsmString().empty()) return; unsup("inline asm"); } endpath("memory","call through invalid pointer"+where()); } F=it->second; e=findext(F); }
  if(e){ stk.back().call=&x; Val r=(*e)(args,x); Frame&g=stk.back(); g.call=nullptr; if(x.dst>=0) g.r[x.dst]=r; if(x.s[0]) gobb(g,x.s[0]); return; }
  if(F->isDeclaration()) unsup("external function "+llvm::demangle(F->getName().str()));
  stk.back().call=&x; pushframe(F,args); }
static Obj* heapalloc(u64 n,u8 how){ if(n>(1ull<<32)) endpath("memory","allocation of "+std::to_string(n)+" bytes"+where()); Obj*o=newobj(n,O_HEAP,"heap block"); o->how=how; return o; }
static u64 allocsize(const Val&v){ TP t=v.t?subst(v.t):nullptr; if(!t) return v.b; if(isC(t)) return t->c; if(decide(tcmp(T_ULT,bvc(1ull<<32,64),t))) endpath("bigalloc","allocation beyond the modelled 4 GiB"+where()); return pin(t); }
static void heapfree(u64 a,u8 how){ if(!a) return; Obj*o=findobj(a); if(!o||o->kind!=O_HEAP||o->base!=a) endpath("memory","free of invalid pointer"+where()); if(!o->alive) endpath("memory","double free"+where()); if(phase) record(o,0,o->size,true); o->alive=false; o->d.clear(); o->d.shrink_to_fit(); o->sym.clear(); }
struct Img{ std::vector<u8> d; std::map<u64,Slot> sym; bool alive,lazy; }; typedef std::map<Obj*,Img> Image; static Image startimg,curimg,phimg; static u64 startmark=0;
static bool inimg(Obj*o,u64 mark,bool stack){ return !o->ro&&((o->kind==O_GLOBAL&&o->gv)||(o->kind==O_HEAP&&o->base<mark)||(stack&&o->kind==O_STACK&&o->base<mark)); }
static void saveimg(Image&m,u64 mark,bool stack=false){ m.clear(); for(auto&x:mem){ Obj*o=x.second; if(inimg(o,mark,stack)) m[o]=Img{o->d,o->sym,o->alive,o->lazy}; } }
static void restoreimg(Image&m,u64 mark,bool stack=false){ for(auto&x:mem){ Obj*o=x.second; if(!inimg(o,mark,stack)) continue; auto it=m.find(o); if(it!=m.end()){ o->d=it->second.d; o->sym=it->second.sym; o->alive=it->second.alive; o->lazy=it->second.lazy; } else if(o->kind==O_GLOBAL){ std::fill(o->d.begin(),o->d.end(),0); o->sym.clear(); o->lazy=true; } } }
// thread_local variables: every thread starts with its own, initial ones
static Image tlsimg;
static bool istls(Obj*o){ return o->kind==O_GLOBAL&&o->gv&&o->gv->isThreadLocal(); }
static void tlsreset(){ for(auto&x:mem) if(istls(x.second)){ Obj*o=x.second; std::fill(o->d.begin(),o->d.end(),0); o->sym.clear(); o->lazy=true; } }
static void tlssave(){ tlsimg.clear(); for(auto&x:mem) if(istls(x.second)){ Obj*o=x.second; tlsimg[o]=Img{o->d,o->sym,o->alive,o->lazy}; } }
static void tlsrestore(){ tlsreset(); for(auto&x:tlsimg){ Obj*o=x.first; o->d=x.second.d; o->sym=x.second.sym; o->lazy=x.second.lazy; } }
static TP boundedvar(const std::string&n,Sort s,int kind){ for(auto&v:vars) if(v.name==n) unsup("duplicate input name "+n); VarInfo vi{n,s,64,kind,0,0,1,0,0,nullptr}; return mkvar(vi); }
static double parsenum(const std::string&s){ size_t p=s.find('/'); std::string a=s; if(!s.empty()&&s[0]=='('){ } if(p==std::string::npos) return strtod(a.c_str(),0); long double x=strtold(s.substr(0,p).c_str(),0),y=strtold(s.substr(p+1).c_str(),0); return (double)(x/y); }
static void concvar(const std::string&n){ VarInfo vi{n,S_REAL,64,3,0,0,1,0,0,nullptr}; vars.push_back(vi); }

static TP tabs(TP a){ if(isC(a)) return realc(fabs(b2d(a->c))); return tite(trcmp(T_RLT,a,realc(0)),trneg(a),a); }
// exact rational-function normal form over non-arithmetic subterms (atoms): decides polynomial identities and
// hands z3 the expanded residual otherwise.  Denominators are non-zero on the path (checked at the division).
typedef std::vector<std::pair<u32,u32>> Mono; typedef std::map<Mono,mpq_class> Poly; struct TooBig{}; struct RF{ Poly n,d; };
static u64 polywork; static void chkp(const Poly&p){ if(p.size()>30000||polywork>30000000) throw TooBig(); }
static Poly padd(const Poly&a,const Poly&b,int sg){ Poly r=a; for(auto&x:b){ polywork++; auto it=r.emplace(x.first,mpq_class(0)).first; if(sg>0) it->second+=x.second; else it->second-=x.second; if(it->second==0) r.erase(it); } chkp(r); return r; }
static Mono mmul(const Mono&a,const Mono&b){ Mono r; size_t i=0,j=0; while(i<a.size()||j<b.size()){ if(j==b.size()||(i<a.size()&&a[i].first<b[j].first)) r.push_back(a[i++]); else if(i==a.size()||b[j].first<a[i].first) r.push_back(b[j++]); else { r.push_back({a[i].first,a[i].second+b[j].second}); i++; j++; } } return r; }
static Poly pmul(const Poly&a,const Poly&b){ Poly r; for(auto&x:a) for(auto&y:b){ polywork++; auto it=r.emplace(mmul(x.first,y.first),mpq_class(0)).first; it->second+=x.second*y.second; if(it->second==0) r.erase(it); if((polywork&1023)==0) chkp(r); } chkp(r); return r; }
static const Poly& pone(){ static Poly p{{Mono(),mpq_class(1)}}; return p; }
static const RF& ratform(TP t,std::unordered_map<TP,RF>&m){ auto it=m.find(t); if(it!=m.end()) return it->second; RF r; r.d=pone();
  // explicit post-order: recurrences build deep terms
  std::vector<TP> stk{t}; auto arith=[](TP x){ return x->op==T_RADD||x->op==T_RSUB||x->op==T_RMUL||x->op==T_RDIV||x->op==T_RNEG; };
  while(!stk.empty()){ TP x=stk.back(); if(m.count(x)){ stk.pop_back(); continue; } if(arith(x)){ bool rdy=true; for(auto y:x->a) if(y&&!m.count(y)){ stk.push_back(y); rdy=false; } if(!rdy) continue; }
    RF q; q.d=pone(); if(x->op==T_REALC){ double v=b2d(x->c); if(!std::isfinite(v)) throw TooBig(); if(v!=0) q.n[Mono()]=mpq_class(v); }
    else if(!arith(x)) q.n[Mono{{x->id,1}}]=1;
    else { const RF&a=m[x->a[0]]; if(x->op==T_RNEG){ q.n=padd(Poly(),a.n,-1); q.d=a.d; } else { const RF&b=m[x->a[1]];
      if(x->op==T_RADD||x->op==T_RSUB){ int sg=x->op==T_RADD?1:-1; if(a.d==b.d){ q.n=padd(a.n,b.n,sg); q.d=a.d; } else { q.n=padd(pmul(a.n,b.d),pmul(b.n,a.d),sg); q.d=pmul(a.d,b.d); } }
      else if(x->op==T_RMUL){ if(a.n==b.d){ q.n=b.n; q.d=a.d; } else if(b.n==a.d){ q.n=a.n; q.d=b.d; } else { q.n=pmul(a.n,b.n); q.d=pmul(a.d,b.d); } }
      else { if(b.n.empty()) throw TooBig(); if(b.n.size()==1&&b.n.begin()->first.empty()&&b.d==pone()){ q.n=a.n; mpq_class c=b.n.begin()->second; for(auto&y:q.n) y.second/=c; q.d=a.d; } else if(a.d==b.d){ q.n=a.n; q.d=b.n; } else { q.n=pmul(a.n,b.d); q.d=pmul(a.d,b.n); } } } }
    m[x]=q; stk.pop_back(); }
  return m[t]; }
// residual numerator of a-b; returns false when out of limits
static bool residual(TP a,TP b,Poly&r){ polywork=0; double x=now(); bool ok=true; try{ std::unordered_map<TP,RF> m; RF p=ratform(a,m),q=ratform(b,m); r= p.d==q.d? padd(p.n,q.n,-1): padd(pmul(p.n,q.d),pmul(q.n,p.d),-1); }catch(TooBig&){ ok=false; } st.solver_s+=now()-x; return ok; }
// value of a term at one pseudo-random point (atoms hashed): different values rule an identity out
static std::unordered_map<TP,double> fpmemo;
static double fingerprint(TP t){ auto f=fpmemo.find(t); if(f!=fpmemo.end()) return f->second; std::vector<TP> stk{t}; auto arith=[](TP x){ return x->op==T_RADD||x->op==T_RSUB||x->op==T_RMUL||x->op==T_RDIV||x->op==T_RNEG; };
  while(!stk.empty()){ TP x=stk.back(); if(fpmemo.count(x)){ stk.pop_back(); continue; } if(arith(x)){ bool rdy=true; for(auto y:x->a) if(y&&!fpmemo.count(y)){ stk.push_back(y); rdy=false; } if(!rdy) continue; }
    double v; if(x->op==T_REALC) v=b2d(x->c); else if(!arith(x)){ u64 h=(x->id+1)*0x9E3779B97F4A7C15ull; h^=h>>29; h*=0xBF58476D1CE4E5B9ull; h^=h>>32; v=0.5+double(h>>11)/9007199254740992.0; } else { double a=fpmemo[x->a[0]],b=x->op==T_RNEG?0:fpmemo[x->a[1]]; v= x->op==T_RADD? a+b: x->op==T_RSUB? a-b: x->op==T_RMUL? a*b: x->op==T_RDIV? a/b: -a; } fpmemo[x]=v; stk.pop_back(); }
  return fpmemo[t]; }
static bool polyeq(TP a,TP b){ if(a==b) return true; Poly r; return residual(a,b,r)&&r.empty(); }
static void closeterm(TP a,TP b,double tol,const std::string&id){ if(enough(id)){ st.skipped++; return; } a=subst(a); b=subst(b); if(polyeq(a,b)){ st.asserts++; st.dis_syn++; return; }
  if(isC(a)&&isC(b)){ double d=fabs(b2d(a->c)-b2d(b->c)); assertterm(boolc(d<=tol),id); return; }
  if(tol==0){ Poly r; if(residual(a,b,r)&&r.size()>5){ st.asserts++; TP nc=tnot(trcmp(T_REQ,a,b)); z3::model*sv=curmodel?new z3::model(*curmodel):nullptr; bool h=pinnedcex(nc,id); delete curmodel; curmodel=sv; if(h){ countviol(id); return; } st.asserts--; } }
  if((a->op==T_REALC&&!std::isfinite(b2d(a->c)))||(b->op==T_REALC&&!std::isfinite(b2d(b->c)))){ assertterm(boolc(false),id); return; }
  auto within=[&](double t){ TP d=treal(T_RSUB,a,b); return tand(trcmp(T_RLE,d,realc(t)),trcmp(T_RLE,realc(-t),d)); };
  double big= tol<1e-6? 1e-3: tol*64; assertterm(within(tol),id,tnot(within(big))); }
static std::string emitsexp(TP t,std::map<TP,int>&ids,std::string&defs){ // DAG as list of nodes
  auto it=ids.find(t); if(it!=ids.end()) return std::to_string(it->second); std::string a; for(auto y:t->a) if(y) a+=","+emitsexp(y,ids,defs); int k=ids.size(); ids[t]=k; std::string nm=TN[t->op]; std::string leaf="null"; if(t->op==T_VAR) leaf=jesc(vars[t->aux].name); else if(t->op==T_REALC){ char b[64]; snprintf(b,64,"\"%a\"",b2d(t->c)); leaf=b; } else if(t->op==T_UF1||t->op==T_UF2) leaf=jesc(ufn[t->aux]); else if(isC(t)) leaf="\""+std::to_string((unsigned long long)t->c)+"\""; defs+=(defs.empty()?"":",")+std::string("[")+jesc(nm)+","+leaf+a+"]"; return std::to_string(k); }
// derivative of a real term with respect to a variable
static TP tderiv(TP t,TP x,std::unordered_map<TP,TP>&m){ if(t==x) return realc(1); auto it=m.find(t); if(it!=m.end()) return it->second; TP r=nullptr; auto D=[&](int i){ return tderiv(t->a[i],x,m); };
  auto A=[&](TP a,TP b){ return treal(T_RADD,a,b); }; auto B=[&](TP a,TP b){ return treal(T_RSUB,a,b); }; auto X=[&](TP a,TP b){ return treal(T_RMUL,a,b); }; auto Q=[&](TP a,TP b){ return treal(T_RDIV,a,b); };
  switch(t->op){ case T_VAR: case T_REALC: r=realc(0); break; case T_RADD: r=A(D(0),D(1)); break; case T_RSUB: r=B(D(0),D(1)); break; case T_RNEG: r=trneg(D(0)); break;
   case T_RMUL: r=A(X(D(0),t->a[1]),X(t->a[0],D(1))); break; case T_RDIV: { TP d1=D(1); r=isRC(d1,0)? Q(D(0),t->a[1]): Q(B(X(D(0),t->a[1]),X(t->a[0],d1)),X(t->a[1],t->a[1])); break; }
   case T_ITE: r=tite(t->a[0],D(1),D(2)); break;
   case T_UF1: { TP d=D(0); if(isRC(d,0)){ r=d; break; } const std::string&n=ufn[t->aux]; TP a=t->a[0]; if(n=="log") r=Q(d,a); else if(n=="exp") r=X(d,t); else if(n=="log1p") r=Q(d,A(realc(1),a)); else if(n=="expm1") r=X(d,A(t,realc(1))); else if(n=="sqrt") r=Q(d,X(realc(2),t)); else unsup("derivative of "+n); break; }
   default: unsup(std::string("derivative of ")+TN[t->op]); }
  return m[t]=r; }
static void s2mom(const double*P,const double*W,u64 N,u64 L,double*out){ // out[l*l+l+m]
  std::vector<double> er(N,1),ei(N,0),pmm(N,sqrt(1/(4*M_PI))),p0,p1,p(N); for(u64 k=0;k<(L+1)*(L+1);k++) out[k]=0;
  for(u64 m=0;m<=L;m++){ if(m) for(u64 i=0;i<N;i++){ double x=P[3*i],y=P[3*i+1],a=er[i]*x-ei[i]*y,b=er[i]*y+ei[i]*x; er[i]=a; ei[i]=b; pmm[i]*=-sqrt((2.0*m+1)/(2.0*m)); }
    p0=pmm; for(u64 l=m;l<=L;l++){ if(l==m) p=p0; else if(l==m+1){ p1.resize(N); for(u64 i=0;i<N;i++) p1[i]=sqrt(2.0*m+3)*P[3*i+2]*p0[i]; p=p1; } else { double a=sqrt((4.0*l*l-1)/((double)l*l-(double)m*m)), b=sqrt(((2.0*l+1)*(l-1.0-m)*(l-1.0+m))/((2.0*l-3)*((double)l*l-(double)m*m))); for(u64 i=0;i<N;i++) p[i]=a*P[3*i+2]*p1[i]-b*p0[i]; p0=p1; p1=p; }
      double sr=0,si=0,cr=0,ci=0; for(u64 i=0;i<N;i++){ double t=W[i]*p[i]; double a=t*er[i]-cr,s=sr+a; cr=(s-sr)-a; sr=s; a=t*ei[i]-ci; s=si+a; ci=(s-si)-a; si=s; } double f=m?sqrt(2.0):1; out[l*l+l+m]=f*sr; if(m) out[l*l+l-m]=f*si; } } }
static bool matched(std::vector<std::vector<int>>&adj,int n,std::vector<int>&mt){ mt.assign(n,-1); std::function<bool(int,std::vector<char>&)> tr=[&](int u,std::vector<char>&vis){ for(int v:adj[u]) if(!vis[v]){ vis[v]=1; if(mt[v]<0||tr(mt[v],vis)){ mt[v]=u; return true; } } return false; }; for(int u=0;u<n;u++){ std::vector<char> vis(n,0); if(!tr(u,vis)) return false; } return true; }

static void setupexts(){
  auto& E=exts;
  E["vp_int"]=[](std::vector<Val>&a,DInst&){ std::string n=cstr(a[0].b); if(opt.concrete){ concvar(n); return cv((u64)strtoll(concr[n].c_str(),0,10)); } TP t=boundedvar(n,S_BV,0); i64 lo=(i64)a[1].b,hi=(i64)a[2].b; auto&v=vars.back(); v.lo=lo; v.hi=hi; if(lo==hi) { addpc(teq(t,bvc(lo,64))); return cv(lo); } addpc(tcmp(T_SLE,bvc(lo,64),t)); addpc(tcmp(T_SLE,t,bvc(hi,64))); return tv(t); };
  E["vp_u64"]=[](std::vector<Val>&a,DInst&){ std::string n=cstr(a[0].b); if(opt.concrete){ concvar(n); return cv(strtoull(concr[n].c_str(),0,10)); } return tv(boundedvar(n,S_BV,0)); };
  E["vp_byte"]=[](std::vector<Val>&a,DInst&){ std::string n=cstr(a[0].b); if(opt.concrete){ concvar(n); return cv(strtoull(concr[n].c_str(),0,10)&255); } VarInfo vi{n,S_BV,8,1,0,0,1,0,0,nullptr}; return tv(mkvar(vi)); };
  E["vp_real"]=[](std::vector<Val>&a,DInst&){ std::string n=cstr(a[0].b); if(opt.concrete){ concvar(n); return cv(d2b(parsenum(concr[n]))); } TP t=boundedvar(n,S_REAL,1); vars.back().dlo=asd(a[1]); vars.back().dhi=asd(a[2]); addpc(trcmp(T_RLE,realc(asd(a[1])),t)); addpc(trcmp(T_RLE,t,realc(asd(a[2])))); return tv(t); };
  E["vp_lat"]=[](std::vector<Val>&a,DInst&){ std::string n=cstr(a[0].b); if(opt.concrete){ concvar(n); return cv(d2b(parsenum(concr[n]))); } TP t=boundedvar(n,S_REAL,2); vars.back().scale=(i64)a[3].b; double s=(double)(i64)a[3].b; addpc(trcmp(T_RLE,realc(s*(i64)a[1].b),t)); addpc(trcmp(T_RLE,t,realc(s*(i64)a[2].b))); return tv(t); };
  E["vp_assume"]=[](std::vector<Val>&a,DInst&){ TP c=subst(asbool(a[0])); if(c->op==T_BOOLC){ if(!c->c) endpath("infeasible","assume"); return Val(); } int me=modeleval(c); if(me!=1){ Res r=zcheck(c,true); if(r==UNSAT) endpath("infeasible","assume"); } addpc(c); return Val(); };
  E["vp_assert"]=[](std::vector<Val>&a,DInst&){ std::string id=cstr(a[1].b); assertterm(asbool(a[0]),id); return Val(); };
  E["vp_fail"]=[](std::vector<Val>&a,DInst&){ std::string id=cstr(a[0].b); assertterm(boolc(false),id); endpath("violated",id); return Val(); };
  E["vp_close"]=[](std::vector<Val>&a,DInst&){ std::string id=cstr(a[3].b); closeterm(asreal(a[0]),asreal(a[1]),asd(a[2]),id); return Val(); };
  E["vp_eq"]=E["vp_same"]=[](std::vector<Val>&a,DInst&){ std::string id=cstr(a[2].b); if(!a[0].t&&!a[1].t){ double x=asd(a[0]),y=asd(a[1]); bool ok= x==y|| fabs(x-y)<=1e-12*(1+std::max(fabs(x),fabs(y))); assertterm(boolc(ok),id); return Val(); } closeterm(asreal(a[0]),asreal(a[1]),0,id); return Val(); };
  E["vp_reach"]=[](std::vector<Val>&a,DInst&){ reached.push_back(cstr(a[0].b)); return Val(); };
  E["vp_param"]=[](std::vector<Val>&a,DInst&){ auto it=params.find(cstr(a[0].b)); return it==params.end()? a[1]: cv((u64)it->second); };
  E["vp_pin"]=[](std::vector<Val>&a,DInst&){ return cv(conc(a[0])); };
  E["vp_is_symbolic_run"]=[](std::vector<Val>&,DInst&){ return cv(1); };
  E["vp_deriv"]=[](std::vector<Val>&a,DInst&){ std::unordered_map<TP,TP> m; if(!a[1].t) return cv(0); return tv(tderiv(subst(asreal(a[0])),a[1].t,m)); };
  E["vp_emit"]=[](std::vector<Val>&a,DInst&){ std::map<TP,int> ids; std::string defs; TP t=subst(asreal(a[1])); std::string r=emitsexp(t,ids,defs); int root=ids[t]; std::string pcs; for(TP c:PC){ emitsexp(c,ids,defs); if(pcs.size()) pcs+=","; pcs+=std::to_string(ids[c]); } emits.push_back("{\"name\":"+jesc(cstr(a[0].b))+",\"path\":"+jesc(pathid)+",\"root\":"+std::to_string(root)+",\"pc\":["+pcs+"],\"nodes\":["+defs+"]}"); return Val(); };
  E["vp_s2_moments"]=[](std::vector<Val>&a,DInst&){ u64 N=a[2].b,L=a[3].b; std::vector<double> P(3*N),W(N),out((L+1)*(L+1)); auto rd=[&](u64 p,double*d,u64 n){ if(!n) return; Obj*o=access(p,8*n,false); if(o->sym.lower_bound(p-o->base)!=o->sym.end()) unsup("symbolic moments"); memcpy(d,&o->d[p-o->base],8*n); }; rd(a[0].b,P.data(),3*N); rd(a[1].b,W.data(),N); s2mom(P.data(),W.data(),N,L,out.data()); Obj*o=access(a[4].b,8*out.size(),true); memcpy(&o->d[a[4].b-o->base],out.data(),8*out.size()); return Val(); };
  E["vp_multiset"]=[](std::vector<Val>&a,DInst&){ u64 n=conc(a[2]),w=conc(a[3]); std::string id=cstr(a[4].b); if(enough(id)){ st.skipped++; return Val(); } std::vector<std::vector<TP>> A(n),B(n); for(u64 i=0;i<n;i++) for(u64 k=0;k<w;k++){ A[i].push_back(subst(asreal(loadscalar(a[0].b+8*(i*w+k),8)))); B[i].push_back(subst(asreal(loadscalar(a[1].b+8*(i*w+k),8)))); }
    auto eq=[&](TP x,TP y){ if(x==y) return true; if(isC(x)&&isC(y)){ double p=b2d(x->c),q=b2d(y->c); return fabs(p-q)<=1e-12*(1+fabs(p)); } double p=fingerprint(x),q=fingerprint(y); if(fabs(p-q)>1e-6*(1+fabs(p))) return false; return polyeq(x,y); };
    auto req=[&](u64 i,u64 j){ for(u64 k=0;k<w;k++) if(!eq(A[i][k],B[j][k])) return false; return true; };
    // pair off rows that are equal as rational functions: same place first, then by fingerprint of the first column
    std::vector<char> ua(n,0),ub(n,0); u64 left=n; for(u64 i=0;i<n;i++) if(req(i,i)){ ua[i]=ub[i]=1; left--; }
    if(left){ std::multimap<double,u64> idx; for(u64 j=0;j<n;j++) if(!ub[j]){ double v=0; for(u64 k=0;k<w;k++) v+=(k+1)*0.7310585*fingerprint(B[j][k]); if(!(fabs(v)<1e300)) v=0; idx.insert({v,j}); }
      for(u64 i=0;i<n;i++) if(!ua[i]){ double v=0; for(u64 k=0;k<w;k++) v+=(k+1)*0.7310585*fingerprint(A[i][k]); if(!(fabs(v)<1e300)) v=0; double e=1e-5*(1+fabs(v)); auto it=idx.lower_bound(v-e); for(;it!=idx.end()&&it->first<=v+e;++it) if(req(i,it->second)){ ua[i]=ub[it->second]=1; left--; idx.erase(it); break; } } }
    if(!left){ st.asserts++; st.dis_syn++; return Val(); }
    // what is left over is decided by the solver: some left-over row occurs a different number of times on the two sides
    { std::vector<std::vector<TP>> A2,B2; for(u64 i=0;i<n;i++){ if(!ua[i]) A2.push_back(A[i]); if(!ub[i]) B2.push_back(B[i]); } A.swap(A2); B.swap(B2); }
    TP bad=boolc(false); auto roweq=[&](std::vector<TP>&x,std::vector<TP>&y){ TP r=boolc(true); for(u64 k=0;k<w;k++) r=tand(r,trcmp(T_REQ,x[k],y[k])); return r; };
    auto cnt=[&](std::vector<TP>&x,std::vector<std::vector<TP>>&S){ TP c=bvc(0,16); for(auto&y:S) c=tbv(T_ADD,c,tite(roweq(x,y),bvc(1,16),bvc(0,16))); return c; };
    // many left-over rows: ask about a few of them; if none differs the assertion stays undecided
    u64 ask= left<=48? left: 1; for(u64 i=0;i<ask;i++) bad=tor(bad,tnot(teq(cnt(A[i],A),cnt(A[i],B))));
    if(ask<left){ st.asserts++; z3::model*sv=curmodel?new z3::model(*curmodel):nullptr; bool h=pinnedcex(bad,id); delete curmodel; curmodel=sv; if(h){ countviol(id); return Val(); } undec.push_back(id); return Val(); }
    assertterm(tnot(bad),id); return Val(); };
  // ---- allocation
  E["_Znwm"]=E["_Znam"]=[](std::vector<Val>&a,DInst&){ return cv(heapalloc(allocsize(a[0]),1)->base); };
  E["_ZnwmSt11align_val_t"]=E["_ZnamSt11align_val_t"]=E["_Znwm"];
  E["_ZnwmRKSt9nothrow_t"]=E["_Znwm"];
  E["malloc"]=[](std::vector<Val>&a,DInst&){ return cv(heapalloc(allocsize(a[0]),2)->base); };
  E["calloc"]=[](std::vector<Val>&a,DInst&){ Obj*o=heapalloc(conc(a[0])*conc(a[1]),2); std::fill(o->d.begin(),o->d.end(),0); return cv(o->base); };
  for(auto n:{"_ZdlPv","_ZdaPv","_ZdlPvm","_ZdaPvm","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t"}) E[n]=[](std::vector<Val>&a,DInst&){ heapfree(conc(a[0]),1); return Val(); };
  E["free"]=[](std::vector<Val>&a,DInst&){ heapfree(conc(a[0]),2); return Val(); };
  // ---- memory
  E["memcpy"]=E["memmove"]=[](std::vector<Val>&a,DInst&){ memcopy(conc(a[0]),conc(a[1]),conc(a[2])); return cv(a[0].b); };
  E["memset"]=[](std::vector<Val>&a,DInst&){ u64 p=conc(a[0]),n=conc(a[2]); u8 c=conc(a[1]); if(n){ Obj*o=access(p,n,true); clearsym(o,p-o->base,n); memset(&o->d[p-o->base],c,n); } return cv(p); };
  E["memcmp"]=E["bcmp"]=[](std::vector<Val>&a,DInst&){ u64 p=conc(a[0]),q=conc(a[1]),n=conc(a[2]); TP r=bvc(0,32); for(u64 i=n;i-->0;){ Val x=loadscalar(p+i,1),y=loadscalar(q+i,1); TP tx=asbv(x,8),ty=asbv(y,8); r=tite(teq(tx,ty),r,tite(tcmp(T_ULT,tx,ty),bvc(~0ull,32),bvc(1,32))); } return tv(r); };
  E["strlen"]=[](std::vector<Val>&a,DInst&){ u64 p=conc(a[0]),n=0; for(;;n++){ Val v=loadscalar(p+n,1); if(v.t){ if(decide(teq(asbv(v,8),bvc(0,8)))) break; } else if(!v.b) break; } return cv(n); };
  auto cas=[](bool up){ return [up](std::vector<Val>&a,DInst&){ if(!a[0].t) return cv((u64)(u32)(up?toupper((int)a[0].b):tolower((int)a[0].b))); TP t=asbv(a[0],32); u64 lo=up?'a':'A',hi=up?'z':'Z'; TP in=tand(tcmp(T_ULE,bvc(lo,32),t),tcmp(T_ULE,t,bvc(hi,32))); return tv(tite(in,tbv(T_ADD,t,bvc(up?-32:32,32)),t)); }; };
  E["toupper"]=cas(true); E["tolower"]=cas(false);
  auto cls=[](std::function<bool(int)> f){ return [f](std::vector<Val>&a,DInst&){ if(!a[0].t) return cv(f((int)a[0].b)); TP t=asbv(a[0],32); TP r=boolc(false); for(int c=0;c<256;c++) if(f(c)) r=tor(r,teq(t,bvc(c,32))); return tv(tite(r,bvc(1,32),bvc(0,32))); }; };
  E["isalpha"]=cls([](int c){ return isalpha(c)!=0; }); E["isupper"]=cls([](int c){ return isupper(c)!=0; }); E["islower"]=cls([](int c){ return islower(c)!=0; }); E["isspace"]=cls([](int c){ return isspace(c)!=0; }); E["isalnum"]=cls([](int c){ return isalnum(c)!=0; }); E["isdigit"]=cls([](int c){ return isdigit(c)!=0; }); E["ispunct"]=cls([](int c){ return ispunct(c)!=0; });
  auto tbl=[](std::function<int(int)> f,int esz,const char*nm){ return [=](std::vector<Val>&,DInst&){ static std::map<std::string,u64> cache; auto it=cache.find(nm); if(it!=cache.end()) return cv(it->second); Obj*o=newobj(384*esz,O_GLOBAL,nm,false); for(int i=-128;i<256;i++){ int v=f(i); memcpy(&o->d[(i+128)*esz],&v,esz); } Obj*p=newobj(8,O_GLOBAL,nm,false); u64 ad=o->base+128*esz; memcpy(&p->d[0],&ad,8); cache[nm]=p->base; return cv(p->base); }; };
  E["__ctype_toupper_loc"]=tbl([](int c){ return c<-127?c:toupper(c); },4,"toupper table"); E["__ctype_tolower_loc"]=tbl([](int c){ return c<-127?c:tolower(c); },4,"tolower table");
  // ---- C++ runtime
  E["__cxa_allocate_exception"]=[](std::vector<Val>&a,DInst&){ Obj*o=newobj(std::max<u64>(a[0].b,16),O_HEAP,"exception"); return cv(o->base); };
  E["__cxa_free_exception"]=[](std::vector<Val>&,DInst&){ return Val(); };
  E["__cxa_throw"]=[](std::vector<Val>&a,DInst&)->Val{ excti[a[0].b]=a[1].b; throw (u64)a[0].b; };
  E["__cxa_begin_catch"]=[](std::vector<Val>&a,DInst&){ caught.push_back({a[0].b,excti[a[0].b]}); return cv(a[0].b); };
  E["__cxa_end_catch"]=[](std::vector<Val>&,DInst&){ if(!caught.empty()) caught.pop_back(); return Val(); };
  E["__cxa_get_exception_ptr"]=[](std::vector<Val>&a,DInst&){ return cv(a[0].b); };
  E["__cxa_rethrow"]=[](std::vector<Val>&,DInst&)->Val{ if(caught.empty()) endpath("abort","rethrow without exception"); throw (u64)caught.back().obj; };
  E["__cxa_bad_cast"]=[](std::vector<Val>&,DInst&)->Val{ throwstd("_ZTISt8bad_cast"); return Val(); };
  E["__cxa_pure_virtual"]=[](std::vector<Val>&,DInst&)->Val{ endpath("abort","pure virtual call"); };
  E["__cxa_thread_atexit"]=[](std::vector<Val>&,DInst&){ return cv(0); };
  E["__cxa_atexit"]=[](std::vector<Val>&,DInst&){ return cv(0); };
  E["__cxa_guard_acquire"]=[](std::vector<Val>&a,DInst&){ atomicacc=true; Val v=loadscalar(a[0].b,1); curlocks.passed.insert(a[0].b); if(!v.b){ curlocks.init.insert(a[0].b); storebits(a[0].b,1,1); } curls=-1; atomicacc=false; return cv(!v.b); };
  E["__cxa_guard_release"]=E["__cxa_guard_abort"]=[](std::vector<Val>&a,DInst&){ curlocks.init.erase(a[0].b); curls=-1; return Val(); };
  for(auto n:{"pthread_mutex_lock","pthread_mutex_trylock","pthread_rwlock_wrlock"}) E[n]=[](std::vector<Val>&a,DInst&){ curlocks.held.insert(conc(a[0])); curls=-1; return cv(0); };
  E["pthread_rwlock_rdlock"]=E["pthread_rwlock_wrlock"];
  for(auto n:{"pthread_mutex_unlock","pthread_rwlock_unlock"}) E[n]=[](std::vector<Val>&a,DInst&){ curlocks.held.erase(conc(a[0])); curls=-1; return cv(0); };
  for(auto n:{"pthread_mutex_init","pthread_mutex_destroy"}) E[n]=[](std::vector<Val>&,DInst&){ return cv(0); };
  // ---- fresh process image / threads
  E["vp_fresh_begin"]=[](std::vector<Val>&,DInst&){ saveimg(curimg,startmark); restoreimg(startimg,startmark); return cv(1); };
  E["vp_fresh_end"]=[](std::vector<Val>&,DInst&){ restoreimg(curimg,startmark); return Val(); };
  E["vp_shared"]=[](std::vector<Val>&a,DInst&){ Obj*o=heapalloc(conc(a[0]),2); std::fill(o->d.begin(),o->d.end(),0); return cv(o->base); };
  E["vp_thread_init"]=[](std::vector<Val>&,DInst&){ return Val(); };
  E["vp_thread"]=[](std::vector<Val>&a,DInst&){ u64 k=conc(a[0]); lastobj[0]=lastobj[1]=lastobj[2]=lastobj[3]=nullptr; curlocks=Locks(); curls=-1;
    if(auto*g=M->getNamedValue("__libc_single_threaded")){ Obj*o=findobj(addrof(g)); o->d[0]=0; }
    if(k==1){ phmark=nextaddr; accs[1].clear(); accs[2].clear(); locksets.clear(); saveimg(phimg,phmark,true); tlssave(); tlsreset(); phase=1; return cv(1); }
    if(k==2){ restoreimg(phimg,phmark,true); tlsreset(); phase=2; return cv(1); }
    phase=0; tlsrestore(); st.asserts++; u64 pairs=0; std::string hit;
    for(auto&A:accs[1]){ auto it=accs[2].find(A.first); if(it==accs[2].end()) continue; for(auto&x:A.second) for(auto&y:it->second){ const Acc&p=x.first,&q=y.first; pairs++; if(!p.wr&&!q.wr) continue; if(p.at&&q.at) continue; if(p.off+p.n<=q.off||q.off+q.n<=p.off) continue; const Locks&L=locksets[p.ls],&R=locksets[q.ls]; auto meet=[](const std::set<u64>&s,const std::set<u64>&t){ for(u64 v:s) if(t.count(v)) return true; return false; }; if(meet(L.held,R.held)||meet(L.init,R.passed)||meet(L.passed,R.init)) continue; if(hit.empty()) hit=A.first->name+": "+x.second+" / "+y.second; } }
    if(!hit.empty()){ st.asserts--; fprintf(stderr,"race on %s\n",hit.substr(0,400).c_str()); assertterm(boolc(false),"data race"); } else st.dis_syn++; return cv(1); };
  E["_ZSt9terminatev"]=[](std::vector<Val>&,DInst&)->Val{ endpath("abort","std::terminate"+where()); };
  E["abort"]=[](std::vector<Val>&,DInst&)->Val{ endpath("abort","abort"+where()); };
  E["__assert_fail"]=[](std::vector<Val>&a,DInst&)->Val{ endpath("abort","assert("+cstr(a[0].b)+")"+where()); };
  E["exit"]=[](std::vector<Val>&,DInst&)->Val{ endpath("abort","exit"); };
  auto thr=[&](const char*fn,const char*ti){ std::string t=ti; E[fn]=[t](std::vector<Val>&,DInst&)->Val{ throwstd(t); return Val(); }; };
  thr("_ZSt24__throw_out_of_range_fmtPKcz","_ZTISt12out_of_range"); thr("_ZSt20__throw_out_of_rangePKc","_ZTISt12out_of_range"); thr("_ZSt20__throw_length_errorPKc","_ZTISt12length_error"); thr("_ZSt19__throw_logic_errorPKc","_ZTISt11logic_error"); thr("_ZSt17__throw_bad_allocv","_ZTISt9bad_alloc"); thr("_ZSt28__throw_bad_array_new_lengthv","_ZTISt20bad_array_new_length"); thr("_ZSt16__throw_bad_castv","_ZTISt8bad_cast"); thr("_ZSt24__throw_invalid_argumentPKc","_ZTISt16invalid_argument"); thr("_ZSt25__throw_bad_function_callv","_ZTISt17bad_function_call"); thr("__cxa_throw_bad_array_new_length","_ZTISt20bad_array_new_length"); thr("_ZSt21__throw_runtime_errorPKc","_ZTISt13runtime_error");
  E["__dynamic_cast"]=[](std::vector<Val>&a,DInst&){ u64 p=conc(a[0]); if(!p) return cv(0); u64 vt=loadscalar(p,8).b; i64 top=(i64)loadscalar(vt-16,8).b; u64 ti=loadscalar(vt-8,8).b; u64 whole=p+top; i64 off=0; if(!tiderived(ti,a[2].b,off)) return cv(0); return cv(whole+off); };
  // std exceptions: opaque
  for(auto&k:stdparent){ std::string cls=k.first.substr(5); /* after _ZTISt */ for(auto v:{"C1EPKc","C2EPKc","C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE","C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE","D1Ev","D2Ev","D0Ev","C1ERKS_","C2ERKS_","C1EOS_","C2EOS_"}) E["_ZNSt"+k.first.substr(6)+v]=[](std::vector<Val>&,DInst&){ return Val(); }; (void)cls; }
  for(auto v:{"_ZNSt9exceptionD1Ev","_ZNSt9exceptionD2Ev","_ZNSt8ios_base4InitC1Ev","_ZNSt8ios_base4InitD1Ev"}) E[v]=[](std::vector<Val>&,DInst&){ return Val(); };
  E["_ZNSt6chrono3_V212system_clock3nowEv"]=E["_ZNSt6chrono3_V212steady_clock3nowEv"]=[](std::vector<Val>&,DInst&){ return cv(0); };
  E["_ZNSt15__exception_ptr13exception_ptrD1Ev"]=[](std::vector<Val>&,DInst&){ return Val(); };
  // ---- math
  for(auto n:{"log","exp","log1p","expm1","sqrt","sin","cos","tan","log2","log10","cbrt","acos","asin","atan","exp2","sinh","cosh","tanh"}){ std::string s=n; E[s]=[s](std::vector<Val>&a,DInst&){ return tv(uf1(s,subst(asreal(a[0])))); }; }
  for(auto n:{"pow","fmod","atan2","hypot"}){ std::string s=n; E[s]=[s](std::vector<Val>&a,DInst&){ return tv(uf2(s,subst(asreal(a[0])),subst(asreal(a[1])))); }; }
  E["fabs"]=[](std::vector<Val>&a,DInst&){ return tv(tabs(asreal(a[0]))); };
  E["fmax"]=[](std::vector<Val>&a,DInst&){ if(!a[0].t&&!a[1].t) return cv(d2b(std::fmax(asd(a[0]),asd(a[1])))); TP x=asreal(a[0]),y=asreal(a[1]); return tv(tite(trcmp(T_RLT,x,y),y,x)); };
  E["fmin"]=[](std::vector<Val>&a,DInst&){ if(!a[0].t&&!a[1].t) return cv(d2b(std::fmin(asd(a[0]),asd(a[1])))); TP x=asreal(a[0]),y=asreal(a[1]); return tv(tite(trcmp(T_RLT,x,y),x,y)); };
  E["fma"]=[](std::vector<Val>&a,DInst&){ if(!a[0].t&&!a[1].t&&!a[2].t) return cv(d2b(std::fma(asd(a[0]),asd(a[1]),asd(a[2])))); return tv(treal(T_RADD,treal(T_RMUL,asreal(a[0]),asreal(a[1])),asreal(a[2]))); };
  auto rnd=[](std::function<double(double)> f){ return [f](std::vector<Val>&a,DInst&){ if(a[0].t) unsup("symbolic rounding function"); return cv(d2b(f(asd(a[0])))); }; };
  E["floor"]=rnd([](double x){ return std::floor(x); }); E["ceil"]=rnd([](double x){ return std::ceil(x); }); E["round"]=rnd([](double x){ return std::round(x); }); E["trunc"]=rnd([](double x){ return std::trunc(x); }); E["rint"]=rnd([](double x){ return std::rint(x); });
}
static std::unordered_map<Function*,Ext> intr;
// C math functions on concrete arguments: executed by the host's libm
static const Ext* libm(Function*F){ static const std::set<std::string> ok={"ldexp","scalbn","scalbln","frexp","fdim","nextafter","lround","llround","lrint","llrint","lgamma","tgamma","erf","erfc","asinh","acosh","atanh","logb","ilogb","remainder","sqrtf","cosf","sinf","tanf","expf","logf","powf","fabsf","floorf","ceilf","roundf","truncf","acosf","asinf","atanf","atan2f","hypotf","cbrtf","fmaxf","fminf","log2f","log10f","exp2f","fmodf","sincos","exp10","pow10"};
  std::string n=F->getName().str(); if(!ok.count(n)||n=="sincos"||n=="frexp") return nullptr; auto it=exts.find(n); if(it!=exts.end()) return &it->second; void*h=dlsym(RTLD_DEFAULT,n.c_str()); if(!h) return nullptr;
  FunctionType*T=F->getFunctionType(); std::string sig; auto ch=[](Type*t)->char{ return t->isDoubleTy()?'d':t->isFloatTy()?'f':t->isIntegerTy(32)?'i':t->isIntegerTy(64)?'l':'?'; }; sig+=ch(T->getReturnType()); for(auto*t:T->params()) sig+=ch(t);
  Ext e=[h,sig,n](std::vector<Val>&a,DInst&)->Val{ for(size_t i=0;i+1<sig.size();i++) if(a[i].t) unsup("symbolic argument of "+n);
    if(sig=="dd") return cv(d2b(((double(*)(double))h)(b2d(a[0].b)))); if(sig=="ddd") return cv(d2b(((double(*)(double,double))h)(b2d(a[0].b),b2d(a[1].b)))); if(sig=="ddi") return cv(d2b(((double(*)(double,int))h)(b2d(a[0].b),(int)a[1].b))); if(sig=="ddl") return cv(d2b(((double(*)(double,long))h)(b2d(a[0].b),(long)a[1].b)));
    if(sig=="ld") return cv((u64)((long(*)(double))h)(b2d(a[0].b))); if(sig=="id") return cv((u32)((int(*)(double))h)(b2d(a[0].b)));
    if(sig=="ff") return cv(fb(((float(*)(float))h)(bf(a[0].b)))); if(sig=="fff") return cv(fb(((float(*)(float,float))h)(bf(a[0].b),bf(a[1].b)))); unsup("signature of "+n); };
  return &(exts[n]=e); }
static const Ext* findext(Function*F){ std::string n=F->getName().str(); auto it=exts.find(n); if(it!=exts.end()) return &it->second; if(!F->isIntrinsic()) return F->isDeclaration()? libm(F): nullptr;
  auto jt=intr.find(F); if(jt!=intr.end()) return &jt->second; Ext e; auto id=F->getIntrinsicID();
  auto fwd=[&](const char*k){ e=exts[k]; };
  unsigned w= F->getFunctionType()->getNumParams()? bw(F->getFunctionType()->getParamType(0)):0; bool vec=F->getReturnType()->isVectorTy();
  switch(id){
   case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: fwd("memmove"); break; case Intrinsic::memset: fwd("memset"); break;
   case Intrinsic::fabs: if(vec){ e=[](std::vector<Val>&a,DInst&){ Val v; v.g=new Agg; for(auto&x:a[0].g->e) v.g->e.push_back(tv(tabs(asreal(x)))); return v; }; } else fwd("fabs"); break;
   case Intrinsic::sqrt: fwd("sqrt"); break; case Intrinsic::sin: fwd("sin"); break; case Intrinsic::cos: fwd("cos"); break; case Intrinsic::exp: fwd("exp"); break; case Intrinsic::log: fwd("log"); break; case Intrinsic::log2: fwd("log2"); break; case Intrinsic::log10: fwd("log10"); break; case Intrinsic::exp2: fwd("exp2"); break; case Intrinsic::pow: fwd("pow"); break;
   case Intrinsic::powi: e=[](std::vector<Val>&a,DInst&){ int k=(int)conc(a[1]); if(!a[0].t) return cv(d2b(__builtin_powi(asd(a[0]),k))); return tv(rpowi(a[0].t,k)); }; break;
   case Intrinsic::floor: fwd("floor"); break; case Intrinsic::ceil: fwd("ceil"); break; case Intrinsic::round: fwd("round"); break; case Intrinsic::trunc: fwd("trunc"); break; case Intrinsic::rint: case Intrinsic::nearbyint: fwd("rint"); break;
   case Intrinsic::maxnum: fwd("fmax"); break; case Intrinsic::minnum: fwd("fmin"); break; case Intrinsic::fma: case Intrinsic::fmuladd: fwd("fma"); break;
   case Intrinsic::copysign: e=[](std::vector<Val>&a,DInst&){ if(!a[0].t&&!a[1].t) return cv(d2b(std::copysign(asd(a[0]),asd(a[1])))); TP m=tabs(asreal(a[0])); return tv(tite(trcmp(T_RLT,asreal(a[1]),realc(0)),trneg(m),m)); }; break;
   case Intrinsic::expect: e=[](std::vector<Val>&a,DInst&){ return a[0]; }; break;
   case Intrinsic::threadlocal_address: e=[](std::vector<Val>&a,DInst&){ return a[0]; }; break;
   case Intrinsic::is_constant: e=[](std::vector<Val>&,DInst&){ return cv(0); }; break;
   case Intrinsic::objectsize: e=[](std::vector<Val>&,DInst&){ return cv(~0ull); }; break;
   case Intrinsic::trap: e=[](std::vector<Val>&,DInst&)->Val{ endpath("trap","trap"+where()); }; break;
   case Intrinsic::eh_typeid_for: e=[](std::vector<Val>&a,DInst&){ return cv(a[0].b&0x7fffffff); }; break;
   case Intrinsic::stacksave: e=[](std::vector<Val>&,DInst&){ return cv(0); }; break; case Intrinsic::stackrestore: e=[](std::vector<Val>&,DInst&){ return Val(); }; break;
   case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: e=[](std::vector<Val>&a,DInst&){ return a[0]; }; break;
   case Intrinsic::umax: e=[w](std::vector<Val>&a,DInst&){ Val c=icmp(CmpInst::ICMP_ULT,a[0],a[1],w); return c.t? tv(tite(c.t,asbv(a[1],w),asbv(a[0],w))): c.b? a[1]: a[0]; }; break;
   case Intrinsic::umin: e=[w](std::vector<Val>&a,DInst&){ Val c=icmp(CmpInst::ICMP_ULT,a[0],a[1],w); return c.t? tv(tite(c.t,asbv(a[0],w),asbv(a[1],w))): c.b? a[0]: a[1]; }; break;
   case Intrinsic::smax: e=[w](std::vector<Val>&a,DInst&){ Val c=icmp(CmpInst::ICMP_SLT,a[0],a[1],w); return c.t? tv(tite(c.t,asbv(a[1],w),asbv(a[0],w))): c.b? a[1]: a[0]; }; break;
   case Intrinsic::smin: e=[w](std::vector<Val>&a,DInst&){ Val c=icmp(CmpInst::ICMP_SLT,a[0],a[1],w); return c.t? tv(tite(c.t,asbv(a[0],w),asbv(a[1],w))): c.b? a[0]: a[1]; }; break;
   case Intrinsic::abs: e=[w](std::vector<Val>&a,DInst&){ if(!a[0].t){ i64 s=sextw(a[0].b,w); return cv((u64)(s<0?-s:s)&maskw(w)); } TP t=asbv(a[0],w); return tv(tite(tcmp(T_SLT,t,bvc(0,w)),tbv(T_SUB,bvc(0,w),t),t)); }; break;
   case Intrinsic::ctlz: e=[w](std::vector<Val>&a,DInst&){ if(!a[0].t){ u64 x=a[0].b&maskw(w); unsigned n=0; while(n<w&&!(x>>(w-1-n)&1)) n++; return cv(n); } TP t=asbv(a[0],w),r=bvc(w,w); for(unsigned i=0;i<w;i++) r=tite(teq(textr(t,i,1),bvc(1,1)),bvc(w-1-i,w),r); return tv(r); }; break;
   case Intrinsic::cttz: e=[w](std::vector<Val>&a,DInst&){ u64 x=conc(a[0])&maskw(w); unsigned n=0; while(n<w&&!(x>>n&1)) n++; return cv(n); }; break;
   case Intrinsic::ctpop: e=[w](std::vector<Val>&a,DInst&){ return cv(__builtin_popcountll(conc(a[0])&maskw(w))); }; break;
   case Intrinsic::bswap: e=[w](std::vector<Val>&a,DInst&){ u64 x=conc(a[0]); return cv(w==64?__builtin_bswap64(x):w==32?__builtin_bswap32(x):__builtin_bswap16(x)); }; break;
   case Intrinsic::usub_sat: e=[w](std::vector<Val>&a,DInst&){ Val c=icmp(CmpInst::ICMP_ULT,a[0],a[1],w); Val d=binint(Instruction::Sub,a[0],a[1],w); return c.t? tv(tite(c.t,bvc(0,w),asbv(d,w))): c.b? cv(0): d; }; break;
   case Intrinsic::uadd_sat: e=[w](std::vector<Val>&a,DInst&){ Val d=binint(Instruction::Add,a[0],a[1],w); Val c=icmp(CmpInst::ICMP_ULT,d,a[0],w); return c.t? tv(tite(c.t,bvc(maskw(w),w),asbv(d,w))): c.b? cv(maskw(w)): d; }; break;
   case Intrinsic::fshl: case Intrinsic::fshr: e=[w,id](std::vector<Val>&a,DInst&){ u64 s=conc(a[2])%w; if(id==Intrinsic::fshr) s=(w-s)%w; Val hi=binint(Instruction::Shl,a[0],cv(s),w); if(s==0) return id==Intrinsic::fshr? a[1]: a[0]; Val lo=binint(Instruction::LShr,a[1],cv(w-s),w); return binint(Instruction::Or,hi,lo,w); }; break;
   case Intrinsic::umul_with_overflow: e=[w](std::vector<Val>&a,DInst&){ Val r; r.g=new Agg; Val m=binint(Instruction::Mul,a[0],a[1],w); Val o; if(!a[0].t&&!a[1].t){ unsigned __int128 p=(unsigned __int128)(a[0].b&maskw(w))*(a[1].b&maskw(w)); o=cv((p>>w)!=0); } else { Val A=a[0],B=a[1]; if(!A.t) std::swap(A,B); if(B.t){ o=cv(decide(tcmp(T_ULT,tbv(T_UDIV,bvc(maskw(w),w),asbv(A,w)),asbv(B,w)))); } else o= B.b==0? cv(0): tv(tcmp(T_ULT,bvc(maskw(w)/B.b,w),asbv(A,w))); } r.g->e={m,o}; return r; }; break;
   case Intrinsic::uadd_with_overflow: e=[w](std::vector<Val>&a,DInst&){ Val r; r.g=new Agg; Val d=binint(Instruction::Add,a[0],a[1],w); r.g->e={d,icmp(CmpInst::ICMP_ULT,d,a[0],w)}; return r; }; break;
   case Intrinsic::usub_with_overflow: e=[w](std::vector<Val>&a,DInst&){ Val r; r.g=new Agg; r.g->e={binint(Instruction::Sub,a[0],a[1],w),icmp(CmpInst::ICMP_ULT,a[0],a[1],w)}; return r; }; break;
   case Intrinsic::is_fpclass: e=[](std::vector<Val>&a,DInst&){ u64 m=a[1].b; if(a[0].t){ TP t=asreal(a[0]); if((m&0x207)==m) return cv(0); unsup("is_fpclass symbolic"); (void)t; } double d=asd(a[0]); unsigned c; if(std::isnan(d)) c=3; else if(std::isinf(d)) c=d<0?4:512; else if(d==0) c=std::signbit(d)?32:64; else if(std::fpclassify(d)==FP_SUBNORMAL) c=d<0?16:128; else c=d<0?8:256; return cv((m&c)!=0); }; break;
   default: return nullptr; }
  // single precision: computed through the double version and rounded
  if(F->getReturnType()->isFloatTy()&&e){ Ext d=e; FunctionType*T=F->getFunctionType(); std::vector<bool> isf; for(auto*t:T->params()) isf.push_back(t->isFloatTy()); e=[d,isf](std::vector<Val>&a,DInst&x)->Val{ std::vector<Val> b=a; for(size_t i=0;i<isf.size();i++) if(isf[i]&&!b[i].t) b[i]=cv(d2b(bf(b[i].b))); Val r=d(b,x); if(r.t&&r.t->op==T_REALC) return cv(fb((float)b2d(r.t->c))); return r.t? tv(tofloat(r.t)): cv(fb((float)asd(r))); }; }
  if(vec&&F->getReturnType()->getScalarType()->isFloatTy()) e=[](std::vector<Val>&,DInst&)->Val{ unsup("single-precision vector operation"); };
  intr[F]=e; return &intr[F]; }
int main(int argc,char**argv){ void*gm=mmap(nullptr,4097*sizeof(u32),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if(gm!=MAP_FAILED) gviol=(u32*)gm; std::string bc; for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); }; if(a=="--entry") opt.entry=nx(); else if(a=="--out") opt.out=nx(); else if(a=="--jobs") opt.jobs=atoi(nx().c_str()); else if(a=="--steps") opt.maxsteps=strtoull(nx().c_str(),0,10); else if(a=="--rlimit") opt.rlimit=atoi(nx().c_str()); else if(a=="--wall") opt.wall=atof(nx().c_str()); else if(a=="--dump") opt.dump=nx(); else if(a=="--param"){ std::string p=nx(); size_t e=p.find('='); params[p.substr(0,e)]=strtoll(p.c_str()+e+1,0,10); } else if(a=="--concrete"){ opt.concrete=true; std::string p=nx(); FILE*f=fopen(p.c_str(),"r"); char k[512],v[4096]; while(f&&fscanf(f,"%511s %4095s",k,v)==2) concr[k]=v; if(f) fclose(f); } else bc=a; }
  t0=now(); struct rlimit rl; if(!getrlimit(RLIMIT_STACK,&rl)){ rl.rlim_cur=rl.rlim_max; setrlimit(RLIMIT_STACK,&rl); }
  LLVMContext C; SMDiagnostic D; auto m=parseIRFile(bc,D,C); if(!m){ D.print("symex",errs()); return 2; } M=m.get(); DL=&M->getDataLayout();
  Z=new z3::context; SV=new z3::solver(*Z); z3::params p(*Z); p.set("rlimit",opt.rlimit); p.set("timeout",30000u); SV->set(p);
  setupexts(); Function*F=M->getFunction(opt.entry); if(!F||F->isDeclaration()){ fprintf(stderr,"no entry %s\n",opt.entry.c_str()); return 2; }
  int pp[2]; if(pipe(pp)) return 2; tokr=pp[0]; tokw=pp[1]; for(int i=1;i<opt.jobs;i++) if(write(tokw,"t",1)){}
  if(pipe(pp)) return 2; penr=pp[0]; penw=pp[1]; fcntl(penr,F_SETFL,O_NONBLOCK); for(int i=0;i<opt.pend;i++) if(write(penw,"t",1)){}
  arm(); std::string out="ok",msg; try{ try{
    // static initialisers
    if(auto*gc=M->getGlobalVariable("llvm.global_ctors")){ if(auto*ca=dyn_cast<ConstantArray>(gc->getInitializer())) for(auto&o:ca->operands()){ auto*cs=cast<ConstantStruct>(o); auto*fn=dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()); std::vector<Val> a; if(fn){ pushframe(fn,a); try{ run(); }catch(PathEnd&e){ if(e.outcome!="ok") throw; } stk.clear(); } } }
    startmark=nextaddr; saveimg(startimg,startmark); st.steps=0; std::vector<Val> a; pushframe(F,a); run(); }
    catch(PathEnd&e){ out=e.outcome; msg=e.msg; } catch(Unsup&u){ out="unsupported"; msg=u.msg+where(); } catch(z3::exception&e){ out="unsupported"; msg=std::string("z3: ")+e.msg(); } catch(std::exception&e){ out="unsupported"; msg=std::string("engine: ")+e.what(); } }
  catch(...){ out="unsupported"; msg="engine exception"; }
  try{ finish(out,msg); }catch(Unsup&u){ writeline("{\"path\":"+jesc(pathid)+",\"outcome\":\"unsupported\",\"msg\":"+jesc(u.msg)+"}"); release(); _exit(0); } catch(...){ _exit(3); } }
