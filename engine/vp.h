// Harness API.  The same harness translation unit is (a) compiled to LLVM IR and executed
// symbolically by engine/symex.cpp, and (b) compiled natively and linked with
// engine/native.cpp, which replays the concrete inputs the solver returned.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
// ---- symbolic inputs (names must be unique per path) --------------------------------
int64_t  vp_int(const char* name, int64_t lo, int64_t hi);   // lo <= v <= hi
uint64_t vp_u64(const char* name);                           // all 64-bit values
uint8_t  vp_byte(const char* name);
double   vp_real(const char* name, double lo, double hi);    // exact real in [lo,hi]
double   vp_lat(const char* name, int64_t klo, int64_t khi, int64_t scale); // scale*k
// ---- specification ------------------------------------------------------------------
void     vp_assume(bool c);
void     vp_assert(bool c, const char* id);
void     vp_close(double a, double b, double tol, const char* id);  // |a-b| <= tol
void     vp_eq(double a, double b, const char* id);          // equal (native: to rounding)
void     vp_same(double a, double b, const char* id);        // equal (native: bit/number equal)
// lists a[n][w], b[n][w] equal as multisets of w-tuples (native: to rounding)
void     vp_multiset(const double* a, const double* b, uint64_t n, uint64_t w, const char* id);
void     vp_reach(const char* id);                           // reachability witness
void     vp_emit(const char* name, double v);                // hand a term to the driver
int64_t  vp_param(const char* name, int64_t dflt);           // concrete parameter of the run
int64_t  vp_pin(int64_t v);                                  // enumerate a symbolic integer
void     vp_fail(const char* id);                            // unconditional violation here
// worst spherical-harmonic moments of (pts[n][3], w[n]): out[(L+1)^2], orthonormal real basis
void     vp_s2_moments(const double* pts, const double* w, uint64_t n, uint64_t L, double* out);
double   vp_deriv(double v,double x);                     // symbolic run: d v / d x (x an input); native: NaN
// if(vp_fresh_begin()){ ...; vp_fresh_end(); }  runs the block in the state of a new process (native: a child); results
// leave the block through memory from vp_shared only, and nothing may be thrown out of it
int      vp_fresh_begin(void); void vp_fresh_end(void); void* vp_shared(uint64_t bytes);
int64_t  vp_is_symbolic_run(void);                           // 1 under the engine, 0 natively
}
// two activities as concurrent threads.  Symbolic run: one after the other from the same state, then all accesses to
// memory that existed before are compared (conflict without a common lock = "data race").  Native: two threads (TSan).
extern "C" { int vp_thread(int k); void vp_threads_native(void(*f)(void*),void*a,void(*g)(void*),void*b); }
template<class F,class G> static void vp_concurrently(F f,G g){
  if(vp_is_symbolic_run()){ vp_thread(1); f(); vp_thread(2); g(); vp_thread(0); }
  else vp_threads_native([](void*p){ (*(F*)p)(); },&f,[](void*p){ (*(G*)p)(); },&g); }
