// Harness API. Under the symbolic engine every function here is an intrinsic; in the native replay
// build (SYM_NATIVE) native_rt.cpp feeds recorded values instead.
#ifndef SYM_H_
#define SYM_H_
extern "C" {
int sym_int(int lo, int hi, const char* name);            // symbolic int in [lo, hi]
int sym_choice(unsigned n, const char* name);             // concrete value in [0, n), one path per value
unsigned char sym_char(const char* name);                 // any byte
unsigned long sym_u64(const char* name);
double sym_grid(int lo, int hi, double step, const char* name);  // k*step, lo <= k <= hi (step a power of two)
double sym_double(const char* name);                      // any IEEE double (including NaN, inf)
void sym_assume(bool c);
void sym_assert(bool c, const char* msg);
void sym_reach(const char* label);                        // reachability witness
int sym_param(unsigned i);                                // i-th integer parameter of this run
void sym_observe_d(double v);                             // values compared between encoding and native run
void sym_observe_i(unsigned long v);
int sym_concretize(int v);                                // fork over the feasible values
void sym_stop() __attribute__((noreturn));
int sym_replaying();
void sym_print(const char* s);
int __sym_is_symbolic(double v);
}
#define SYM_ASSERT(c) sym_assert((c), #c)
#endif
