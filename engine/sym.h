// Harness API. The same harness source is compiled twice: instrumented (symbolic) and plain (replay).
#pragma once
extern "C" {
int sym_int(const char *name, int lo, int hi);             // any int in [lo,hi]
int sym_pick(const char *name, int lo, int hi);            // any int in [lo,hi], one path per value
double sym_real(const char *name, double lo, double hi);   // any double in [lo,hi]
void sym_assume(bool b);
void sym_check(bool b, const char *msg);                   // must hold for every value on this path
void sym_check_close(double a, double b, const char *msg); // equality (replay: 1e-9 relative)
void sym_check_either(double v, double a, double b, const char *msg); // v is a or b (replay: 1e-9 relative)
void sym_check_le(double a, double b, const char *msg);    // a <= b (replay: 1e-9 relative slack)
void sym_fail(const char *msg);                            // this point must be unreachable
void sym_reach(const char *msg);                           // vacuity witness: must be reached
int sym_draw_count();                                      // real draws made by the code so far
double sym_draw_value(int k);                              // the k-th of them
int sym_idraw_count();                                     // integer draws made so far
int sym_idraw_value(int k);
double sym_idraw_size(int k);                              // number of values the k-th could take
double sym_exact(double v);                                // a fixed number whose arithmetic is exact
void sym_next_draw(double v);                              // the next real draw is this number
void sym_zero_draws(int n);                                // the first n draws may be exactly zero (else in [2^-64,1))
void sym_streams();                                         // from now on a draw is a function of the state of its generator
double sym_log(double x);
void sym_note(const char *text);                           // bound or modelling note for the evidence
void sym_done();                                           // end of this path
void sym_dump(const char *n, double d);
struct sym_HReg { const char *n; void (*f)(); sym_HReg *next; };
void sym_register(sym_HReg *h);
}
struct sym_Reg { sym_HReg h; sym_Reg(const char *n, void (*f)()) { h.n = n; h.f = f; h.next = 0; sym_register(&h); } };
#ifdef THOROUGH
#define TIER(q, t) (t)
#else
#define TIER(q, t) (q)
#endif
#define HARNESS(name) static void name(); static sym_Reg sym_reg_##name(#name, name); static void name()
