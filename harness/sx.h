// Harness API. Under irsym these are intrinsics on symbolic values; in the native replay build
// (sx_replay.cpp) they read the witness file and check the same assertions on the real code.
#pragma once
extern "C" {
double sx_real(const char* name);
double sx_real_in(const char* name, double lo, double hi);
int sx_int(const char* name, int lo, int hi);
int sx_choose(const char* name, int lo, int hi);   // like sx_int but split into one path per value
bool sx_bool(const char* name);
void sx_assume(bool c);
void sx_assert(bool c, const char* label);
void sx_eq(double a, double b, const char* label);
void sx_eq_tol(double a, double b, double tol, const char* label);
void sx_reach(const char* label);
void sx_option(const char* key, double value);
void sx_print(const char* label, double v);
bool sx_branch(bool c);
int sx_symbolic_mode();
void sx_sqrt_hint(double h);   // sqrt(x) may be replaced by |h| when x == h*h identically
}
