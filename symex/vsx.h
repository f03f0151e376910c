// Harness interface.  Inside the symbolic executor these are built in; in the
// native replay build they are provided by native_rt.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
double vsx_f64(const char* name);
double vsx_range(const char* name, double lo, double hi);  // a number in [lo, hi]
float vsx_f32(const char* name);
uint64_t vsx_u64(const char* name);
uint32_t vsx_u32(const char* name);
uint16_t vsx_u16(const char* name);
uint8_t vsx_u8(const char* name);
void vsx_bytes(const char* name, void* p, size_t n);
uint32_t vsx_choose(const char* name, uint32_t n);       // explicit case split over [0, n)
void vsx_assume(bool c);
void vsx_assert(bool c, const char* msg);
void vsx_close(double a, double b, double tol, const char* msg);
void vsx_reach(const char* label);                        // vacuity witness
uint64_t vsx_concretize(uint64_t v);
double vsx_ite_f64(bool c, double a, double b);
uint64_t vsx_ite_u64(bool c, uint64_t a, uint64_t b);
int vsx_and(bool a, bool b);                              // no forking
int vsx_or(bool a, bool b);
int vsx_param(const char* name, int dflt);
int vsx_same(double a, double b);
bool vsx_decide(bool c);
double vsx_number(const char* text);                       // the number a printed text stands for
void vsx_end();
int vsx_native();
double vsx_uf1(const char* name, double x);
uint64_t vsx_live();
void vsx_print_f64(const char*, double);
void vsx_print_u64(const char*, uint64_t);
}
