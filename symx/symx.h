// Harness API.  Under the symbolic executor every symx_* call is an intrinsic;
// in the native replay build symx_native.cpp reads values from a replay file.
#ifndef SYMX_H
#define SYMX_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t symx_u64(const char* name);
uint32_t symx_u32(const char* name);
uint16_t symx_u16(const char* name);
uint8_t symx_u8(const char* name);
// fresh value with lo <= v <= hi (signed 64 bit)
int64_t symx_range(int64_t lo, int64_t hi, const char* name);
// like symx_range, but the value is fixed by enumeration of the solver's models (forks)
int64_t symx_choose(int64_t lo, int64_t hi, const char* name);
void symx_bytes(void* p, size_t n, const char* name);
float symx_f32(const char* name);
double symx_f64(const char* name);
void symx_assume(int c);
void symx_assert_(int c, const char* msg);
void symx_reach(const char* tag);       // reachability witness
void symx_observe(uint64_t v);          // compared engine <-> native on replay
uint64_t symx_concretize(uint64_t v);   // fork over all feasible values
int symx_is_symbolic(uint64_t v);
int symx_case(void);                    // concrete, one process per case
void symx_yield(void);                  // scheduling point
void symx_fail(const char* msg);
uint64_t symx_live_heap(void);          // number of live heap objects (engine), 0 natively
uint64_t symx_obj_size(const void* p);  // size of heap object at p (engine), huge natively
void symx_silent_exit(void);            // end path without error
void symx_preempt(int bound);           // max preemptive context switches per path
// expected crash handling: run f, return 1 if it threw
#ifdef __cplusplus
}
#endif
#define symx_assert(c, msg) symx_assert_((c) ? 1 : 0, msg)
#endif
