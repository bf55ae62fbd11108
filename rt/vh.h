// Harness interface. In the symbolic engine these are built in; in the native replay they read a case file.
#ifndef VH_H
#define VH_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
uint64_t vh_u64(const char *name);
uint32_t vh_u32(const char *name);
uint16_t vh_u16(const char *name);
uint8_t vh_u8(const char *name);
bool vh_bool(const char *name);
void vh_bytes(void *ptr, size_t n, const char *name);
void vh_assume(bool c);
void vh_assert(bool c, const char *msg);
__attribute__((noreturn)) void vh_fail(const char *msg);
void vh_reach(const char *label);
void vh_observe(uint64_t v);
__attribute__((noreturn)) void vh_end(void);
uint64_t vh_concretize(uint64_t v);
bool vh_is_symbolic(uint64_t v);
uint64_t vh_arg(unsigned i);
bool vh_symbolic_run(void);
void vh_print(const char *msg, uint64_t v);
void vh_prints(const char *msg, const char *s);
bool vh_and(bool a, bool b);
bool vh_or(bool a, bool b);
uint64_t vh_ite(bool c, uint64_t a, uint64_t b);
bool vh_range_concrete(const void *p, size_t n);
bool vh_hash_bulk(const void *d, size_t n, uint64_t pos, uint8_t *first, size_t firstN, uint8_t *fold, unsigned lanes, uint64_t *sum);
// value in [lo, hi]
static inline uint64_t vh_range(const char *name, uint64_t lo, uint64_t hi)
{
    uint64_t v = vh_u64(name); vh_assume(vh_and(v >= lo, v <= hi)); return v;
}
// concrete value in [lo, hi] (one path per value)
static inline uint64_t vh_choose(const char *name, uint64_t lo, uint64_t hi)
{
    return vh_concretize(vh_range(name, lo, hi));
}
#endif
