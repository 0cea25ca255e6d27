// Memory arena for the code under test. Every allocation of the library goes to
// a region at a fixed address, so that a complete state of the library (heap and
// static data) can be saved and restored with plain copies. This is what makes
// exhaustive depth-first exploration of the real code affordable.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
void *vf_malloc(size_t n);
void *vf_calloc(size_t n, size_t m);
void *vf_realloc(void *p, size_t n);
void vf_free(void *p);
char *vf_strdup(const char *s);
char *vf_strndup(const char *s, size_t n);
void *vf_reallocarray(void *p, size_t n, size_t m);
}

namespace arena {

extern bool refused;         // an allocation was larger than the arena
extern bool asan;            // linked with AddressSanitizer: no reuse, redzones
struct Header {
	uint64_t top;            // first unused byte
	uint64_t live;           // live blocks
	uint64_t allocs;         // allocation calls since the last fail_reset()
	uint64_t fail_at;        // 1-based index of the allocation that fails
	uint64_t fail_all;       // all later ones fail, too
	uint64_t failed;         // number of failed allocations
	uint64_t freelist[48];
};

void init();                 // map and reset
void reset();                // throw away everything
Header *hdr();
size_t snap_size();          // bytes needed by save()
size_t snap_size_for(uint64_t top);
size_t save(void *buf);
void restore(const void *buf);
uint64_t mem_hash();         // of all memory of the library
uint64_t hash_of(const void *p, size_t n, uint64_t seed);
bool inside(const void *p);  // pointer into the used part of the arena
uint64_t size_of(const void *p);
void copy(void *dst, const void *src, size_t n);   // not intercepted

void fail_set(uint64_t at, bool all);
void fail_off();

} // namespace arena
