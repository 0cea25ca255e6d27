#include "arena.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <unistd.h>

extern "C" {
void __asan_poison_memory_region(void const volatile *, size_t) __attribute__((weak));
void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak));
extern char __start_vfdata[] __attribute__((weak));
extern char __stop_vfdata[] __attribute__((weak));
extern char __start_vfbss[] __attribute__((weak));
extern char __stop_vfbss[] __attribute__((weak));
}

namespace arena {

static char *const BASE = (char *)0x200000000000ull;
static const size_t SIZE = 1ull << 30;
static const size_t GRANULE = 16;
bool asan;

// sizes are rounded to 16 byte granules up to 512 bytes, to powers of two above
struct Block {
	uint64_t size;
	uint64_t magic;
};
static const uint64_t LIVE = 0xa110ca7ed0b10c4bull;
static const uint64_t DEAD = 0xdeadb10cdeadb10cull;

Header *hdr() { return (Header *)BASE; }

void copy(void *dst, const void *src, size_t n)
{
	if (!asan) {
		memcpy(dst, src, n);
		return;
	}
	asm volatile("rep movsb" : "+D"(dst), "+S"(src), "+c"(n) : : "memory");
}

static void fill(void *dst, int c, size_t n)
{
	if (!asan) {
		memset(dst, c, n);
		return;
	}
	asm volatile("rep stosb" : "+D"(dst), "+c"(n) : "a"(c) : "memory");
}

void init()
{
	asan = __asan_poison_memory_region != nullptr;
	void *p = mmap(BASE, SIZE, PROT_READ | PROT_WRITE,
		       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != BASE) {
		perror("arena mmap");
		_exit(70);
	}
	reset();
}

void reset()
{
	Header *h = hdr();
	if (asan) {
		size_t t = h->top;
		if (t)
			__asan_unpoison_memory_region(BASE, t);
	}
	memset(h, 0, sizeof(*h));
	h->top = (sizeof(Header) + 63) & ~63ull;
}

static int bucket(size_t n)
{
	if (n <= 512)
		return (n + GRANULE - 1) / GRANULE; // 1..32
	int b = 33;
	size_t s = 1024;
	while (s < n) {
		s *= 2;
		++b;
	}
	return b < 48 ? b : -1;
}

static size_t bsize(int b)
{
	if (b <= 32)
		return b * GRANULE;
	return 1024ull << (b - 33);
}

bool refused;

static void *alloc(size_t n)
{
	Header *h = hdr();
	size_t req = n;
	if (n > SIZE / 2)
		refused = true;
	if (asan) {
		// [block header][user, exact][>= 64 bytes of redzone]
		if (n > SIZE / 2)
			return nullptr;
		size_t tot = sizeof(Block) + 16 + ((n + 15) & ~15ull) + 64;
		if (h->top + tot > SIZE)
			return nullptr;
		char *p = BASE + h->top;
		h->top += tot;
		Block *b = (Block *)p;
		__asan_unpoison_memory_region(p, tot);
		b->size = req;
		b->magic = LIVE;
		char *u = p + sizeof(Block) + 16;
		fill(u, 0xcb, n);
		__asan_poison_memory_region(p, sizeof(Block) + 16);
		__asan_poison_memory_region(u + n, tot - sizeof(Block) - 16 - n);
		++h->live;
		return u;
	}
	int k = bucket(n ? n : 1);
	if (k < 0 || n > SIZE / 2)
		return nullptr;
	char *p;
	if (h->freelist[k]) {
		p = BASE + h->freelist[k];
		memcpy(&h->freelist[k], p + sizeof(Block), 8);
	} else {
		size_t tot = sizeof(Block) + bsize(k);
		if (h->top + tot > SIZE)
			return nullptr;
		p = BASE + h->top;
		h->top += tot;
	}
	Block *b = (Block *)p;
	b->size = req;
	b->magic = LIVE;
	memset(p + sizeof(Block), 0xcb, bsize(k));
	++h->live;
	return p + sizeof(Block);
}

static Block *block(void *u)
{
	char *p = (char *)u - sizeof(Block) - (asan ? 16 : 0);
	if (p < BASE || p >= BASE + hdr()->top) {
		fprintf(stderr, "free of a pointer that was never allocated: %p\n", u);
		abort();
	}
	return (Block *)p;
}

static void check(Block *b, void *u)
{
	if (b->magic != LIVE) {
		fprintf(stderr, "%s: %p\n", b->magic == DEAD ? "double free" : "invalid free", u);
		abort();
	}
}

static void dealloc(void *u)
{
	Header *h = hdr();
	Block *b = block(u);
	if (asan)
		__asan_unpoison_memory_region(b, sizeof(*b));
	check(b, u);
	b->magic = DEAD;
	--h->live;
	if (asan) {
		__asan_unpoison_memory_region(u, b->size);
		fill(u, 0xdd, b->size);
		__asan_poison_memory_region(u, b->size);
		__asan_poison_memory_region(b, sizeof(*b));
		return;
	}
	int k = bucket(b->size ? b->size : 1);
	memset(u, 0xdd, bsize(k));
	memcpy(u, &h->freelist[k], 8);
	h->freelist[k] = (char *)b - BASE;
}

uint64_t size_of(const void *u)
{
	Block *b = block((void *)u);
	uint64_t s;
	copy(&s, &b->size, 8);
	return s;
}

bool inside(const void *p)
{
	return (const char *)p >= BASE && (const char *)p < BASE + hdr()->top;
}

static bool fails()
{
	Header *h = hdr();
	++h->allocs;
	if (h->fail_at && (h->allocs == h->fail_at || (h->fail_all && h->allocs > h->fail_at))) {
		++h->failed;
		return true;
	}
	return false;
}

void fail_set(uint64_t at, bool all)
{
	Header *h = hdr();
	h->allocs = 0;
	h->failed = 0;
	h->fail_at = at;
	h->fail_all = all;
}

void fail_off()
{
	hdr()->fail_at = 0;
	hdr()->fail_all = 0;
}

// snapshots: [u64 top][heap up to top][shadow if asan][static data]
static size_t shadow_len(size_t top) { return asan ? (top + 7) / 8 : 0; }
static char *shadow() { return (char *)(((uintptr_t)BASE >> 3) + 0x7fff8000ull); }
static size_t data_len() { return (size_t)(__stop_vfdata - __start_vfdata); }
static size_t bss_len() { return (size_t)(__stop_vfbss - __start_vfbss); }

size_t snap_size_for(uint64_t t) { return 8 + t + shadow_len(t) + data_len() + bss_len(); }
size_t snap_size() { return snap_size_for(hdr()->top); }

size_t save(void *buf)
{
	char *d = (char *)buf;
	uint64_t t = hdr()->top;
	memcpy(d, &t, 8);
	d += 8;
	copy(d, BASE, t);
	d += t;
	if (asan) {
		copy(d, shadow(), shadow_len(t));
		d += shadow_len(t);
	}
	copy(d, __start_vfdata, data_len());
	d += data_len();
	copy(d, __start_vfbss, bss_len());
	d += bss_len();
	return d - (char *)buf;
}

static uint64_t hash_bytes(const char *p, size_t n, uint64_t h)
{
	uint64_t a[4] = { h, h ^ 0x9e3779b97f4a7c15ull, h ^ 0xc2b2ae3d27d4eb4full, h ^ 0x165667b19e3779f9ull }, w[4];
	for (; n >= 32; n -= 32, p += 32) {
		memcpy(w, p, 32);
		for (int i = 0; i < 4; ++i) {
			a[i] = (a[i] ^ w[i]) * 0x9ddfea08eb382d69ull;
			a[i] ^= a[i] >> 29;
		}
	}
	memset(w, 0, 32);
	memcpy(w, p, n);
	for (int i = 0; i < 4; ++i) h = (h ^ a[i] ^ w[i]) * 0xff51afd7ed558ccdull, h ^= h >> 32;
	return h;
}

uint64_t hash_of(const void *p, size_t n, uint64_t h) { return hash_bytes((const char *)p, n, h); }

uint64_t mem_hash()
{
	// the counters of allocation calls are no state of the library
	Header *a = hdr();
	uint64_t c = a->allocs, d = a->failed;
	if (!a->fail_at) a->allocs = a->failed = 0;
	uint64_t h = hash_bytes((const char *)BASE, a->top, 1);
	a->allocs = c;
	a->failed = d;
	h = hash_bytes(__start_vfdata, data_len(), h);
	return hash_bytes(__start_vfbss, bss_len(), h) | 1;
}

void restore(const void *buf)
{
	const char *s = (const char *)buf;
	uint64_t t, old = hdr()->top;
	memcpy(&t, s, 8);
	s += 8;
	copy(BASE, s, t);
	s += t;
	if (asan) {
		copy(shadow(), s, shadow_len(t));
		s += shadow_len(t);
		if (old > t)
			__asan_poison_memory_region(BASE + t, old - t);
	}
	copy(__start_vfdata, s, data_len());
	s += data_len();
	copy(__start_vfbss, s, bss_len());
}

} // namespace arena

extern "C" {

void *vf_malloc(size_t n)
{
	return arena::fails() ? nullptr : arena::alloc(n);
}

void *vf_calloc(size_t n, size_t m)
{
	size_t t;
	if (__builtin_mul_overflow(n, m, &t) || arena::fails())
		return nullptr;
	void *p = arena::alloc(t);
	if (p)
		memset(p, 0, t);
	return p;
}

void vf_free(void *p)
{
	if (p)
		arena::dealloc(p);
}

void *vf_realloc(void *p, size_t n)
{
	if (!p)
		return vf_malloc(n);
	if (arena::fails())
		return nullptr;
	uint64_t old = arena::size_of(p);
	void *q = arena::alloc(n);   // always moves, so that stale pointers show
	if (!q)
		return nullptr;
	memcpy(q, p, old < n ? old : n);
	arena::dealloc(p);
	return q;
}

char *vf_strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char *p = (char *)vf_malloc(n);
	if (p)
		memcpy(p, s, n);
	return p;
}

char *vf_strndup(const char *s, size_t n)
{
	size_t l = strnlen(s, n);
	char *p = (char *)vf_malloc(l + 1);
	if (p) {
		memcpy(p, s, l);
		p[l] = 0;
	}
	return p;
}

void *vf_reallocarray(void *p, size_t n, size_t m)
{
	size_t t;
	if (__builtin_mul_overflow(n, m, &t)) {
		arena::hdr()->allocs++;
		return nullptr;
	}
	return vf_realloc(p, t);
}
}
