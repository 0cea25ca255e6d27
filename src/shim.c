#include <errno.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include "libtsm.h"
#include "libtsm-int.h"
#include "shl-array.h"
#include "shl-htable.h"
#include "shl-ring.h"
#include "shl-pty.h"
#include "shim.h"

int sh_array_new(void **out, size_t e, size_t i) { return shl_array_new((struct shl_array **)out, e, i); }
void sh_array_free(void *a) { shl_array_free(a); }
int sh_array_push(void *a, const void *d) { return shl_array_push(a, d); }
void sh_array_pop(void *a) { shl_array_pop(a); }
int sh_array_zresize(void *a, size_t n) { return shl_array_zresize(a, n); }
size_t sh_array_len(void *a) { return shl_array_get_length(a); }
size_t sh_array_bsize(void *a) { return shl_array_get_bsize(a); }
size_t sh_array_esize(void *a) { return shl_array_get_element_size(a); }
void *sh_array_data(void *a) { return shl_array_get_array(a); }

size_t sh_ring_sizeof(void) { return sizeof(struct shl_ring); }
void sh_ring_flush(void *r) { shl_ring_flush(r); }
void sh_ring_clear(void *r) { shl_ring_clear(r); }
size_t sh_ring_peek(void *r, struct sh_iov *v) { return shl_ring_peek(r, (struct iovec *)v); }
size_t sh_ring_copy(void *r, void *b, size_t n) { return shl_ring_copy(r, b, n); }
int sh_ring_push(void *r, const void *d, size_t n) { return shl_ring_push(r, d, n); }
void sh_ring_pull(void *r, size_t n) { shl_ring_pull(r, n); }
size_t sh_ring_size(void *r) { return shl_ring_get_size(r); }

size_t sh_htable_sizeof(void) { return sizeof(struct shl_htable); }
void sh_htable_init(void *h, bool (*cmp)(const void *, const void *), size_t (*rehash)(const void *, void *), void *priv) { shl_htable_init(h, cmp, rehash, priv); }
void sh_htable_clear(void *h, void (*cb)(void *, void *), void *ctx) { shl_htable_clear(h, cb, ctx); }
void sh_htable_visit(void *h, void (*cb)(void *, void *), void *ctx) { shl_htable_visit(h, cb, ctx); }
bool sh_htable_lookup(void *h, const void *o, size_t hash, void **out) { return shl_htable_lookup(h, o, hash, out); }
int sh_htable_insert(void *h, const void *o, size_t hash) { return shl_htable_insert(h, o, hash); }
bool sh_htable_remove(void *h, const void *o, size_t hash, void **out) { return shl_htable_remove(h, o, hash, out); }
void sh_hul_init(void *h) { shl_htable_init_ulong(h); }
void sh_hul_visit(void *h, void (*cb)(void *, void *), void *ctx) { shl_htable_visit_ulong(h, (void (*)(unsigned long *, void *))cb, ctx); }
void sh_hul_clear(void *h, void (*cb)(void *, void *), void *ctx) { shl_htable_clear_ulong(h, (void (*)(unsigned long *, void *))cb, ctx); }
bool sh_hul_lookup(void *h, unsigned long k, unsigned long **out) { return shl_htable_lookup_ulong(h, k, out); }
int sh_hul_insert(void *h, const unsigned long *k) { return shl_htable_insert_ulong(h, k); }
bool sh_hul_remove(void *h, unsigned long k, unsigned long **out) { return shl_htable_remove_ulong(h, k, out); }
void sh_hstr_init(void *h) { shl_htable_init_str(h); }
void sh_hstr_visit(void *h, void (*cb)(void *, void *), void *ctx) { shl_htable_visit_str(h, (void (*)(char **, void *))cb, ctx); }
void sh_hstr_clear(void *h, void (*cb)(void *, void *), void *ctx) { shl_htable_clear_str(h, (void (*)(char **, void *))cb, ctx); }
bool sh_hstr_lookup(void *h, const char *k, size_t *hash, char ***out) { return shl_htable_lookup_str(h, k, hash, out); }
int sh_hstr_insert(void *h, char **k, size_t *hash) { return shl_htable_insert_str(h, k, hash); }
bool sh_hstr_remove(void *h, const char *k, size_t *hash, char ***out) { return shl_htable_remove_str(h, k, hash, out); }

int sh_sym_new(void **out) { return tsm_symbol_table_new((struct tsm_symbol_table **)out); }
void sh_sym_ref(void *t) { tsm_symbol_table_ref(t); }
void sh_sym_unref(void *t) { tsm_symbol_table_unref(t); }
uint32_t sh_sym_make(uint32_t c) { return tsm_symbol_make(c); }
uint32_t sh_sym_append(void *t, uint32_t s, uint32_t c) { return tsm_symbol_append(t, s, c); }
const uint32_t *sh_sym_get(void *t, uint32_t *s, size_t *n) { return tsm_symbol_get(t, s, n); }
unsigned int sh_sym_width(void *t, uint32_t s) { return tsm_symbol_get_width(t, s); }
uint32_t sh_sym_default(void) { return tsm_symbol_default; }
size_t sh_sym_maxlen(void) { return TSM_UCS4_MAXLEN; }
uint32_t sh_sym_limit(void) { return TSM_UCS4_MAX; }

int sh_utf8_new(void **out) { return tsm_utf8_mach_new((struct tsm_utf8_mach **)out); }
void sh_utf8_free(void *m) { tsm_utf8_mach_free(m); }
int sh_utf8_feed(void *m, char c, uint32_t *ch)
{
	int r = tsm_utf8_mach_feed(m, c);
	if (r == TSM_UTF8_ACCEPT || r == TSM_UTF8_REJECT) {
		*ch = tsm_utf8_mach_get(m);
		return r == TSM_UTF8_ACCEPT ? 1 : 2;
	}
	return 0;
}
void sh_utf8_reset(void *m) { tsm_utf8_mach_reset(m); }

pid_t sh_pty_open(void **out, void (*fn)(void *, void *, char *, size_t), void *data, unsigned short w, unsigned short h)
{ return shl_pty_open((struct shl_pty **)out, (shl_pty_input_fn)fn, data, w, h); }
void sh_pty_ref(void *p) { shl_pty_ref(p); }
void sh_pty_unref(void *p) { shl_pty_unref(p); }
void sh_pty_close(void *p) { shl_pty_close(p); }
bool sh_pty_is_open(void *p) { return shl_pty_is_open(p); }
int sh_pty_get_fd(void *p) { return shl_pty_get_fd(p); }
pid_t sh_pty_get_child(void *p) { return shl_pty_get_child(p); }
int sh_pty_dispatch(void *p) { return shl_pty_dispatch(p); }
int sh_pty_write(void *p, const char *d, size_t n) { return shl_pty_write(p, d, n); }
int sh_pty_signal(void *p, int sig) { return shl_pty_signal(p, sig); }
int sh_pty_resize(void *p, unsigned short w, unsigned short h) { return shl_pty_resize(p, w, h); }
int sh_bridge_new(void) { return shl_pty_bridge_new(); }
void sh_bridge_free(int b) { shl_pty_bridge_free(b); }
int sh_bridge_dispatch_pty(int b, void *p) { return shl_pty_bridge_dispatch_pty(b, p); }
int sh_bridge_dispatch(int b, int t) { return shl_pty_bridge_dispatch(b, t); }
int sh_bridge_add(int b, void *p) { return shl_pty_bridge_add(b, p); }
void sh_bridge_remove(int b, void *p) { shl_pty_bridge_remove(b, p); }
