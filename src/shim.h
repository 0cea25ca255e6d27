// plain functions around the inline helpers and internal interfaces of the library
struct sh_iov { void *base; size_t len; };
/* array */
int sh_array_new(void **out, size_t elem, size_t initial);
void sh_array_free(void *a);
int sh_array_push(void *a, const void *d);
void sh_array_pop(void *a);
int sh_array_zresize(void *a, size_t n);
size_t sh_array_len(void *a);
size_t sh_array_bsize(void *a);
size_t sh_array_esize(void *a);
void *sh_array_data(void *a);
/* ring */
size_t sh_ring_sizeof(void);
void sh_ring_flush(void *r);
void sh_ring_clear(void *r);
size_t sh_ring_peek(void *r, struct sh_iov *v);
size_t sh_ring_copy(void *r, void *b, size_t n);
int sh_ring_push(void *r, const void *d, size_t n);
void sh_ring_pull(void *r, size_t n);
size_t sh_ring_size(void *r);
/* htable */
size_t sh_htable_sizeof(void);
void sh_htable_init(void *h, bool (*cmp)(const void *, const void *), size_t (*rehash)(const void *, void *), void *priv);
void sh_htable_clear(void *h, void (*cb)(void *, void *), void *ctx);
void sh_htable_visit(void *h, void (*cb)(void *, void *), void *ctx);
bool sh_htable_lookup(void *h, const void *o, size_t hash, void **out);
int sh_htable_insert(void *h, const void *o, size_t hash);
bool sh_htable_remove(void *h, const void *o, size_t hash, void **out);
void sh_hul_init(void *h);
void sh_hul_visit(void *h, void (*cb)(void *, void *), void *ctx);
void sh_hul_clear(void *h, void (*cb)(void *, void *), void *ctx);
bool sh_hul_lookup(void *h, unsigned long k, unsigned long **out);
int sh_hul_insert(void *h, const unsigned long *k);
bool sh_hul_remove(void *h, unsigned long k, unsigned long **out);
void sh_hstr_init(void *h);
void sh_hstr_visit(void *h, void (*cb)(void *, void *), void *ctx);
void sh_hstr_clear(void *h, void (*cb)(void *, void *), void *ctx);
bool sh_hstr_lookup(void *h, const char *k, size_t *hash, char ***out);
int sh_hstr_insert(void *h, char **k, size_t *hash);
bool sh_hstr_remove(void *h, const char *k, size_t *hash, char ***out);
/* symbols */
int sh_sym_new(void **out);
void sh_sym_ref(void *t);
void sh_sym_unref(void *t);
uint32_t sh_sym_make(uint32_t c);
uint32_t sh_sym_append(void *t, uint32_t s, uint32_t c);
const uint32_t *sh_sym_get(void *t, uint32_t *s, size_t *n);
unsigned int sh_sym_width(void *t, uint32_t s);
uint32_t sh_sym_default(void);
size_t sh_sym_maxlen(void);
uint32_t sh_sym_limit(void);
/* utf8: returns state; *ch is set if a character is delivered */
int sh_utf8_new(void **out);
void sh_utf8_free(void *m);
int sh_utf8_feed(void *m, char c, uint32_t *ch); /* 0 pending, 1 accept, 2 reject */
void sh_utf8_reset(void *m);
/* pty */
pid_t sh_pty_open(void **out, void (*fn)(void *, void *, char *, size_t), void *data, unsigned short w, unsigned short h);
void sh_pty_ref(void *p);
void sh_pty_unref(void *p);
void sh_pty_close(void *p);
bool sh_pty_is_open(void *p);
int sh_pty_get_fd(void *p);
pid_t sh_pty_get_child(void *p);
int sh_pty_dispatch(void *p);
int sh_pty_write(void *p, const char *d, size_t n);
int sh_pty_signal(void *p, int sig);
int sh_pty_resize(void *p, unsigned short w, unsigned short h);
int sh_bridge_new(void);
void sh_bridge_free(int b);
int sh_bridge_dispatch_pty(int b, void *p);
int sh_bridge_dispatch(int b, int timeout);
int sh_bridge_add(int b, void *p);
void sh_bridge_remove(int b, void *p);
