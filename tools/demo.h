/* helpers for the demonstrations */
#include <errno.h>
#include <signal.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "libtsm.h"
#include "libtsm-int.h"

#define T_MAX 200
struct dcell { uint32_t ch; unsigned w; struct tsm_screen_attr a; tsm_age_t age; };
static struct dcell D[T_MAX][T_MAX];
static struct tsm_screen *S;
static struct tsm_vte *V;
static char OUTB[65536];
static size_t OUTN;

static void t_write(struct tsm_vte *v, const char *u8, size_t len, void *d)
{
	(void)v; (void)d;
	if (OUTN + len < sizeof(OUTB)) {
		memcpy(OUTB + OUTN, u8, len);
		OUTN += len;
	}
	OUTB[OUTN] = 0;
}

static void t_new(unsigned w, unsigned h)
{
	alarm(60);
	if (tsm_screen_new(&S, NULL, NULL) || tsm_screen_resize(S, w, h) ||
	    tsm_vte_new(&V, S, t_write, NULL, NULL, NULL))
		exit(3);
}

static void t_free(void)
{
	tsm_vte_unref(V);
	tsm_screen_unref(S);
}

static void t_in(const char *s) { tsm_vte_input(V, s, strlen(s)); }

static int t_cb(struct tsm_screen *con, uint64_t id, const uint32_t *ch, size_t len, unsigned w,
		unsigned x, unsigned y, const struct tsm_screen_attr *a, tsm_age_t age, void *d)
{
	(void)con; (void)id; (void)d;
	if (x < T_MAX && y < T_MAX) {
		D[y][x].ch = len ? ch[0] : ' ';
		D[y][x].w = w;
		D[y][x].a = *a;
		D[y][x].age = age;
	}
	return 0;
}

static tsm_age_t t_draw(void) { return tsm_screen_draw(S, t_cb, NULL); }

static const char *t_row(unsigned y)
{
	static char b[4][T_MAX + 1];
	static int n;
	unsigned i, w = tsm_screen_get_width(S);
	char *r = b[n++ & 3];
	t_draw();
	for (i = 0; i < w; ++i)
		r[i] = D[y][i].ch < 128 ? D[y][i].ch : '?';
	while (i && r[i - 1] == ' ')
		--i;
	r[i] = 0;
	return r;
}

#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
#define ROW(y, s) do { const char *r_ = t_row(y); if (strcmp(r_, s)) { fprintf(stderr, "FAILED line %d: row %d is \"%s\", not \"%s\"\n", __LINE__, (int)(y), r_, s); exit(1); } } while (0)
#define CUR(x, y) do { if (tsm_screen_get_cursor_x(S) != (x) || tsm_screen_get_cursor_y(S) != (y)) { fprintf(stderr, "FAILED line %d: cursor at %u,%u\n", __LINE__, tsm_screen_get_cursor_x(S), tsm_screen_get_cursor_y(S)); exit(1); } } while (0)
#define SENT(s) do { if (OUTN != sizeof(s) - 1 || memcmp(OUTB, s, OUTN)) { fprintf(stderr, "FAILED line %d: sent \"%s\"\n", __LINE__, OUTB); exit(1); } OUTN = 0; OUTB[0] = 0; } while (0)
