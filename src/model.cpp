#include "model.hpp"

namespace m {

static size_t al(size_t n) { return (n + 15) & ~(size_t)15; }

void Term::alloc(uint32_t mw, uint32_t mh, uint32_t ms, uint32_t sw)
{
	SW = sw ? sw : mw;
	MW = mw; MH = mh; MS = ms ? ms : 1;
	free(buf);
	size_t o0 = al(sizeof(Scalars)), o1 = o0 + al(MW), o2 = o1 + sizeof(Cell) * MW * MH,
	       o3 = o2 + sizeof(Cell) * MW * MH, o4 = o3 + sizeof(Cell) * SW * MS,
	       o5 = o4 + sizeof(SbMeta) * MS;
	bufsize = o5;
	buf = (uint8_t *)calloc(1, bufsize);
	s = (Scalars *)buf;
	tabs = (bool *)(buf + o0);
	mainc = (Cell *)(buf + o1);
	altc = (Cell *)(buf + o2);
	sbc = (Cell *)(buf + o3);
	sbm = (SbMeta *)(buf + o4);
}

static inline uint64_t mix(uint64_t h, uint64_t v)
{
	h ^= v;
	h *= 0x9e3779b97f4a7c15ull;
	return h ^ (h >> 29);
}

static uint64_t hbytes(uint64_t h, const void *p, size_t n)
{
	const uint8_t *b = (const uint8_t *)p;
	while (n >= 8) {
		uint64_t v;
		memcpy(&v, b, 8);
		h = mix(h, v);
		b += 8;
		n -= 8;
	}
	uint64_t v = 0;
	memcpy(&v, b, n);
	return n ? mix(h, v) : h;
}

uint64_t Term::hash() const
{
	Scalars t = *s;
	uint64_t h = 0x1234567;
	// canonical form: line ids are only relevant relative to the last one
	t.sbstart = 0;
	if (t.selactive && t.s0.kind == SEL_LINE) t.s0.id -= s->lastid;
	if (t.selactive && t.s1.kind == SEL_LINE) t.s1.id -= s->lastid;
	if (!t.selactive) { memset(&t.s0, 0, sizeof(t.s0)); memset(&t.s1, 0, sizeof(t.s1)); }
	t.lastid = 0;
	h = hbytes(h, &t, sizeof(t));
	h = hbytes(h, tabs, s->W);
	for (uint32_t y = 0; y < s->H; ++y) {
		h = hbytes(h, mainc + (size_t)y * MW, sizeof(Cell) * s->W);
		h = hbytes(h, altc + (size_t)y * MW, sizeof(Cell) * s->W);
	}
	for (uint32_t i = 0; i < s->sbcount; ++i) {
		uint32_t k = sbslot(i);
		h = mix(h, sbm[k].len);
		h = hbytes(h, sbc + (size_t)k * SW, sizeof(Cell) * sbm[k].len);
	}
	return mix(h, 0x77);
}

void Term::init(uint32_t w, uint32_t h, uint32_t maxsb)
{
	memset(buf, 0, bufsize);
	s->W = w; s->H = h;
	s->mbot = h - 1;
	s->maxsb = maxsb;
	default_tabs();
	s->pal = 255;
	s->vdef.fc = 16;
	s->vdef.bc = 17;
	to_rgb(s->vdef);
	s->argv[0] = s->argv[1] = 0;
	vte_reset();
	erase_both();
	wr.clear(); osc.clear(); mouse.clear();
}

// ------------------------------------------------------------------ screen

void Term::evict()
{
	uint64_t id = sbm[s->sbstart].id;
	s->sbstart = (s->sbstart + 1) % MS;
	--s->sbcount;
	SelPos *ps[2] = { &s->s0, &s->s1 };
	for (SelPos *p : ps)
		if (s->selactive && p->kind == SEL_LINE && p->id == id) {
			p->kind = SEL_TOP;
			p->id = 0;
		}
}

void Term::push_sb(const Cell *line)
{
	++s->lastid;
	if (!s->maxsb)
		return;
	bool scrolled = s->view < s->sbcount;
	if (s->sbcount >= s->maxsb) {
		evict();
		if (scrolled) {
			// fixed: stay on the same text; otherwise keep the
			// distance from the oldest line
			if ((s->flags & F_FIXED) && s->view > 0)
				--s->view;
		}
	}
	if (s->sbcount >= MS) {
		fprintf(stderr, "model: scrollback bound exceeded\n");
		abort();
	}
	uint32_t k = sbslot(s->sbcount);
	sbm[k].id = s->lastid;
	sbm[k].len = s->W;
	if (s->W > SW)
		abort();   // the configuration promised not to do this
	memcpy(sbc + (size_t)k * SW, line, sizeof(Cell) * s->W);
	++s->sbcount;
	if (!scrolled)
		s->view = s->sbcount;
}

void Term::sel_shift(SelPos &p, uint32_t n)
{
	if (p.kind != SEL_ROW)
		return;
	p.row -= (int32_t)n;
	if (p.row >= 0)
		return;
	// the row is now a line of the scrollback, if that still has it
	uint64_t back = (uint64_t)(-p.row);
	p.row = 0;
	if (back <= s->sbcount) {
		p.kind = SEL_LINE;
		p.id = sbm[sbslot(s->sbcount - back)].id;
	} else {
		p.kind = SEL_TOP;
	}
}

// whether a row of the screen leaves it by scrolling
bool Term::sel_lost(const SelPos &p, uint32_t n, bool down)
{
	return p.kind == SEL_ROW && (down ? p.row + (int64_t)n >= (int64_t)s->H : p.row < (int64_t)n);
}

void Term::scroll_up(uint32_t n)
{
	uint32_t max = s->mbot + 1 - s->mtop;
	if (!n)
		return;
	if (n > max)
		n = max;
	bool alt = s->flags & F_ALT;
	// where rows of the alternate screen go to is not defined
	if (s->selactive && (max != s->H || (alt && (sel_lost(s->s0, n, false) || sel_lost(s->s1, n, false)))))
		s->selundef = 1;
	if (!alt)
		for (uint32_t i = 0; i < n; ++i)
			push_sb(row(s->mtop + i));
	if (n < max)
		memmove(row(s->mtop), row(s->mtop + n), sizeof(Cell) * MW * (max - n));
	for (uint32_t i = 0; i < n; ++i)
		fill(row(s->mbot - i), s->W, s->def);
	if (s->selactive) {
		sel_shift(s->s0, n);
		sel_shift(s->s1, n);
	}
}

void Term::scroll_down(uint32_t n)
{
	uint32_t max = s->mbot + 1 - s->mtop;
	if (!n)
		return;
	if (n > max)
		n = max;
	if (s->selactive && (max != s->H || sel_lost(s->s0, n, true) || sel_lost(s->s1, n, true)))
		s->selundef = 1;
	else if (s->selactive) {
		// the selection follows its text
		if (s->s0.kind == SEL_ROW) s->s0.row += (int32_t)n;
		if (s->s1.kind == SEL_ROW) s->s1.row += (int32_t)n;
	}
	if (n < max)
		memmove(row(s->mtop + n), row(s->mtop), sizeof(Cell) * MW * (max - n));
	for (uint32_t i = 0; i < n; ++i)
		fill(row(s->mtop + i), s->W, s->def);
}

void Term::scr_write(uint32_t ch, const Attr &a)
{
	uint32_t w = char_width(ch);
	if (!w)
		return;
	if (s->cx >= s->W) {
		if (s->flags & F_WRAP) {
			s->cx = 0;
			if (s->cy == s->mbot)
				scroll_up(1);
			else if (s->cy + 1 < s->H)
				++s->cy;
		} else {
			s->cx = s->W - 1;
		}
	}
	Cell *r = row(s->cy);
	uint32_t x = s->cx;
	if ((s->flags & F_INSERT) && x + w < s->W)
		memmove(r + x + w, r + x, sizeof(Cell) * (s->W - x - w));
	r[x].ch = ch;
	r[x].w = (uint8_t)w;
	r[x].at = a;
	for (uint32_t i = 1; i < w && x + i < s->W; ++i)
		r[x + i].w = 0;
	s->cx = std::min(x + w, s->W);
}

void Term::move_to(uint64_t x, uint64_t y)
{
	uint64_t last = s->H - 1;
	if (s->flags & F_ORIGIN) {
		last = s->mbot;
		y += s->mtop;
	}
	s->cx = (uint32_t)std::min<uint64_t>(x, s->W - 1);
	s->cy = (uint32_t)std::min<uint64_t>(y, last);
}

// position of the screen; in origin mode the cursor stays in the region
void Term::move_abs(uint64_t x, uint64_t y)
{
	uint64_t last = s->H - 1;
	if (s->flags & F_ORIGIN) {
		last = s->mbot;
		y = std::max<uint64_t>(y, s->mtop);
	}
	s->cx = (uint32_t)std::min<uint64_t>(x, s->W - 1);
	s->cy = (uint32_t)std::min<uint64_t>(y, last);
}

void Term::move_up(uint32_t n, bool scroll)
{
	uint32_t lim = s->cy >= s->mtop ? s->mtop : 0;
	uint32_t d = s->cy - lim;
	if (n > d) {
		if (scroll && s->cy >= s->mtop)
			scroll_down(n - d);
		s->cy = lim;
	} else {
		s->cy -= n;
	}
}

void Term::move_down(uint32_t n, bool scroll)
{
	uint32_t lim = s->cy <= s->mbot ? s->mbot : s->H - 1;
	uint32_t d = lim - s->cy;
	if (n > d) {
		if (scroll && s->cy <= s->mbot)
			scroll_up(n - d);
		s->cy = lim;
	} else {
		s->cy += n;
	}
}

void Term::move_left(uint32_t n)
{
	if (!n)
		return;
	uint32_t x = curx();
	s->cx = n > x ? 0 : x - n;
}

void Term::move_right(uint32_t n)
{
	if (!n)
		return;
	s->cx = (uint32_t)std::min<uint64_t>((uint64_t)s->cx + n, s->W - 1);
}

void Term::tab_right(uint32_t n)
{
	if (!n)
		return;
	uint32_t x = s->cx;
	while (n-- && x < s->W) {
		++x;
		while (x < s->W && !tabs[x])
			++x;
	}
	s->cx = std::min(x, s->W - 1);
}

void Term::tab_left(uint32_t n)
{
	if (!n)
		return;
	uint32_t x = s->cx;
	while (n-- && x > 0) {
		--x;
		while (x > 0 && !tabs[x])
			--x;
	}
	s->cx = x;
}

void Term::insert_lines(uint32_t n)
{
	if (!n || !in_region())
		return;
	uint32_t max = s->mbot - s->cy + 1;
	n = std::min(n, max);
	if (s->selactive)
		s->selundef = 1;
	if (n < max)
		memmove(row(s->cy + n), row(s->cy), sizeof(Cell) * MW * (max - n));
	for (uint32_t i = 0; i < n; ++i)
		fill(row(s->cy + i), s->W, s->def);
	s->cx = 0;
}

void Term::delete_lines(uint32_t n)
{
	if (!n || !in_region())
		return;
	uint32_t max = s->mbot - s->cy + 1;
	n = std::min(n, max);
	if (s->selactive)
		s->selundef = 1;
	if (n < max)
		memmove(row(s->cy), row(s->cy + n), sizeof(Cell) * MW * (max - n));
	for (uint32_t i = 0; i < n; ++i)
		fill(row(s->mbot - i), s->W, s->def);
	s->cx = 0;
}

void Term::insert_chars(uint32_t n)
{
	if (!n)
		return;
	s->cx = curx();
	uint32_t max = s->W - s->cx;
	n = std::min(n, max);
	Cell *r = row(s->cy) + s->cx;
	memmove(r + n, r, sizeof(Cell) * (max - n));
	fill(r, n, s->def);
}

void Term::delete_chars(uint32_t n)
{
	if (!n)
		return;
	s->cx = curx();
	uint32_t max = s->W - s->cx;
	n = std::min(n, max);
	Cell *r = row(s->cy) + s->cx;
	memmove(r, r + n, sizeof(Cell) * (max - n));
	fill(r + max - n, n, s->def);
}

// cells in reading order from (x0,y0) to (x1,y1), inclusive
void Term::erase(uint32_t x0, uint32_t y0, uint32_t x1, uint32_t y1, bool prot)
{
	Cell b = blank(s->def);
	for (uint64_t p = (uint64_t)y0 * s->W + x0; p <= (uint64_t)y1 * s->W + x1; ++p) {
		Cell &c = row(p / s->W)[p % s->W];
		if (!(prot && (c.at.bits & PROTECT)))
			c = b;
	}
}

void Term::erase_chars(uint32_t n)
{
	if (!n)
		return;
	uint32_t x = curx();
	n = std::min(n, s->W - x);
	erase(x, s->cy, x + n - 1, s->cy, false);
}

void Term::erase_display(int mode, bool prot)
{
	if (mode == 0)
		erase(curx(), s->cy, s->W - 1, s->H - 1, prot);
	else if (mode == 1)
		erase(0, 0, curx(), s->cy, prot);
	else
		erase(0, 0, s->W - 1, s->H - 1, prot);
}

void Term::erase_line(int mode, bool prot)
{
	if (mode == 0)
		erase(curx(), s->cy, s->W - 1, s->cy, prot);
	else if (mode == 1)
		erase(0, s->cy, curx(), s->cy, prot);
	else
		erase(0, s->cy, s->W - 1, s->cy, prot);
}

void Term::set_margins(uint32_t top, uint32_t bottom)
{
	if (!top)
		top = 1;
	if (bottom <= top || bottom > s->H) {
		s->mtop = 0;
		s->mbot = s->H - 1;
	} else {
		s->mtop = top - 1;
		s->mbot = bottom - 1;
	}
}

int Term::resize(uint32_t w, uint32_t h)
{
	if (!w || !h)
		return -22;
	if (w == s->W && h == s->H)
		return 0;
	if (w > MW || h > MH) {
		fprintf(stderr, "model: size bound exceeded\n");
		abort();
	}
	bool alt = s->flags & F_ALT;
	const Attr mattr = alt ? s->defmain : s->def;
	uint32_t oW = s->W, oH = s->H;
	// horizontally: cut or extend every row
	for (uint32_t y = 0; y < oH; ++y)
		if (w > oW) {
			fill(mainc + (size_t)y * MW + oW, w - oW, mattr);
			fill(altc + (size_t)y * MW + oW, w - oW, s->def);
		}
	s->mtop = 0;
	s->mbot = oH - 1;
	s->W = w;
	if (s->cx >= w)
		s->cx = w - 1;
	default_tabs();
	// vertically: lines leave at the top of the active screen
	if (h < oH) {
		uint32_t d = oH - h;
		scroll_up(d);
		s->cy = s->cy > d ? s->cy - d : 0;
	}
	for (uint32_t y = oH; y < h; ++y) {
		fill(mainc + (size_t)y * MW, w, mattr);
		fill(altc + (size_t)y * MW, w, s->def);
	}
	s->H = h;
	s->mbot = h - 1;
	if (s->cy >= h)
		s->cy = h - 1;
	return 0;
}

void Term::set_max_sb(uint32_t max)
{
	while (s->sbcount > max) {
		bool scrolled = s->view < s->sbcount;
		evict();
		if (!scrolled)
			s->view = s->sbcount;
		else if (s->view > 0)
			--s->view;
	}
	s->maxsb = max;
}

void Term::clear_sb()
{
	while (s->sbcount)
		evict();
	s->view = 0;
	s->sbstart = 0;
}

void Term::sb_up(uint64_t n)
{
	s->view = n > s->view ? 0 : s->view - (uint32_t)n;
}

void Term::sb_down(uint64_t n)
{
	s->view = (uint32_t)std::min<uint64_t>(s->view + n, s->sbcount);
}

void Term::scr_set_flags(uint32_t f)
{
	if (!(s->flags & F_ALT) && (f & F_ALT))
		s->defmain = s->def;
	s->flags |= f;
}

void Term::scr_reset()
{
	s->flags = 0;
	s->mtop = 0;
	s->mbot = s->H - 1;
	default_tabs();
}

// --------------------------------------------------------------- selection

SelPos Term::sel_at(uint32_t x, uint32_t y)
{
	SelPos p;
	memset(&p, 0, sizeof(p));
	p.x = std::min(x, s->W - 1);
	y = std::min(y, s->H - 1);
	uint64_t l = (uint64_t)s->view + y;
	if (l < s->sbcount) {
		p.kind = SEL_LINE;
		p.id = sbm[sbslot((uint32_t)l)].id;
	} else {
		p.kind = SEL_ROW;
		p.row = (int32_t)(l - s->sbcount);
	}
	return p;
}

int64_t Term::sel_line(const SelPos &p) const
{
	if (p.kind == SEL_TOP)
		return INT64_MIN;
	if (p.kind == SEL_ROW)
		return (int64_t)s->sbcount + p.row;
	for (uint32_t i = 0; i < s->sbcount; ++i)
		if (sbm[sbslot(i)].id == p.id)
			return i;
	return INT64_MIN;
}

int Term::sel_copy(std::string &out)
{
	out.clear();
	if (!s->selactive)
		return -2;
	if (s->s0.kind == SEL_TOP && s->s1.kind == SEL_TOP)
		return 0;
	struct { int64_t l; uint32_t x; } a[2];
	const SelPos *ps[2] = { &s->s0, &s->s1 };
	for (int i = 0; i < 2; ++i) {
		SelPos p = *ps[i];
		if (p.kind == SEL_ROW && p.row >= (int32_t)s->H)
			p.row = (int32_t)s->H - 1;
		a[i].l = sel_line(p);
		a[i].x = std::min(p.x, s->W - 1);
		if (a[i].l == INT64_MIN) {
			a[i].l = 0;
			a[i].x = 0;
		}
	}
	if (a[0].l > a[1].l || (a[0].l == a[1].l && a[0].x > a[1].x))
		std::swap(a[0], a[1]);
	for (int64_t l = a[0].l; l <= a[1].l; ++l) {
		const Cell *r;
		uint32_t len;
		if (l < (int64_t)s->sbcount) {
			r = sbrow((uint32_t)l);
			len = std::min(sbm[sbslot((uint32_t)l)].len, s->W);
		} else {
			r = row((uint32_t)(l - s->sbcount));
			len = s->W;
		}
		while (len && !r[len - 1].ch)
			--len;
		uint32_t x0 = l == a[0].l ? a[0].x : 0;
		uint32_t x1 = l == a[1].l ? a[1].x + 1 : s->W;
		for (uint32_t x = x0; x < x1 && x < len; ++x) {
			char u[4];
			if (!r[x].w)
				continue;
			size_t n = utf8_encode(r[x].ch ? r[x].ch : ' ', u);
			out.append(u, n);
		}
		if (l != a[1].l)
			out += '\n';
	}
	return (int)out.size();
}

// what belongs at position (x,y) of the current view
bool Term::view_cell(uint32_t x, uint32_t y, Cell &c, bool &beyond, bool &inv)
{
	uint64_t l = (uint64_t)s->view + y;
	beyond = false;
	bool cursor = false;
	if (l < s->sbcount) {
		if (x < sbm[sbslot((uint32_t)l)].len) {
			c = sbrow((uint32_t)l)[x];
		} else {
			c = blank(s->def);
			beyond = true;
		}
	} else {
		uint32_t y2 = (uint32_t)(l - s->sbcount);
		c = row(y2)[x];
		cursor = y2 == s->cy && x == curx() && !(s->flags & F_HIDE);
	}
	inv = (c.at.bits & INVERSE) != 0;
	if (cursor)
		inv = !inv;
	if (s->flags & F_INVERSE)
		inv = !inv;
	if (s->selactive) {
		int64_t a = sel_line(s->s0), b = sel_line(s->s1), p = (int64_t)l;
		uint32_t ax = std::min(s->s0.x, s->W - 1), bx = std::min(s->s1.x, s->W - 1);
		bool none = a == INT64_MIN && b == INT64_MIN;
		if (a > b || (a == b && ax > bx)) {
			std::swap(a, b);
			std::swap(ax, bx);
		}
		bool ge = a == INT64_MIN || p > a || (p == a && x >= ax);
		bool le = p < b || (p == b && x <= bx);
		if (!none && ge && le)
			inv = !inv;
	}
	return true;
}

// ---------------------------------------------------------------- terminal

const uint8_t (*Term::pal() const)[3]
{
	const uint8_t(*p)[3] = nullptr;
	if (s->pal < n_palette_names) {
		const char *n = palette_names[s->pal];
		if (!strcmp(n, "custom"))
			p = s->usecustom ? custom_palettes[s->custom] : nullptr;
		else
			p = palette_by_name(n);
	}
	return p ? p : palette_by_name("legacy");
}

void Term::to_rgb(Attr &a) const
{
	const uint8_t(*p)[3] = pal();
	if (a.fc >= 0) {
		int c = a.fc;
		if ((a.bits & BOLD) && c < 8)
			c += 8;
		memcpy(a.rgb, p[c], 3);
	}
	if (a.bc >= 0)
		memcpy(a.rgb + 3, p[a.bc], 3);
}

void Term::update_palette()
{
	s->vdef.fc = 16;
	s->vdef.bc = 17;
	to_rgb(s->vdef);
	s->cattr = s->vdef;
	s->def = s->vdef;
	erase(0, 0, s->W - 1, s->H - 1, false);
}

void Term::erase_both()
{
	scr_set_flags(F_ALT);
	erase_display(2, false);
	scr_reset_flags(F_ALT);
	erase_display(2, false);
}

void Term::vte_reset()
{
	s->vflags = V_TCEM | V_ARM | V_SRM | V_AWM | V_BCE;
	scr_reset();
	s->flags |= F_WRAP;
	s->ulen = s->uhave = 0;
	s->uch = 0;
	s->pstate = P_GROUND;
	s->gl = 0;
	s->gr = 1;
	s->glt = 255;
	s->g[0] = s->g[2] = CS_ASCII;
	s->g[1] = s->g[3] = CS_UPPER;
	if (s->mmode && s->mevent)
		told(0, false);
	s->mmode = s->mevent = s->mcol = s->mrow = 0;
	s->cattr = s->vdef;
	s->def = s->vdef;
	s->scx = s->scy = s->acx = s->acy = 0;
	s->sorigin = 0;
	s->swrap = 1;
	s->sgl = 0;
	s->sgr = 1;
	s->scattr = s->vdef;
}

void Term::hard_reset()
{
	vte_reset();
	erase_both();
	clear_sb();
	s->cx = s->cy = 0;
}

void Term::save_cursor()
{
	s->scx = s->cx;
	s->scy = s->cy;
	s->scattr = s->cattr;
	s->sgl = s->gl;
	s->sgr = s->gr;
	s->swrap = (s->vflags & V_AWM) != 0;
	s->sorigin = (s->vflags & V_OM) != 0;
}

void Term::mode_flag(bool set, uint32_t vf, uint32_t sf)
{
	if (set) {
		s->vflags |= vf;
		if (sf)
			scr_set_flags(sf);
	} else {
		s->vflags &= ~vf;
		if (sf)
			scr_reset_flags(sf);
	}
}

void Term::restore_cursor()
{
	s->cattr = s->scattr;
	to_rgb(s->cattr);
	s->def = s->cattr;
	s->gl = s->sgl;
	s->gr = s->sgr;
	mode_flag(s->swrap, V_AWM, F_WRAP);
	mode_flag(s->sorigin, V_OM, F_ORIGIN);
	move_abs(s->scx, s->scy);
}

void Term::told(uint32_t track, bool pixel)
{
	if (!hasmousecb())
		return;
	char b[32];
	snprintf(b, sizeof(b), "<%u,%d>", track, pixel);
	mouse += b;
}

// s->parsing is nonzero while input is parsed; only then nothing is echoed
void Term::reply(const char *p, size_t n, bool)
{
	bool prepend = s->vflags & V_PREPEND;
	s->vflags &= ~V_PREPEND;
	if (!s->parsing && !(s->vflags & V_SRM)) {
		if (prepend)
			input("\x1b", 1);
		input(p, n);
	}
	if (prepend)
		wr += '\x1b';
	wr.append(p, n);
}

void Term::input(const char *p, size_t n)
{
	++s->parsing;
	for (size_t i = 0; i < n; ++i)
		byte((uint8_t)p[i]);
	--s->parsing;
}

void Term::byte(uint8_t b)
{
	if (s->vflags & V_7BIT) {
		feed(b & 0x7f);
		return;
	}
	if (s->vflags & V_8BIT) {
		feed(b);
		return;
	}
	// UTF-8: ulen bytes expected in total, uhave seen
	if (!s->ulen) {
		if (b < 0x80) {
			feed(b);
		} else if (b < 0xc0) {
			// stray continuation byte
		} else if (b < 0xc2 || b >= 0xf8) {
			feed(0xfffd);
		} else {
			s->ulen = b < 0xe0 ? 2 : b < 0xf0 ? 3 : 4;
			s->uhave = 1;
			s->uch = b & (0x7f >> s->ulen);
		}
		return;
	}
	uint32_t ch = (s->uch << 6) | (b & 0x3f);
	bool ok = (b & 0xc0) == 0x80;
	++s->uhave;
	if (s->uhave == 2 && s->ulen == 3) {
		if (ch < 0x20 || (ch >= 0x360 && ch <= 0x37f))
			ok = false;
	}
	if (s->uhave == 2 && s->ulen == 4) {
		if (ch < 0x10 || ch > 0x10f)
			ok = false;
	}
	if (!ok) {
		s->ulen = s->uhave = 0;
		s->uch = 0;
		feed(0xfffd);
		return;
	}
	s->uch = ch;
	if (s->uhave == s->ulen) {
		s->ulen = s->uhave = 0;
		s->uch = 0;
		feed(ch);
	}
}

void Term::clear_params()
{
	s->argc = 0;
	for (int i = 0; i < 16; ++i)
		s->argv[i] = -1;
	s->pflags = 0;
	s->osclen = 0;
	memset(s->osc, 0, sizeof(s->osc));
}

void Term::osc_end()
{
	if (hasosccb()) {
		char b[16];
		snprintf(b, sizeof(b), "[%u:", s->osclen);
		osc += b;
		osc.append(s->osc, s->osclen);
		osc += ']';
	}
	s->osclen = 0;
	memset(s->osc, 0, sizeof(s->osc));
}

// one decoded character
void Term::feed(uint32_t c)
{
	bool c1 = c >= 0x80 && c <= 0x9f;
	if (c == 0x18 || c == 0x1a || c == 0x1b || c1) {
		// these end whatever is going on
		if (s->pstate == P_OSC)
			osc_end();
		switch (c) {
		case 0x1b: clear_params(); s->pstate = P_ESC; return;
		case 0x90: case 0x98: case 0x9e: case 0x9f: s->pstate = P_STR; return;
		case 0x9b: clear_params(); s->pstate = P_CSI_ENTRY; return;
		case 0x9d: clear_params(); s->pstate = P_OSC; return;
		default: s->pstate = P_GROUND; execute(c); return;
		}
	}
	bool c0 = c < 0x20;
	switch (s->pstate) {
	case P_GROUND:
		if (c0) {
			execute(c);
			return;
		}
		{
			uint32_t v = c;
			if (c >= 33 && c <= 126) {
				uint8_t g = s->gl;
				if (s->glt != 255) {
					g = s->glt;
					s->glt = 255;
				}
				v = charset_map(s->g[g], c - 32);
			} else if (c >= 161 && c <= 254) {
				v = charset_map(s->g[s->gr], c - 160);
			}
			to_rgb(s->cattr);
			scr_write(v, s->cattr);
		}
		return;
	case P_ESC:
	case P_ESCINT:
		if (c0) {
			execute(c);
			return;
		}
		if (c == 0x7f)
			return;
		if (c < 0x30 || c >= 0xa0) {
			collect(c);
			s->pstate = P_ESCINT;
			return;
		}
		if (s->pstate == P_ESC) {
			switch (c) {
			case '[': clear_params(); s->pstate = P_CSI_ENTRY; return;
			case ']': clear_params(); s->pstate = P_OSC; return;
			case 'P': case 'X': case '^': case '_': s->pstate = P_STR; return;
			}
		}
		s->pstate = P_GROUND;
		esc(c);
		return;
	case P_CSI_ENTRY:
	case P_CSI_PARAM:
	case P_CSI_INT:
		if (c0) {
			execute(c);
			return;
		}
		if (c == 0x7f)
			return;
		if (c >= 0xa0) {
			s->pstate = P_CSI_IGN;
			return;
		}
		if (c >= 0x40) {
			s->pstate = P_GROUND;
			if (s->argc < 16)
				++s->argc;
			csi(c);
			return;
		}
		if (c < 0x30) {
			collect(c);
			s->pstate = P_CSI_INT;
			return;
		}
		if (s->pstate == P_CSI_INT || c == ':') {
			s->pstate = P_CSI_IGN;
			return;
		}
		if (c >= 0x3c) {
			if (s->pstate == P_CSI_ENTRY) {
				collect(c);
				s->pstate = P_CSI_PARAM;
			} else {
				s->pstate = P_CSI_IGN;
			}
			return;
		}
		s->pstate = P_CSI_PARAM;
		if (c == ';') {
			if (s->argc < 16)
				++s->argc;
		} else if (s->argc < 16) {
			int32_t &v = s->argv[s->argc];
			if (v <= 0xffff)
				v = (v < 0 ? 0 : v) * 10 + (int32_t)(c - '0');
		}
		return;
	case P_CSI_IGN:
		if (c0)
			execute(c);
		else if (c >= 0x40 && c < 0x7f)
			s->pstate = P_GROUND;
		return;
	case P_STR:
		return;
	case P_OSC:
		if (c == 0x07) {
			osc_end();
			s->pstate = P_GROUND;
			return;
		}
		if (c0)
			return;
		{
			char u[4];
			size_t n = utf8_encode(c, u);
			if (s->osclen + n <= 127) {
				memcpy(s->osc + s->osclen, u, n);
				s->osclen += n;
			}
		}
		return;
	}
}

void Term::execute(uint32_t c)
{
	switch (c) {
	case 0x05: reply("\x06", 1); break;
	case 0x08: move_left(1); break;
	case 0x09: tab_right(1); break;
	case 0x0a: case 0x0b: case 0x0c:
		if (s->vflags & V_LNM)
			newline();
		else
			move_down(1, true);
		break;
	case 0x0d: s->cx = 0; break;
	case 0x0e: s->gl = 1; break;
	case 0x0f: s->gl = 0; break;
	case 0x1a: to_rgb(s->cattr); scr_write(0xbf, s->cattr); break;
	case 0x84: move_down(1, true); break;
	case 0x85: newline(); break;
	case 0x88: if (s->cx < s->W) tabs[s->cx] = true; break;
	case 0x8d: move_up(1, true); break;
	case 0x8e: s->glt = 2; break;
	case 0x8f: s->glt = 3; break;
	case 0x9a: reply("\x1b[?60;1;6;9;15c", 15); break;
	}
}

void Term::collect(uint32_t c)
{
	switch (c) {
	case '!': s->pflags |= I_BANG; break;
	case '?': s->pflags |= I_WHAT; break;
	case '>': s->pflags |= I_GT; break;
	case ' ': s->pflags |= I_SPACE; break;
	case '"': s->pflags |= I_DQUOTE; break;
	case '*': s->pflags |= I_MULT; break;
	case '+': s->pflags |= I_PLUS; break;
	case '(': s->pflags |= I_POPEN; break;
	case ')': s->pflags |= I_PCLOSE; break;
	default: s->pflags |= I_OTHER; break;
	}
}

void Term::esc(uint32_t c)
{
	if (s->pflags) {
		int g = s->pflags == I_POPEN ? 0 : s->pflags == I_PCLOSE ? 1 :
			s->pflags == I_MULT ? 2 : s->pflags == I_PLUS ? 3 : -1;
		if (g >= 0) {
			if (c == 'B')
				s->g[g] = CS_ASCII;
			else if (c == '<')
				s->g[g] = CS_DECSUPP;
			else if (c == '0')
				s->g[g] = CS_DECSPEC;
			else if (strchr("A4C5RQKYE6ZH7=", (int)c))
				s->g[g] = CS_UPPER;
		} else if (s->pflags == I_SPACE) {
			if (c == 'F')
				s->vflags &= ~V_C1;
			else if (c == 'G')
				s->vflags |= V_C1;
		}
		return;
	}
	switch (c) {
	case 'D': move_down(1, true); break;
	case 'E': newline(); break;
	case 'H': if (s->cx < s->W) tabs[s->cx] = true; break;
	case 'M': move_up(1, true); break;
	case 'N': s->glt = 2; break;
	case 'O': s->glt = 3; break;
	case 'Z': reply("\x1b[?60;1;6;9;15c", 15); break;
	case '~': s->gr = 1; break;
	case 'n': s->gl = 2; break;
	case '}': s->gr = 2; break;
	case 'o': s->gl = 3; break;
	case '|': s->gr = 3; break;
	case '=': s->vflags |= V_KAM_PAD; break;
	case '>': s->vflags &= ~V_KAM_PAD; break;
	case 'c': hard_reset(); break;
	case '7': save_cursor(); break;
	case '8': restore_cursor(); break;
	}
}

void Term::decscl()
{
	int a = s->argv[0], b = s->argv[1];
	vte_reset();
	if (a == 61) {
		s->vflags |= V_7BIT;
		s->g[1] = CS_DECSUPP;
	} else if (a >= 62 && a <= 64) {
		s->vflags |= V_8BIT;
		if (b == 1 || b == 2)
			s->vflags |= V_C1;
		s->g[1] = CS_DECSUPP;
	}
}

void Term::csi(uint32_t c)
{
	uint32_t f = s->pflags;
	bool ok = !f || (f == I_WHAT && c < 128 && strchr("JKhln", (int)c)) ||
		  (f == I_GT && (c == 'c' || c == 'p')) || (f == I_BANG && c == 'p') ||
		  (f == I_DQUOTE && c == 'p');
	if (!ok)
		return;
	uint32_t n = arg(0, 1);
	switch (c) {
	case 'A': move_up(n, false); break;
	case 'B': move_down(n, false); break;
	case 'C': move_right(n); break;
	case 'D': move_left(n); break;
	case 'E': move_down(n, false); s->cx = 0; break;
	case 'F': move_up(n, false); s->cx = 0; break;
	case 'G': s->cx = std::min(n - 1, s->W - 1); break;
	case 'H': case 'f': move_to(arg(1, 1) - 1, n - 1); break;
	case 'd': move_to(s->cx, n - 1); break;
	case 'e': move_abs(s->cx, (uint64_t)s->cy + n); break;
	case 'J':
		if (s->argv[0] <= 2)
			erase_display(s->argv[0] < 0 ? 0 : s->argv[0], f == I_WHAT);
		break;
	case 'K':
		if (s->argv[0] <= 2)
			erase_line(s->argv[0] < 0 ? 0 : s->argv[0], f == I_WHAT);
		break;
	case 'X': erase_chars(n); break;
	case '@': insert_chars(n); break;
	case 'P': delete_chars(n); break;
	case 'L': insert_lines(n); break;
	case 'M': delete_lines(n); break;
	case 'S': scroll_up(n); break;
	case 'T': scroll_down(n); break;
	case 'I': tab_right(n); break;
	case 'Z': tab_left(n); break;
	case 'g':
		if (s->argv[0] <= 0) {
			if (s->cx < s->W)
				tabs[s->cx] = false;
		} else if (s->argv[0] == 3) {
			for (uint32_t i = 0; i < s->W; ++i)
				tabs[i] = false;
		}
		break;
	case 'm': sgr(); break;
	case 'h': mode(true); break;
	case 'l': mode(false); break;
	case 'p':
		if (f == I_GT || f == I_BANG)
			vte_reset();
		else
			decscl();
		break;
	case 'r': set_margins(s->argv[0] < 0 ? 0 : s->argv[0], s->argv[1] < 0 ? 0 : s->argv[1]); break;
	case 'c':
		if (s->argc <= 1 && s->argv[0] <= 0) {
			if (f == I_GT)
				reply("\x1b[>1;1;0c", 9);
			else
				reply("\x1b[?60;1;6;9;15c", 15);
		}
		break;
	case 'n':
		if (s->argv[0] == 5) {
			reply("\x1b[0n", 4);
		} else if (s->argv[0] == 6) {
			char b[64];
			uint32_t y = s->cy;
			if (s->vflags & V_OM)
				y = y > s->mtop ? y - s->mtop : 0;
			int l = snprintf(b, sizeof(b), "\x1b[%u;%uR", y + 1, curx() + 1);
			reply(b, l);
		}
		break;
	}
}

void Term::sgr()
{
	static const uint8_t lvl[6] = { 0x00, 0x5f, 0x87, 0xaf, 0xd7, 0xff };
	Attr &a = s->cattr;
	for (uint32_t i = 0; i < s->argc; ++i) {
		int v = s->argv[i];
		if (v <= 0) {
			a.fc = s->vdef.fc;
			a.bc = s->vdef.bc;
			memcpy(a.rgb, s->vdef.rgb, 6);
			a.bits &= PROTECT;
		} else if (v == 1) a.bits |= BOLD;
		else if (v == 3) a.bits |= ITALIC;
		else if (v == 4) a.bits |= UNDERLINE;
		else if (v == 5) a.bits |= BLINK;
		else if (v == 7) a.bits |= INVERSE;
		else if (v == 22) a.bits &= ~BOLD;
		else if (v == 23) a.bits &= ~ITALIC;
		else if (v == 24) a.bits &= ~UNDERLINE;
		else if (v == 25) a.bits &= ~BLINK;
		else if (v == 27) a.bits &= ~INVERSE;
		else if (v >= 30 && v <= 37) a.fc = (int8_t)(v - 30);
		else if (v >= 40 && v <= 47) a.bc = (int8_t)(v - 40);
		else if (v >= 90 && v <= 97) a.fc = (int8_t)(v - 90 + 8);
		else if (v >= 100 && v <= 107) a.bc = (int8_t)(v - 100 + 8);
		else if (v == 39) { a.fc = s->vdef.fc; memcpy(a.rgb, s->vdef.rgb, 3); }
		else if (v == 49) { a.bc = s->vdef.bc; memcpy(a.rgb + 3, s->vdef.rgb + 3, 3); }
		else if (v == 38 || v == 48) {
			int code;
			uint8_t rgb[3] = { 0, 0, 0 };
			int kind = i + 1 < s->argc ? s->argv[i + 1] : -1;
			uint32_t need = kind == 5 ? 1 : kind == 2 ? 3 : 0;
			bool bad = !need || i + 1 + need >= s->argc;
			for (uint32_t k = 0; !bad && k < need; ++k)
				bad = s->argv[i + 2 + k] < 0 || s->argv[i + 2 + k] > 255;
			if (bad)
				break;
			if (kind == 5) {
				code = s->argv[i + 2];
				if (code >= 232) {
					rgb[0] = rgb[1] = rgb[2] = (uint8_t)((code - 232) * 10 + 8);
					code = -1;
				} else if (code >= 16) {
					rgb[0] = lvl[(code - 16) / 36];
					rgb[1] = lvl[(code - 16) / 6 % 6];
					rgb[2] = lvl[(code - 16) % 6];
					code = -1;
				}
			} else {
				code = -1;
				for (int k = 0; k < 3; ++k)
					rgb[k] = (uint8_t)s->argv[i + 2 + k];
			}
			i += 1 + need;
			if (v == 38) {
				a.fc = (int8_t)code;
				memcpy(a.rgb, rgb, 3);
			} else {
				a.bc = (int8_t)code;
				memcpy(a.rgb + 3, rgb, 3);
			}
		}
	}
	to_rgb(a);
	s->def = a;
}

void Term::mode(bool set)
{
	for (uint32_t i = 0; i < s->argc; ++i) {
		int v = s->argv[i];
		if (s->pflags != I_WHAT) {
			switch (v) {
			case 2: mode_flag(set, V_KAM, 0); break;
			case 4: mode_flag(set, V_IRM, F_INSERT); break;
			case 12: mode_flag(set, V_SRM, 0); break;
			case 20: mode_flag(set, V_LNM, 0); break;
			}
			continue;
		}
		switch (v) {
		case 1: mode_flag(set, V_CKM, 0); break;
		case 5: mode_flag(set, V_SCNM, F_INVERSE); break;
		case 6: mode_flag(set, V_OM, F_ORIGIN); break;
		case 7: mode_flag(set, V_AWM, F_WRAP); break;
		case 8: mode_flag(set, V_ARM, 0); break;
		case 25:
			mode_flag(set, V_TCEM, 0);
			if (set)
				scr_reset_flags(F_HIDE);
			else
				scr_set_flags(F_HIDE);
			break;
		case 42: mode_flag(set, V_NRCM, 0); break;
		case 47: mode_flag(set, 0, F_ALT); break;
		case 1047:
			if (!set)
				erase_display(2, false);
			mode_flag(set, 0, F_ALT);
			break;
		case 1048:
		case 1049:
			if (set) {
				s->acx = s->cx;
				s->acy = s->cy;
			}
			if (v == 1049) {
				mode_flag(set, 0, F_ALT);
				if (set)
					erase_display(2, false);
			}
			if (!set)
				move_abs(s->acx, s->acy);
			break;
		case 9:
			s->mmode = set ? 9 : 0;
			s->mevent = set ? 1002 : 0;
			told(s->mevent, false);
			break;
		case 1002:
		case 1003:
			s->mevent = s->mmode == 9 ? 1002 : set ? v : 0;
			if (s->mmode)
				told(s->mevent, s->mmode == 1016);
			break;
		case 1006:
		case 1016:
			s->mmode = set ? v : 0;
			if (!set)
				told(0, false);
			else if (s->mevent)
				told(s->mevent, v == 1016);
			break;
		}
	}
}

bool Term::mouse_event(uint32_t cx, uint32_t cy, uint32_t px, uint32_t py, uint32_t btn, uint32_t ev, uint32_t mods)
{
	const uint32_t PRESS = 1, RELEASE = 2, MOVE = 4;
	char b[64];
	int n;
	if ((ev & MOVE) && (s->mmode == 9 || s->mevent != 1003))
		return false;
	if (btn == 4 || btn == 5)
		btn += 60;
	if (s->mmode == 9) {
		if (ev & RELEASE)
			btn = 3;
		b[0] = '\x1b'; b[1] = '['; b[2] = 'M';
		b[3] = (char)(32 + (btn | mods));
		b[4] = (char)(33 + std::min(cx, 222u));
		b[5] = (char)(33 + std::min(cy, 222u));
		reply(b, 6);
		return true;
	}
	if (!s->mevent || (s->mmode != 1006 && s->mmode != 1016))
		return false;
	uint32_t code = (btn | mods) & 0xff;
	bool press = ev & PRESS;
	if (s->mmode == 1006) {
		px = cx + 1;
		py = cy + 1;
		if (ev & MOVE) {
			if (px == s->mcol && py == s->mrow)
				return false;
			s->mcol = px;
			s->mrow = py;
			code = 35;
			press = true;
		}
	} else if (ev == MOVE) {
		code = 35;
		press = true;
	}
	n = snprintf(b, sizeof(b), "\x1b[<%u;%u;%u%c", code, px, py, press ? 'M' : 'm');
	reply(b, n);
	return true;
}

} // namespace m
