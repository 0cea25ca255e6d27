// Reference model of the terminal: written from the properties and the public
// documentation, independent of the data structures of the library (no line
// pointers, no ages, no symbol tables). It is compared with the library after
// every single operation of every explored history.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>

namespace m {

enum { BOLD = 1, ITALIC = 2, UNDERLINE = 4, INVERSE = 8, PROTECT = 16, BLINK = 32 };

struct Attr {
	int8_t fc, bc;
	uint8_t rgb[6];          // fr fg fb br bg bb
	uint8_t bits;
	bool operator==(const Attr &o) const { return !memcmp(this, &o, sizeof(*this)); }
};

struct Cell {
	uint32_t ch;
	uint8_t w;
	Attr at;
	uint8_t pad[2];
};
static_assert(sizeof(Attr) == 9 && sizeof(Cell) == 16, "layout");

// screen flags (values of the public header)
enum { F_INSERT = 1, F_WRAP = 2, F_ORIGIN = 4, F_INVERSE = 8, F_HIDE = 16, F_FIXED = 32, F_ALT = 64 };

// terminal flags (values of the public header)
enum {
	V_CKM = 1, V_KAM_PAD = 2, V_LNM = 4, V_8BIT = 8, V_7BIT = 16, V_C1 = 32, V_KAM = 64,
	V_IRM = 128, V_SRM = 256, V_TCEM = 512, V_SCNM = 1024, V_OM = 2048, V_AWM = 4096,
	V_ARM = 8192, V_NRCM = 16384, V_BCE = 32768, V_PREPEND = 65536, V_TITE = 131072
};

unsigned char_width(uint32_t ch);                      // tables.cpp
const uint8_t (*palette_by_name(const char *name))[3]; // null for unknown names
uint32_t charset_map(int set, uint32_t idx);           // idx 0..95
extern uint8_t custom_palettes[3][18][3];
size_t utf8_encode(uint32_t c, char *out);             // 0 for what is not encodable
const Attr &test_attr(int idx);                        // attributes used by direct calls

enum { CS_ASCII, CS_UPPER, CS_DECSUPP, CS_DECSPEC };

enum SelKind { SEL_TOP, SEL_LINE, SEL_ROW };
struct SelPos {
	int32_t kind;
	int32_t row;
	uint64_t id;
	uint32_t x;
	uint32_t pad;
};

struct Scalars {
	// ---- screen
	uint32_t W, H, mtop, mbot, cx, cy, flags;
	uint32_t maxsb, sbcount, sbstart, view;        // view == sbcount: not scrolled back
	uint64_t lastid;
	Attr def, defmain;
	uint8_t selactive, selundef;
	SelPos s0, s1;
	// ---- vte
	uint32_t vflags;
	Attr vdef, cattr;
	uint8_t gl, gr, glt;                           // index into g[]; glt 255: none
	uint8_t g[4];
	uint8_t bsdel, hascb, pal, usecustom, custom;  // pal: index into name list
	uint32_t scx, scy;
	Attr scattr;
	uint8_t sgl, sgr, swrap, sorigin;
	uint32_t acx, acy;
	uint32_t mmode, mevent, mcol, mrow;
	// parser
	uint8_t pstate, parsing;
	uint16_t pflags;
	uint32_t argc;
	int32_t argv[16];
	uint32_t osclen;
	char osc[128];
	uint8_t aged;                                  // not of the terminal: the age was moved
	// utf8
	uint8_t ulen, uhave;
	uint32_t uch;
};

enum { P_GROUND, P_ESC, P_ESCINT, P_CSI_ENTRY, P_CSI_PARAM, P_CSI_INT, P_CSI_IGN, P_STR, P_OSC };
enum { I_BANG = 1, I_WHAT = 2, I_GT = 4, I_SPACE = 8, I_DQUOTE = 16, I_MULT = 32, I_PLUS = 64,
       I_POPEN = 128, I_PCLOSE = 256, I_OTHER = 512 };

extern const char *const palette_names[];
extern const int n_palette_names;

class Term {
public:
	Scalars *s = nullptr;
	uint8_t *buf = nullptr;
	size_t bufsize = 0;
	uint32_t MW, MH, MS, SW;
	// what the last operation told the outside world
	std::string wr, osc, mouse;

	Term() {}
	Term(const Term &) = delete;
	~Term() { free(buf); }
	// ---- storage
	void alloc(uint32_t mw, uint32_t mh, uint32_t ms, uint32_t sw = 0);
	bool *tabs;
	Cell *mainc, *altc, *sbc;
	struct SbMeta { uint64_t id; uint32_t len, pad; };
	SbMeta *sbm;
	uint64_t hash() const;
	void save(void *d) const { memcpy(d, buf, bufsize); }
	void restore(const void *d) { memcpy(buf, d, bufsize); }

	Cell *row(uint32_t y) { return ((s->flags & F_ALT) ? altc : mainc) + (size_t)y * MW; }
	uint32_t sbslot(uint32_t i) const { return (s->sbstart + i) % MS; }
	Cell *sbrow(uint32_t i) { return sbc + (size_t)sbslot(i) * SW; }

	// ---- construction
	void init(uint32_t w, uint32_t h, uint32_t maxsb);

	// ---- screen layer
	Cell blank(const Attr &a) const { Cell c; memset(&c, 0, sizeof(c)); c.w = 1; c.at = a; return c; }
	void fill(Cell *c, uint32_t n, const Attr &a) { Cell b = blank(a); for (uint32_t i = 0; i < n; ++i) c[i] = b; }
	void default_tabs() { for (uint32_t i = 0; i < s->W; ++i) tabs[i] = i % 8 == 0; }
	uint32_t curx() const { return s->cx >= s->W ? s->W - 1 : s->cx; }
	bool in_region() const { return s->cy >= s->mtop && s->cy <= s->mbot; }
	void push_sb(const Cell *line);
	void evict();
	void sel_shift(SelPos &p, uint32_t n);
	bool sel_lost(const SelPos &p, uint32_t n, bool down);
	void scroll_up(uint32_t n);
	void scroll_down(uint32_t n);
	void scr_write(uint32_t ch, const Attr &a);
	void newline() { move_down(1, true); s->cx = 0; }
	void move_to(uint64_t x, uint64_t y);
	void move_abs(uint64_t x, uint64_t y);
	void move_up(uint32_t n, bool scroll);
	void move_down(uint32_t n, bool scroll);
	void move_left(uint32_t n);
	void move_right(uint32_t n);
	void tab_right(uint32_t n);
	void tab_left(uint32_t n);
	void insert_lines(uint32_t n);
	void delete_lines(uint32_t n);
	void insert_chars(uint32_t n);
	void delete_chars(uint32_t n);
	void erase(uint32_t x0, uint32_t y0, uint32_t x1, uint32_t y1, bool prot);
	void erase_chars(uint32_t n);
	void erase_display(int mode, bool prot);  // 0 below, 1 above, 2 all
	void erase_line(int mode, bool prot);
	void set_margins(uint32_t top, uint32_t bottom);
	int resize(uint32_t w, uint32_t h);
	void set_max_sb(uint32_t max);
	void clear_sb();
	void sb_up(uint64_t n);
	void sb_down(uint64_t n);
	void scr_set_flags(uint32_t f);
	void scr_reset_flags(uint32_t f) { s->flags &= ~f; }
	void scr_reset();
	// selection
	SelPos sel_at(uint32_t x, uint32_t y);
	int sel_copy(std::string &out);
	int64_t sel_line(const SelPos &p) const;      // linear line number, INT64_MIN: top
	// draw
	bool view_cell(uint32_t x, uint32_t y, Cell &c, bool &beyond, bool &inv);

	// ---- terminal layer
	const uint8_t (*pal() const)[3];
	void to_rgb(Attr &a) const;
	void update_palette();
	void vte_reset();
	void hard_reset();
	void erase_both();
	void save_cursor();
	void restore_cursor();
	void reply(const char *p, size_t n, bool fromkey = false);
	void input(const char *p, size_t n);
	void feed(uint32_t c);
	void byte(uint8_t b);
	void execute(uint32_t c);
	void clear_params();
	void collect(uint32_t c);
	void esc(uint32_t c);
	void csi(uint32_t c);
	void sgr();
	void mode(bool set);
	void decscl();
	void osc_end();
	void told(uint32_t track, bool pixel);
	void mode_flag(bool set, uint32_t vf, uint32_t sf);
	bool key(uint32_t keysym, uint32_t ascii, uint32_t mods, uint32_t unicode);
	bool mouse_event(uint32_t cx, uint32_t cy, uint32_t px, uint32_t py, uint32_t btn, uint32_t ev, uint32_t mods);
	uint32_t arg(int i, uint32_t dflt) const { return s->argv[i] <= 0 ? dflt : (uint32_t)s->argv[i]; }

	bool hasmousecb() const { return s->hascb & 1; }
	bool hasosccb() const { return s->hascb & 2; }
};

} // namespace m
