#include "term_sys.hpp"
#include <climits>

using namespace m;

// ------------------------------------------------------------ text helpers

std::vector<std::string> split_ws(const std::string &s)
{
	std::vector<std::string> v;
	size_t i = 0;
	while (i < s.size()) {
		while (i < s.size() && s[i] == ' ') ++i;
		size_t j = i;
		while (j < s.size() && s[j] != ' ') ++j;
		if (j > i) v.push_back(s.substr(i, j - i));
		i = j;
	}
	return v;
}

std::string esc_bytes(const std::string &raw)
{
	std::string o;
	char b[8];
	for (unsigned char c : raw) {
		if (c == '\\') o += "\\\\";
		else if (c == 0x1b) o += "\\e";
		else if (c == '\n') o += "\\n";
		else if (c == '\r') o += "\\r";
		else if (c == '\t') o += "\\t";
		else if (c == ' ') o += "\\s";
		else if (c > 0x20 && c < 0x7f) o += (char)c;
		else { snprintf(b, sizeof(b), "\\x%02x", c); o += b; }
	}
	return o;
}

std::string unesc_bytes(const std::string &t)
{
	std::string o;
	for (size_t i = 0; i < t.size(); ++i) {
		if (t[i] != '\\' || i + 1 >= t.size()) { o += t[i]; continue; }
		switch (t[++i]) {
		case 'e': o += '\x1b'; break;
		case 'n': o += '\n'; break;
		case 'r': o += '\r'; break;
		case 't': o += '\t'; break;
		case 's': o += ' '; break;
		case '\\': o += '\\'; break;
		case 'x': o += (char)strtol(t.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; break;
		default: fprintf(stderr, "bad escape in %s\n", t.c_str()); abort();
		}
	}
	return o;
}

Op parse_op(const std::string &line)
{
	Op o;
	o.text = line;
	if (!line.compare(0, 3, "in ") || !line.compare(0, 3, "in*")) {
		// literal blanks in input are written as \\s
		size_t k = line.find(' ');
		while (k != std::string::npos && (k = o.text.find(' ', k + 1)) != std::string::npos) o.text.replace(k, 1, "\\s");
	}
	auto v = split_ws(o.text);
	if (v.empty()) return o;
	o.name = v[0];
	for (size_t i = 1; i < v.size(); ++i) {
		o.w.push_back(v[i]);
		// repeated input: "in*300 X"
		o.a.push_back(strtoll(v[i].c_str(), nullptr, 0));
	}
	size_t star = o.name.find('*');
	uint64_t rep = 1;
	if (star != std::string::npos) {
		rep = strtoull(o.name.c_str() + star + 1, nullptr, 0);
		o.name = o.name.substr(0, star);
	}
	if (!o.w.empty()) {
		std::string u = unesc_bytes(o.w[0]);
		for (uint64_t i = 0; i < rep; ++i) o.bytes += u;
	}
	return o;
}

Header parse_header(const std::string &line)
{
	Header h;
	auto v = split_ws(line);
	if (v.empty()) return h;
	h.sys = v[0];
	for (size_t i = 1; i < v.size(); ++i) {
		size_t e = v[i].find('=');
		if (e != std::string::npos) h.kv[v[i].substr(0, e)] = v[i].substr(e + 1);
	}
	return h;
}

uint64_t System::key()
{
	static std::vector<char> b;
	size_t n = extra_size();
	if (b.size() < n + 8) b.resize(n + 8);
	save_extra(b.data());
	return arena::hash_of(b.data(), n, arena::mem_hash());
}

uint64_t System::arena_bytes(const char *p)
{
	// arena::save() layout depends only on the saved top
	uint64_t top;
	memcpy(&top, p, 8);
	return arena::snap_size_for(top);
}

uint32_t parse_cmp(const std::string &s)
{
	static const struct { const char *n; uint32_t v; } t[] = {
		{ "cur", CMP_CURSOR }, { "size", CMP_SIZE }, { "sflags", CMP_SFLAGS }, { "vflags", CMP_VFLAGS },
		{ "mmode", CMP_MMODE }, { "sb", CMP_SB }, { "ch", CMP_CH }, { "width", CMP_WIDTH }, { "attr", CMP_ATTR },
		{ "inv", CMP_INV }, { "reply", CMP_REPLY }, { "osc", CMP_OSC }, { "mcb", CMP_MCB }, { "ret", CMP_RET },
		{ "copy", CMP_COPY }, { "id", CMP_ID }, { "draw2", CMP_DRAW2 }, { "def", CMP_DEF }, { "bounds", CMP_BOUNDS },
		{ "cells", CMP_CH | CMP_WIDTH }, { "all", ~0u & ~(CMP_ID | CMP_DRAW2) },
	};
	uint32_t r = 0;
	std::string w;
	for (size_t i = 0; i <= s.size(); ++i) {
		if (i < s.size() && s[i] != ',') { w += s[i]; continue; }
		bool ok = w.empty();
		for (auto &e : t) if (w == e.n) { r |= e.v; ok = true; }
		if (!ok) { fprintf(stderr, "unknown comparison %s\n", w.c_str()); abort(); }
		w.clear();
	}
	return r;
}

// --------------------------------------------------------------- the draw

void fill_attr(tsm_screen_attr &a, const Attr &x)
{
	memset(&a, 0, sizeof(a));
	a.fccode = x.fc; a.bccode = x.bc;
	a.fr = x.rgb[0]; a.fg = x.rgb[1]; a.fb = x.rgb[2];
	a.br = x.rgb[3]; a.bg = x.rgb[4]; a.bb = x.rgb[5];
	a.bold = !!(x.bits & BOLD); a.italic = !!(x.bits & ITALIC); a.underline = !!(x.bits & UNDERLINE);
	a.inverse = !!(x.bits & INVERSE); a.protect = !!(x.bits & PROTECT); a.blink = !!(x.bits & BLINK);
}

Attr from_attr(const tsm_screen_attr &a)
{
	Attr x;
	x.fc = a.fccode; x.bc = a.bccode;
	uint8_t r[6] = { a.fr, a.fg, a.fb, a.br, a.bg, a.bb };
	memcpy(x.rgb, r, 6);
	x.bits = (a.bold ? BOLD : 0) | (a.italic ? ITALIC : 0) | (a.underline ? UNDERLINE : 0) |
		 (a.inverse ? INVERSE : 0) | (a.protect ? PROTECT : 0) | (a.blink ? BLINK : 0);
	return x;
}

static int draw_cb(struct tsm_screen *, uint64_t id, const uint32_t *ch, size_t len, unsigned int width,
		   unsigned int x, unsigned int y, const struct tsm_screen_attr *attr, tsm_age_t age, void *data)
{
	Drawing *d = (Drawing *)data;
	uint32_t pos = d->next++;
	if (pos >= d->W * d->H || x != pos % d->W || y != pos / d->W) {
		d->order = false;
		return d->ret;
	}
	DrawnCell &c = d->c[pos];
	c.id = id;
	c.ch = len ? ch[0] : 0;
	c.len = (uint32_t)len;
	c.width = width;
	arena::copy(&c.attr, attr, sizeof(c.attr));
	c.age = age;
	return d->ret;
}

void draw_screen(struct tsm_screen *con, Drawing &d, tsm_age_t *age)
{
	d.W = tsm_screen_get_width(con);
	d.H = tsm_screen_get_height(con);
	d.c.resize((size_t)d.W * d.H);
	d.next = 0;
	d.order = true;
	tsm_age_t r = tsm_screen_draw(con, draw_cb, &d);
	if (age) *age = r;
	if (d.next != d.W * d.H) d.order = false;
}

// --------------------------------------------------------- implementation

static void wr_cb(struct tsm_vte *, const char *u8, size_t len, void *data)
{
	((Impl *)data)->wr.append(u8, len);
	((Impl *)data)->all += "W" + std::to_string(len) + ":" + std::string(u8, len);
}

static void osc_cb(struct tsm_vte *, const char *u8, size_t len, void *data)
{
	Impl *t = (Impl *)data;
	char b[32];
	snprintf(b, sizeof(b), "[%zu:", len);
	t->osc += b;
	t->osc.append(u8, len);
	t->osc += ']';
	t->all += "O" + std::to_string(len) + ":" + std::string(u8, len);
	if (u8[len]) t->bad = "OSC payload is not NUL-terminated at its length";
}

static void mouse_cb(struct tsm_vte *, enum tsm_mouse_track_mode mode, bool pixels, void *data)
{
	char b[32];
	snprintf(b, sizeof(b), "<%u,%d>", (unsigned)mode, pixels);
	((Impl *)data)->mouse += b;
	((Impl *)data)->all += std::string("M") + b;
}

bool Impl::create(uint32_t w, uint32_t h, int hascb, bool withvte)
{
	con = nullptr; vte = nullptr;
	tsm_verif_initial_cols = w;
	tsm_verif_initial_rows = h;
	if (tsm_screen_new(&con, nullptr, nullptr)) return false;
	if (withvte) {
		if (tsm_vte_new(&vte, con, wr_cb, this, nullptr, nullptr)) return false;
		if (hascb & 1) tsm_vte_set_mouse_cb(vte, mouse_cb, this);
		if (hascb & 2) tsm_vte_set_osc_cb(vte, osc_cb, this);
	}
	clear_logs();
	return true;
}

void Impl::destroy()
{
	if (vte) tsm_vte_unref(vte);
	if (con) tsm_screen_unref(con);
	vte = nullptr;
	con = nullptr;
}

uint64_t Impl::digest()
{
	uint64_t h = 1;
	auto mix = [&](uint64_t v) { h = (h ^ v) * 0xff51afd7ed558ccdull; h ^= h >> 32; };
	mix(tsm_screen_get_cursor_x(con));
	mix(tsm_screen_get_cursor_y(con));
	mix(tsm_screen_get_flags(con));
	mix(tsm_screen_sb_get_line_pos(con));
	mix(tsm_screen_sb_get_line_count(con));
	auto attr = [&](const tsm_screen_attr &a) {
		Attr x = from_attr(a);
		uint64_t v = 0;
		memcpy(&v, &x, 8);
		mix(v);
		mix(x.bits);
	};
	if (vte) {
		tsm_screen_attr a;
		tsm_vte_get_def_attr(vte, &a);
		attr(a);
		mix(tsm_vte_get_flags(vte));
		mix(tsm_vte_get_mouse_mode(vte));
		mix(tsm_vte_get_mouse_event(vte));
	}
	static Drawing d;
	draw_screen(con, d);
	mix(d.W);
	mix(d.H);
	mix(d.order);
	for (auto &c : d.c) {
		mix(c.ch | (uint64_t)c.len << 32 | (uint64_t)c.width << 48);
		attr(c.attr);
	}
	return h;
}

std::string Impl::observe()
{
	std::string o;
	char b[256];
	snprintf(b, sizeof(b), "size %ux%u cursor %u,%u sflags %x sb %u/%u", tsm_screen_get_width(con), tsm_screen_get_height(con),
		 tsm_screen_get_cursor_x(con), tsm_screen_get_cursor_y(con), tsm_screen_get_flags(con),
		 tsm_screen_sb_get_line_pos(con), tsm_screen_sb_get_line_count(con));
	o = b;
	if (vte) {
		tsm_screen_attr a;
		tsm_vte_get_def_attr(vte, &a);
		Attr x = from_attr(a);
		snprintf(b, sizeof(b), " vflags %x mouse %u %u def %d %d %02x%02x%02x %02x%02x%02x %x\n", tsm_vte_get_flags(vte), tsm_vte_get_mouse_mode(vte),
			 tsm_vte_get_mouse_event(vte), x.fc, x.bc, x.rgb[0], x.rgb[1], x.rgb[2], x.rgb[3], x.rgb[4], x.rgb[5], x.bits);
		o += b;
	}
	static Drawing d;
	draw_screen(con, d);
	if (!d.order) o += "DRAW-ORDER\n";
	for (uint32_t y = 0; y < d.H; ++y) {
		for (uint32_t x = 0; x < d.W; ++x) {
			DrawnCell &c = d.c[y * d.W + x];
			Attr a = from_attr(c.attr);
			snprintf(b, sizeof(b), " %x/%u/%u:%d,%d,%02x%02x%02x,%02x%02x%02x,%x", c.ch, c.len, c.width, a.fc, a.bc,
				 a.rgb[0], a.rgb[1], a.rgb[2], a.rgb[3], a.rgb[4], a.rgb[5], a.bits);
			o += b;
		}
		o += '\n';
	}
	return o;
}

// ------------------------------------------------------------ operations

namespace {
enum {
	C_IN, C_RESIZE, C_MAXSB, C_CLEARSB, C_SBUP, C_SBDOWN, C_PGUP, C_PGDN, C_SBRESET, C_SETFLAGS, C_CLRFLAGS,
	C_SELSTART, C_SELTARGET, C_SELRESET, C_SELCOPY, C_KEY, C_MOUSE, C_RESET, C_HARDRESET, C_PALETTE, C_CUSTOMPAL,
	C_BS, C_DRAW, C_AGE, C_MOUSECB, C_OSCCB,
	S_WRITE, S_SETDEF, S_MARGINS, S_RESET, S_NEWLINE, S_SCROLLUP, S_SCROLLDOWN, S_MOVETO, S_UP, S_DOWN, S_LEFT, S_RIGHT,
	S_LINEEND, S_LINEHOME, S_TABR, S_TABL, S_INSL, S_DELL, S_INSC, S_DELC, S_ERCUR, S_ERCHARS, S_ERL0, S_ERL1, S_ERL2,
	S_ERD0, S_ERD1, S_ERD2, S_SETTAB, S_CLRTAB, S_CLRTABS, C_NONE
};
const std::map<std::string, int> &codes()
{
	static const std::map<std::string, int> t = {
		{ "in", C_IN }, { "resize", C_RESIZE }, { "maxsb", C_MAXSB }, { "clearsb", C_CLEARSB }, { "sbup", C_SBUP },
		{ "sbdown", C_SBDOWN }, { "pgup", C_PGUP }, { "pgdn", C_PGDN }, { "sbreset", C_SBRESET }, { "setflags", C_SETFLAGS },
		{ "clrflags", C_CLRFLAGS }, { "selstart", C_SELSTART }, { "seltarget", C_SELTARGET }, { "selreset", C_SELRESET },
		{ "selcopy", C_SELCOPY }, { "key", C_KEY }, { "mouse", C_MOUSE }, { "reset", C_RESET }, { "hardreset", C_HARDRESET },
		{ "palette", C_PALETTE }, { "custompal", C_CUSTOMPAL }, { "bs", C_BS }, { "draw", C_DRAW }, { "age", C_AGE },
		{ "mousecb", C_MOUSECB }, { "osccb", C_OSCCB },
		{ "s.write", S_WRITE }, { "s.setdef", S_SETDEF }, { "s.margins", S_MARGINS }, { "s.reset", S_RESET },
		{ "s.newline", S_NEWLINE }, { "s.scrollup", S_SCROLLUP }, { "s.scrolldown", S_SCROLLDOWN }, { "s.moveto", S_MOVETO },
		{ "s.up", S_UP }, { "s.down", S_DOWN }, { "s.left", S_LEFT }, { "s.right", S_RIGHT }, { "s.lineend", S_LINEEND },
		{ "s.linehome", S_LINEHOME }, { "s.tabr", S_TABR }, { "s.tabl", S_TABL }, { "s.insl", S_INSL }, { "s.dell", S_DELL },
		{ "s.insc", S_INSC }, { "s.delc", S_DELC }, { "s.ercur", S_ERCUR }, { "s.erchars", S_ERCHARS }, { "s.erl0", S_ERL0 },
		{ "s.erl1", S_ERL1 }, { "s.erl2", S_ERL2 }, { "s.erd0", S_ERD0 }, { "s.erd1", S_ERD1 }, { "s.erd2", S_ERD2 },
		{ "s.settab", S_SETTAB }, { "s.clrtab", S_CLRTAB }, { "s.clrtabs", S_CLRTABS },
	};
	return t;
}
int code_of(const Op &op)
{
	if (op.code >= 0) return op.code;
	auto i = codes().find(op.name);
	return i == codes().end() ? C_NONE : i->second;
}
unsigned A(const Op &o, size_t i) { return i < o.a.size() ? (unsigned)o.a[i] : 0; }
std::string num(long v) { return std::to_string(v); }
}

// input is handed over in a block of exactly its size, so that the sanitizer
// sees any access beyond it
static void input_exact(struct tsm_vte *vte, const std::string &s)
{
	if (!arena::asan) {
		tsm_vte_input(vte, s.data(), s.size());
		return;
	}
	char *p = (char *)malloc(s.size() ? s.size() : 1);
	memcpy(p, s.data(), s.size());
	tsm_vte_input(vte, p, s.size());
	free(p);
}

bool Impl::run(const Op &op, std::string &res)
{
	res.clear();
	switch (code_of(op)) {
	case C_IN: input_exact(vte, op.bytes); break;
	case C_RESIZE: res = num(tsm_screen_resize(con, A(op, 0), A(op, 1))); break;
	case C_MAXSB: tsm_screen_set_max_sb(con, A(op, 0)); break;
	case C_CLEARSB: tsm_screen_clear_sb(con); break;
	case C_SBUP: tsm_screen_sb_up(con, A(op, 0)); break;
	case C_SBDOWN: tsm_screen_sb_down(con, A(op, 0)); break;
	case C_PGUP: tsm_screen_sb_page_up(con, A(op, 0)); break;
	case C_PGDN: tsm_screen_sb_page_down(con, A(op, 0)); break;
	case C_SBRESET: tsm_screen_sb_reset(con); break;
	case C_SETFLAGS: tsm_screen_set_flags(con, A(op, 0)); break;
	case C_CLRFLAGS: tsm_screen_reset_flags(con, A(op, 0)); break;
	case C_SELSTART: tsm_screen_selection_start(con, A(op, 0), A(op, 1)); break;
	case C_SELTARGET: tsm_screen_selection_target(con, A(op, 0), A(op, 1)); break;
	case C_SELRESET: tsm_screen_selection_reset(con); break;
	case C_SELCOPY: {
		char *out = nullptr;
		arena::refused = false;
		int r = tsm_screen_selection_copy(con, &out);
		if (r == -12 && arena::refused && (4.0 * tsm_screen_get_width(con) + 1) * (tsm_screen_get_height(con) + tsm_screen_sb_get_line_count(con)) > 5e8) { res = "too large"; break; }
		res = num(r) + ":";
		if (r >= 0) {
			if (!out) { bad = "selection copy succeeds without a buffer"; break; }
			if (arena::size_of(out) < (uint64_t)r + 1) { bad = "selection copy returns more than its buffer holds"; break; }
			if (strnlen(out, r + 1) != (size_t)r) bad = "selection copy is not NUL-terminated at its length";
			res.append(out, r);
			vf_free(out);
		} else if (r == -2) {
			res = "none";
		}
		break;
	}
	case C_KEY: res = num(tsm_vte_handle_keyboard(vte, A(op, 0), A(op, 1), A(op, 2), A(op, 3))); break;
	case C_MOUSE: res = num(tsm_vte_handle_mouse(vte, A(op, 0), A(op, 1), A(op, 2), A(op, 3), A(op, 4), A(op, 5), (unsigned char)A(op, 6))); break;
	case C_RESET: tsm_vte_reset(vte); break;
	case C_HARDRESET: tsm_vte_hard_reset(vte); break;
	case C_PALETTE: {
		// the caller's string is gone after the call
		char *p = nullptr;
		if (op.a[0] != 255) {
			p = strdup(palette_names[op.a[0]]);
		}
		res = num(tsm_vte_set_palette(vte, p));
		if (p) { memset(p, 'x', strlen(p)); free(p); }
		break;
	}
	case C_CUSTOMPAL: {
		uint8_t(*p)[3] = nullptr;
		if (op.a[0] != 255) {
			p = (uint8_t(*)[3])malloc(18 * 3);
			memcpy(p, custom_palettes[op.a[0]], 18 * 3);
		}
		res = num(tsm_vte_set_custom_palette(vte, p));
		if (p) { memset(p, 0x55, 18 * 3); free(p); }
		break;
	}
	case C_BS: tsm_vte_set_backspace_sends_delete(vte, A(op, 0)); break;
	case C_DRAW: { static Drawing d; draw_screen(con, d); break; }
	case C_AGE: tsm_verif_set_age(con, ~0ul - A(op, 0)); break;
	case C_MOUSECB: tsm_vte_set_mouse_cb(vte, A(op, 0) ? mouse_cb : nullptr, this); break;
	case C_OSCCB: tsm_vte_set_osc_cb(vte, A(op, 0) ? osc_cb : nullptr, this); break;
	case S_WRITE: {
		tsm_screen_attr a;
		fill_attr(a, test_attr(A(op, 1)));
		tsm_screen_write(con, A(op, 0), &a);
		break;
	}
	case S_SETDEF: {
		tsm_screen_attr a;
		fill_attr(a, test_attr(A(op, 0)));
		tsm_screen_set_def_attr(con, &a);
		break;
	}
	case S_MARGINS: res = num(tsm_screen_set_margins(con, A(op, 0), A(op, 1))); break;
	case S_RESET: tsm_screen_reset(con); break;
	case S_NEWLINE: tsm_screen_newline(con); break;
	case S_SCROLLUP: tsm_screen_scroll_up(con, A(op, 0)); break;
	case S_SCROLLDOWN: tsm_screen_scroll_down(con, A(op, 0)); break;
	case S_MOVETO: tsm_screen_move_to(con, A(op, 0), A(op, 1)); break;
	case S_UP: tsm_screen_move_up(con, A(op, 0), A(op, 1)); break;
	case S_DOWN: tsm_screen_move_down(con, A(op, 0), A(op, 1)); break;
	case S_LEFT: tsm_screen_move_left(con, A(op, 0)); break;
	case S_RIGHT: tsm_screen_move_right(con, A(op, 0)); break;
	case S_LINEEND: tsm_screen_move_line_end(con); break;
	case S_LINEHOME: tsm_screen_move_line_home(con); break;
	case S_TABR: tsm_screen_tab_right(con, A(op, 0)); break;
	case S_TABL: tsm_screen_tab_left(con, A(op, 0)); break;
	case S_INSL: tsm_screen_insert_lines(con, A(op, 0)); break;
	case S_DELL: tsm_screen_delete_lines(con, A(op, 0)); break;
	case S_INSC: tsm_screen_insert_chars(con, A(op, 0)); break;
	case S_DELC: tsm_screen_delete_chars(con, A(op, 0)); break;
	case S_ERCUR: tsm_screen_erase_cursor(con); break;
	case S_ERCHARS: tsm_screen_erase_chars(con, A(op, 0)); break;
	case S_ERL0: tsm_screen_erase_cursor_to_end(con, A(op, 0)); break;
	case S_ERL1: tsm_screen_erase_home_to_cursor(con, A(op, 0)); break;
	case S_ERL2: tsm_screen_erase_current_line(con, A(op, 0)); break;
	case S_ERD0: tsm_screen_erase_cursor_to_screen(con, A(op, 0)); break;
	case S_ERD1: tsm_screen_erase_screen_to_cursor(con, A(op, 0)); break;
	case S_ERD2: tsm_screen_erase_screen(con, A(op, 0)); break;
	case S_SETTAB: tsm_screen_set_tabstop(con); break;
	case S_CLRTAB: tsm_screen_reset_tabstop(con); break;
	case S_CLRTABS: tsm_screen_reset_all_tabstops(con); break;
	default: return false;
	}
	return true;
}

void TermSys::run_model(const Op &op, std::string &res)
{
	Scalars *s = M.s;
	res.clear();
	switch (code_of(op)) {
	case C_IN: M.input(op.bytes.data(), op.bytes.size()); break;
	case C_RESIZE: res = num(M.resize(A(op, 0), A(op, 1))); break;
	case C_MAXSB: M.set_max_sb(A(op, 0)); break;
	case C_CLEARSB: M.clear_sb(); break;
	case C_SBUP: M.sb_up(A(op, 0)); break;
	case C_SBDOWN: M.sb_down(A(op, 0)); break;
	case C_PGUP: M.sb_up((uint64_t)A(op, 0) * s->H); break;
	case C_PGDN: M.sb_down((uint64_t)A(op, 0) * s->H); break;
	case C_SBRESET: s->view = s->sbcount; break;
	case C_SETFLAGS: M.scr_set_flags(A(op, 0)); break;
	case C_CLRFLAGS: M.scr_reset_flags(A(op, 0)); break;
	case C_SELSTART: s->selactive = 1; s->selundef = 0; s->s0 = s->s1 = M.sel_at(A(op, 0), A(op, 1)); break;
	case C_SELTARGET: if (s->selactive) s->s1 = M.sel_at(A(op, 0), A(op, 1)); break;
	case C_SELRESET: s->selactive = 0; s->selundef = 0; break;
	case C_SELCOPY: {
		std::string o;
		int r = M.sel_copy(o);
		res = r == -2 ? "none" : num(r) + ":" + o;
		break;
	}
	case C_KEY: res = num(M.key(A(op, 0), A(op, 1), A(op, 2), A(op, 3))); break;
	case C_MOUSE: res = num(M.mouse_event(A(op, 0), A(op, 1), A(op, 2), A(op, 3), A(op, 4), A(op, 5), A(op, 6))); break;
	case C_RESET: M.vte_reset(); break;
	case C_HARDRESET: M.hard_reset(); break;
	case C_PALETTE: s->pal = (uint8_t)op.a[0]; M.update_palette(); res = "0"; break;
	case C_CUSTOMPAL:
		s->usecustom = op.a[0] != 255;
		s->custom = s->usecustom ? (uint8_t)op.a[0] : 0;
		M.update_palette();
		res = "0";
		break;
	case C_BS: s->bsdel = !!A(op, 0); break;
	case C_DRAW: case C_AGE: break;
	case C_MOUSECB: s->hascb = (uint8_t)((s->hascb & ~1) | (A(op, 0) ? 1 : 0)); break;
	case C_OSCCB: s->hascb = (uint8_t)((s->hascb & ~2) | (A(op, 0) ? 2 : 0)); break;
	case S_WRITE: M.scr_write(A(op, 0), test_attr(A(op, 1))); break;
	case S_SETDEF: s->def = test_attr(A(op, 0)); break;
	case S_MARGINS: M.set_margins(A(op, 0), A(op, 1)); res = "0"; break;
	case S_RESET: M.scr_reset(); break;
	case S_NEWLINE: M.newline(); break;
	case S_SCROLLUP: M.scroll_up(A(op, 0)); break;
	case S_SCROLLDOWN: M.scroll_down(A(op, 0)); break;
	case S_MOVETO: M.move_to(A(op, 0), A(op, 1)); break;
	case S_UP: M.move_up(A(op, 0), A(op, 1)); break;
	case S_DOWN: M.move_down(A(op, 0), A(op, 1)); break;
	case S_LEFT: M.move_left(A(op, 0)); break;
	case S_RIGHT: M.move_right(A(op, 0)); break;
	case S_LINEEND: s->cx = s->W - 1; break;
	case S_LINEHOME: s->cx = 0; break;
	case S_TABR: M.tab_right(A(op, 0)); break;
	case S_TABL: M.tab_left(A(op, 0)); break;
	case S_INSL: M.insert_lines(A(op, 0)); break;
	case S_DELL: M.delete_lines(A(op, 0)); break;
	case S_INSC: M.insert_chars(A(op, 0)); break;
	case S_DELC: M.delete_chars(A(op, 0)); break;
	case S_ERCUR: M.erase(M.curx(), s->cy, M.curx(), s->cy, false); break;
	case S_ERCHARS: M.erase_chars(A(op, 0)); break;
	case S_ERL0: case S_ERL1: case S_ERL2: M.erase_line(code_of(op) - S_ERL0, A(op, 0)); break;
	case S_ERD0: case S_ERD1: case S_ERD2: M.erase_display(code_of(op) - S_ERD0, A(op, 0)); break;
	case S_SETTAB: if (s->cx < s->W) M.tabs[s->cx] = true; break;
	case S_CLRTAB: if (s->cx < s->W) M.tabs[s->cx] = false; break;
	case S_CLRTABS: for (uint32_t i = 0; i < s->W; ++i) M.tabs[i] = false; break;
	}
}

// ------------------------------------------------------------------ system

void TermSys::resolve(Op &op)
{
	op.code = code_of(op);
	keepage |= op.code == C_AGE;
	if (op.code == C_NONE) {
		fprintf(stderr, "unknown operation: %s\n", op.text.c_str());
		abort();
	}
	if (op.code == C_RESIZE && A(op, 0) < 100000 && A(op, 1) < 100000) {
		mw = std::max(mw, A(op, 0));
		mh = std::max(mh, A(op, 1));
	}
	if (op.code == C_MAXSB && A(op, 0) <= 100000) msb = std::max(msb, A(op, 0));
}

void TermSys::init(const Header &h)
{
	uint32_t w = (uint32_t)h.num("cols", 5), hh = (uint32_t)h.num("rows", 3), sb = (uint32_t)h.num("sb", 0);
	cmp = parse_cmp(h.str("cmp", "all"));
	withvte = h.num("vte", 1);
	model = h.num("model", 1);
	if (!model) cmp = CMP_BOUNDS;
	mw = std::max(mw, w);
	mh = std::max(mh, hh);
	msb = std::max(msb, sb <= 100000 ? sb : 0);
	msb = std::max(msb, (uint32_t)h.num("ms", 0));
	uint32_t sw = (uint32_t)h.num("sw", 0);   // widest line that goes to the scrollback
	if (M.MW != mw || M.MH != mh || M.MS < msb || M.SW != (sw ? sw : mw) || !M.buf) M.alloc(mw, mh, msb, sw);
	int cb = (int)h.num("cb", 3);
	if (!I.create(w, hh, cb, withvte)) {
		fprintf(stderr, "cannot create a terminal\n");
		abort();
	}
	if (sb) tsm_screen_set_max_sb(I.con, sb);
	M.init(w, hh, sb);
	M.s->hascb = (uint8_t)cb;
	if (!withvte) {
		// a bare screen: zero attributes
		M.s->flags = 0;
		memset(&M.s->def, 0, sizeof(M.s->def));
		M.s->def.rgb[0] = M.s->def.rgb[1] = M.s->def.rgb[2] = 255;
		M.fill(M.mainc, mw * mh, M.s->def);
		M.fill(M.altc, mw * mh, M.s->def);
	}
	int fail = (int)h.num("cbfail", 0);
	(void)fail;
	drawret = fail;
}

bool TermSys::apply(const Op &op, std::string &err)
{
	std::string r1, r2;
	// ages only say what changed since which drawing (C18); without the history in
	// them, states that differ in nothing else become equal
	if (model && op.code == C_AGE) M.s->aged = 1;
	if (model ? !M.s->aged : !keepage) tsm_verif_set_age(I.con, 1000);
	I.clear_logs();
	M.wr.clear(); M.osc.clear(); M.mouse.clear();
	if (!I.run(op, r1)) { err = "unknown operation " + op.text; return false; }
	if (model) run_model(op, r2);
	if (!I.bad.empty()) { err = I.bad; return false; }
	if (op.code == C_SELCOPY) {
		if ((cmp & CMP_COPY) && !M.s->selundef && r1 != r2 && r1 != "too large") {
			err = "selection copy gives \"" + esc_bytes(r1) + "\", expected \"" + esc_bytes(r2) + "\"";
			return false;
		}
	} else if ((cmp & CMP_RET) && r1 != r2) {
		err = "returns " + r1 + ", expected " + r2;
		return false;
	}
	return compare(err);
}

static std::string cellstr(uint32_t ch, uint32_t len, uint32_t w, const Attr &a)
{
	char b[160];
	snprintf(b, sizeof(b), "ch U+%04X len %u width %u fg %d #%02x%02x%02x bg %d #%02x%02x%02x bits %02x", ch, len, w, a.fc, a.rgb[0],
		 a.rgb[1], a.rgb[2], a.bc, a.rgb[3], a.rgb[4], a.rgb[5], a.bits);
	return b;
}

bool TermSys::compare(std::string &err)
{
	char b[512];
	Scalars *s = M.s;
#define CHECK(mask, what, got, want) \
	do { \
		if (cmp & (mask)) { \
			unsigned long g_ = (got), w_ = (want); \
			if (g_ != w_) { \
				snprintf(b, sizeof(b), "%s is %lu (0x%lx), expected %lu (0x%lx)", what, g_, g_, w_, w_); \
				err = b; \
				return false; \
			} \
		} \
	} while (0)
	if (cmp & CMP_BOUNDS) {
		unsigned w = tsm_screen_get_width(I.con), h = tsm_screen_get_height(I.con);
		unsigned x = tsm_screen_get_cursor_x(I.con), y = tsm_screen_get_cursor_y(I.con);
		if (!w || !h || y >= h || x > w || (model && x == w && w == s->W && s->cx != w)) {
			snprintf(b, sizeof(b), "cursor %u,%u is outside the %ux%u screen%s", x, y, w, h, x == w ? " without a pending wrap" : "");
			err = b;
			return false;
		}
	}
	CHECK(CMP_SIZE, "width", tsm_screen_get_width(I.con), s->W);
	CHECK(CMP_SIZE, "height", tsm_screen_get_height(I.con), s->H);
	CHECK(CMP_CURSOR, "cursor x", tsm_screen_get_cursor_x(I.con), s->cx);
	CHECK(CMP_CURSOR, "cursor y", tsm_screen_get_cursor_y(I.con), s->cy);
	CHECK(CMP_SFLAGS, "screen flags", tsm_screen_get_flags(I.con), s->flags);
	CHECK(CMP_SB, "scrollback line count", tsm_screen_sb_get_line_count(I.con), s->sbcount);
	CHECK(CMP_SB, "scrollback line position", tsm_screen_sb_get_line_pos(I.con), s->view);
	if (withvte) {
		CHECK(CMP_VFLAGS, "terminal flags", tsm_vte_get_flags(I.vte), s->vflags);
		CHECK(CMP_MMODE, "mouse mode", tsm_vte_get_mouse_mode(I.vte), s->mmode);
		CHECK(CMP_MMODE, "mouse event", tsm_vte_get_mouse_event(I.vte), s->mevent);
		if ((cmp & CMP_REPLY) && I.wr != M.wr) {
			err = "writes \"" + esc_bytes(I.wr) + "\", expected \"" + esc_bytes(M.wr) + "\"";
			return false;
		}
		if ((cmp & CMP_OSC) && I.osc != M.osc) {
			err = "OSC callbacks \"" + esc_bytes(I.osc) + "\", expected \"" + esc_bytes(M.osc) + "\"";
			return false;
		}
		if ((cmp & CMP_MCB) && I.mouse != M.mouse) {
			err = "mouse callbacks \"" + I.mouse + "\", expected \"" + M.mouse + "\"";
			return false;
		}
		if (cmp & CMP_DEF) {
			tsm_screen_attr a;
			tsm_vte_get_def_attr(I.vte, &a);
			Attr x = from_attr(a);
			if (!(x == s->vdef)) {
				err = "default attributes are " + cellstr(0, 0, 0, x) + ", expected " + cellstr(0, 0, 0, s->vdef);
				return false;
			}
		}
	}
	if (!(cmp & (CMP_BOUNDS | CMP_CH | CMP_WIDTH | CMP_ATTR | CMP_INV | CMP_ID | CMP_DRAW2))) return true;
	static Drawing d, d2;
	d.ret = drawret;
	draw_screen(I.con, d);
	if (!d.order || d.W != tsm_screen_get_width(I.con)) {
		err = "draw does not visit every cell exactly once in row-major order";
		return false;
	}
	if (!model || d.W != s->W || d.H != s->H) return true; // not compared here
	std::map<uint64_t, std::pair<uint32_t, uint8_t>> ids;
	std::map<std::pair<uint32_t, uint8_t>, uint64_t> glyphs;
	for (uint32_t y = 0; y < s->H; ++y)
		for (uint32_t x = 0; x < s->W; ++x) {
			DrawnCell &g = d.c[y * d.W + x];
			Cell c;
			bool beyond, inv;
			M.view_cell(x, y, c, beyond, inv);
			Attr ga = from_attr(g.attr);
			bool ginv = ga.bits & INVERSE;
			bool bad = false;
			uint32_t ch = c.ch;
			uint32_t len = ch && !(ch == ' ' && !(c.at.bits & UNDERLINE)) ? 1 : 0;
			if (beyond) {
				// nothing was ever there: only emptiness is defined
				bad = (cmp & CMP_CH) && g.len;
				len = 0;
			} else {
				if (cmp & CMP_WIDTH) bad |= g.width != c.w;
				if (c.w) {
					if (cmp & CMP_CH) bad |= g.len != len || (len && g.ch != ch);
					if (cmp & CMP_ATTR) {
						Attr p = ga, q = c.at;
						p.bits &= ~INVERSE;
						q.bits &= ~INVERSE;
						bad |= !(p == q);
					}
				}
			}
			if ((cmp & CMP_INV) && c.w && !beyond && !(s->selactive && s->selundef)) bad |= ginv != inv;
			if (bad) {
				if (inv) c.at.bits |= INVERSE; else c.at.bits &= ~INVERSE;
				snprintf(b, sizeof(b), "cell %u,%u shows ", x, y);
				err = b + cellstr(g.ch, g.len, g.width, ga) + ", expected " + cellstr(len ? ch : 0, len, c.w, c.at);
				return false;
			}
			if ((cmp & CMP_ID) && !beyond && c.w) {
				std::pair<uint32_t, uint8_t> gl(c.ch, (uint8_t)(ga.bits & ~PROTECT));
				auto i = ids.emplace(g.id, gl);
				auto j = glyphs.emplace(gl, g.id);
				if (i.first->second != gl || j.first->second != g.id) {
					snprintf(b, sizeof(b), "cell %u,%u: id %lx is not a function of the glyph (U+%04X bits %02x and U+%04X bits %02x)", x, y,
						 (unsigned long)g.id, gl.first, gl.second, i.first->second.first, i.first->second.second);
					err = b;
					return false;
				}
			}
		}
	if (cmp & CMP_DRAW2) {
		d2.ret = !drawret;
		draw_screen(I.con, d2);
		bool same = d2.order && d2.c.size() == d.c.size();
		for (size_t i = 0; same && i < d.c.size(); ++i) {
			DrawnCell &p = d.c[i], &q = d2.c[i];
			same = p.id == q.id && p.ch == q.ch && p.len == q.len && p.width == q.width && from_attr(p.attr) == from_attr(q.attr);
		}
		if (!same) {
			err = "drawing twice in a row gives different results";
			return false;
		}
		CHECK(CMP_CURSOR, "cursor x after drawing", tsm_screen_get_cursor_x(I.con), s->cx);
		CHECK(CMP_CURSOR, "cursor y after drawing", tsm_screen_get_cursor_y(I.con), s->cy);
		CHECK(CMP_SFLAGS, "screen flags after drawing", tsm_screen_get_flags(I.con), s->flags);
		CHECK(CMP_SB, "scrollback line position after drawing", tsm_screen_sb_get_line_pos(I.con), s->view);
	}
#undef CHECK
	return true;
}

bool TermSys::finish(std::string &err)
{
	Impl t;
	t.con = I.con;
	t.vte = I.vte;
	t.destroy();
	if (arena::hdr()->live) {
		err = std::to_string(arena::hdr()->live) + " blocks are leaked after the last reference was dropped";
		return false;
	}
	return true;
}
