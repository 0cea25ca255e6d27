// Tables of the reference model.
#include "model.hpp"
#include "tables_data.inc"

namespace m {

const char *const palette_names[] = {
	"legacy", "vga", "solarized", "solarized-black", "solarized-white",
	"soft-black", "base16-dark", "base16-light", "custom", "no-such-palette", "",
};
const int n_palette_names = sizeof(palette_names) / sizeof(*palette_names);

const uint8_t (*palette_by_name(const char *n))[3]
{
	if (!strcmp(n, "legacy")) return pal_legacy;
	if (!strcmp(n, "vga")) return pal_vga;
	if (!strcmp(n, "solarized")) return pal_solarized;
	if (!strcmp(n, "solarized-black")) return pal_solarized_black;
	if (!strcmp(n, "solarized-white")) return pal_solarized_white;
	if (!strcmp(n, "soft-black")) return pal_soft_black;
	if (!strcmp(n, "base16-dark")) return pal_base16_dark;
	if (!strcmp(n, "base16-light")) return pal_base16_light;
	return nullptr;
}

uint8_t custom_palettes[3][18][3];

static uint8_t wtab[0x110000];

static struct Init {
	Init()
	{
		for (int k = 0; k < 3; ++k)
			for (int i = 0; i < 18; ++i)
				for (int j = 0; j < 3; ++j)
					custom_palettes[k][i][j] = (uint8_t)(7 + 80 * k + 4 * i + j * 37);
		memset(wtab, 1, sizeof(wtab));
		for (auto &r : width_ranges)
			memset(wtab + r.a, r.w, r.b - r.a + 1);
	}
} init_;

unsigned char_width(uint32_t ch)
{
	if (ch >= 0x80000000u)
		return 0;
	return ch < 0x110000 ? wtab[ch] : 1;
}

uint32_t charset_map(int set, uint32_t i)
{
	static const uint32_t spec[] = {
		9830, 9618, 9225, 9228, 9229, 9226, 176, 177, 9252, 9227, 9496, 9488, 9484, 9492, 9532,
		9146, 9147, 9472, 9148, 9149, 9500, 9508, 9524, 9516, 9474, 8804, 8805, 960, 8800, 163, 8901,
	};
	switch (set) {
	case CS_ASCII:
		return i + 32;
	case CS_UPPER:
		return i + 160;
	case CS_DECSPEC:
		if (i + 32 == 0x5f)
			return 0;
		if (i + 32 >= 0x60 && i + 32 <= 0x7e)
			return spec[i + 32 - 0x60];
		return i + 32;
	default:
		// DEC multinational: undefined positions print nothing
		switch (i + 160) {
		case 0xa4: case 0xa6: case 0xac: case 0xad: case 0xae: case 0xaf:
		case 0xb4: case 0xb8: case 0xbe: case 0xd0: case 0xde: case 0xf0: case 0xfe:
			return 0;
		case 0xa8: return 164;
		case 0xd7: return 338;
		case 0xdd: return 376;
		case 0xf7: return 339;
		case 0xfd: return 255;
		}
		return i + 160;
	}
}

size_t utf8_encode(uint32_t c, char *o)
{
	if (c > 0x10ffff || (c >= 0xd800 && c < 0xe000) || (c & 0xfffe) == 0xfffe || (c >= 0xfdd0 && c <= 0xfdef))
		return 0;
	if (c < 0x80) {
		o[0] = (char)c;
		return 1;
	}
	int n = c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
	for (int i = n - 1; i > 0; --i) {
		o[i] = (char)(0x80 | (c & 0x3f));
		c >>= 6;
	}
	o[0] = (char)((0xf00 >> n) | c);
	return n;
}

const Attr &test_attr(int i)
{
	static const Attr a[] = {
		{ 7, 0, { 1, 2, 3, 4, 5, 6 }, 0 },
		{ -1, -1, { 200, 100, 50, 25, 12, 6 }, BOLD | UNDERLINE },
		{ 3, 4, { 9, 8, 7, 6, 5, 4 }, PROTECT },
		{ 16, 17, { 90, 80, 70, 60, 50, 40 }, INVERSE | BLINK | ITALIC },
		{ 2, 1, { 11, 12, 13, 14, 15, 16 }, PROTECT | INVERSE },
	};
	return a[i % 5];
}

// ---------------------------------------------------------------- keyboard

namespace {
struct Plain { uint32_t sym; const char *out; };
struct Pad { uint32_t sym; const char *app, *num; };
struct Fn { uint32_t sym; const char *plain, *shift; };

const Plain plain[] = {
	{ 0xff09, "\t" }, { 0xff89, "\t" }, { 0xfe20, "\x1b[Z" }, { 0xff0a, "\n" }, { 0xff0b, "\x0b" },
	{ 0xff15, "\x15" }, { 0xff1b, "\x1b" }, { 0xff68, "\x1b[1~" }, { 0xff63, "\x1b[2~" },
	{ 0xffff, "\x1b[3~" }, { 0xff60, "\x1b[4~" }, { 0xff55, "\x1b[5~" }, { 0xff9a, "\x1b[5~" },
	{ 0xff56, "\x1b[6~" }, { 0xff9b, "\x1b[6~" }, { 0xff80, " " },
};
const Pad pad[] = {
	{ 0xff9e, "p", "0" }, { 0xffb0, "p", "0" }, { 0xffb1, "q", "1" }, { 0xffb2, "r", "2" },
	{ 0xffb3, "s", "3" }, { 0xffb4, "t", "4" }, { 0xffb5, "u", "5" }, { 0xffb6, "v", "6" },
	{ 0xffb7, "w", "7" }, { 0xffb8, "x", "8" }, { 0xffb9, "y", "9" }, { 0xffad, "m", "-" },
	{ 0xffac, "l", "," }, { 0xff9f, "n", "." }, { 0xffae, "n", "." }, { 0xffbd, "X", "=" },
	{ 0xffaf, "o", "/" }, { 0xffaa, "j", "*" }, { 0xffab, "k", "+" },
};
const Fn fn[] = {
	{ 0xffbe, "\x1bOP", "\x1b[23~" }, { 0xff91, "\x1bOP", "\x1b[23~" },
	{ 0xffbf, "\x1bOQ", "\x1b[24~" }, { 0xff92, "\x1bOQ", "\x1b[24~" },
	{ 0xffc0, "\x1bOR", "\x1b[25~" }, { 0xff93, "\x1bOR", "\x1b[25~" },
	{ 0xffc1, "\x1bOS", "\x1b[26~" }, { 0xff94, "\x1bOS", "\x1b[26~" },
	{ 0xffc2, "\x1b[15~", "\x1b[28~" }, { 0xffc3, "\x1b[17~", "\x1b[29~" },
	{ 0xffc4, "\x1b[18~", "\x1b[31~" }, { 0xffc5, "\x1b[19~", "\x1b[32~" },
	{ 0xffc6, "\x1b[20~", "\x1b[33~" }, { 0xffc7, "\x1b[21~", "\x1b[34~" },
	{ 0xffc8, "\x1b[23~", "\x1b[23;2~" }, { 0xffc9, "\x1b[24~", "\x1b[24;2~" },
	{ 0xffca, "\x1b[25~", "\x1b[25;2~" }, { 0xffcb, "\x1b[26~", "\x1b[26;2~" },
	{ 0xffcc, "\x1b[28~", "\x1b[28;2~" }, { 0xffcd, "\x1b[29~", "\x1b[29;2~" },
	{ 0xffce, "\x1b[31~", "\x1b[31;2~" }, { 0xffcf, "\x1b[32~", "\x1b[32;2~" },
	{ 0xffd0, "\x1b[33~", "\x1b[33;2~" }, { 0xffd1, "\x1b[34~", "\x1b[34;2~" },
};
}

// control character of a key, -1 if there is none
static int ctrl_code(uint32_t k)
{
	if (k >= 'a' && k <= 'z')
		return (int)(k - 'a' + 1);
	if (k >= 'A' && k <= 'Z')
		return (int)(k - 'A' + 1);
	switch (k) {
	case '2': case ' ': return 0;
	case '3': case '[': case '{': return 0x1b;
	case '4': case '\\': case '|': return 0x1c;
	case '5': case ']': case '}': return 0x1d;
	case '6': case '`': case '~': return 0x1e;
	case '7': case '/': case '?': return 0x1f;
	case '8': return 0x7f;
	}
	return -1;
}

bool Term::key(uint32_t keysym, uint32_t ascii, uint32_t mods, uint32_t unicode)
{
	const uint32_t SHIFT = 1, CTRL = 4, ALT = 8;
	std::string out;
	bool known = true;
	char b[16];
	int c;

	if ((mods & CTRL) && (c = ctrl_code(ascii ? ascii : keysym)) >= 0) {
		out.assign(1, (char)c);
		goto send;
	}
	for (auto &p : plain)
		if (p.sym == keysym) {
			out = p.out;
			goto send;
		}
	for (auto &p : pad)
		if (p.sym == keysym) {
			out = (s->vflags & V_KAM_PAD) ? std::string("\x1bO") + p.app : p.num;
			goto send;
		}
	for (auto &p : fn)
		if (p.sym == keysym) {
			out = (mods & SHIFT) ? p.shift : p.plain;
			goto send;
		}
	switch (keysym) {
	case 0xff08: out = s->bsdel ? "\x7f" : "\x08"; goto send;
	case 0xff8d:
		if (s->vflags & V_KAM_PAD) {
			out = "\x1bOM";
			goto send;
		}
		/* fallthrough */
	case 0xff0d: out = (s->vflags & V_LNM) ? "\r\n" : "\r"; goto send;
	case 0xff52: case 0xff97: c = 'A'; goto cursor;
	case 0xff54: case 0xff99: c = 'B'; goto cursor;
	case 0xff53: case 0xff98: c = 'C'; goto cursor;
	case 0xff51: case 0xff96: c = 'D'; goto cursor;
	case 0xff50: case 0xff95: c = 'H'; goto home;
	case 0xff57: case 0xff9c: c = 'F'; goto home;
	}
	if (unicode == 0xffffffffu) {
		known = false;
		goto send;
	}
	if (s->vflags & V_7BIT)
		out.assign(1, unicode > 0x7f ? '?' : (char)unicode);
	else if (s->vflags & V_8BIT)
		out.assign(1, unicode > 0xff ? '?' : (char)unicode);
	else
		out.assign(b, utf8_encode(unicode >= 0x80000000u ? 0 : unicode, b));
	goto send;
cursor:
	if (mods & CTRL) {
		snprintf(b, sizeof(b), "\x1b[1;5%c", c);
		out = b;
		goto send;
	}
home:
	snprintf(b, sizeof(b), "\x1b%c%c", (s->vflags & V_CKM) ? 'O' : '[', c);
	out = b;
send:
	if (!known)
		return false;
	if (mods & ALT)
		s->vflags |= V_PREPEND;
	reply(out.data(), out.size(), true);
	return true;
}

} // namespace m
