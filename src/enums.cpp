// Finite spaces that are not operation trees: byte strings for the UTF-8
// decoder, code points for the encoder and the widths, large symbol tables.
#include "plans.hpp"
#include "term_sys.hpp"
#include <unordered_map>

namespace {

// ------------------------------------------------------------ UTF-8 decoder

// the decoder as the property states it
struct Dec {
	uint8_t len, have;
	uint32_t ch;
	// 1 if the byte completes a character (or a replacement)
	bool feed(uint8_t b, uint32_t &out)
	{
		if (!len) {
			if (b < 0x80) { out = b; return true; }
			if (b < 0xc0) return false;          // stray: no character at all
			if (b < 0xc2 || b > 0xf7) { out = 0xfffd; return true; }
			len = b < 0xe0 ? 2 : b < 0xf0 ? 3 : 4;
			have = 1;
			ch = b & (0x7fu >> len);
			return false;
		}
		uint32_t c = (ch << 6) | (b & 0x3f);
		bool ok = (b & 0xc0) == 0x80;
		++have;
		if (have == 2 && len == 3) ok = ok && c >= 0x20 && !(c >= 0x360 && c < 0x380);
		if (have == 2 && len == 4) ok = ok && c >= 0x10 && c <= 0x10f;
		if (!ok) { len = have = 0; ch = 0; out = 0xfffd; return true; }
		ch = c;
		if (have < len) return false;
		out = c;
		len = have = 0;
		ch = 0;
		return true;
	}
};

bool feed_both(void *mach, Dec &d, uint8_t b, char *err)
{
	uint32_t g = 0, w = 0;
	int r = sh_utf8_feed(mach, (char)b, &g);
	bool e = d.feed(b, w);
	if ((r != 0) == e && (!e || g == w)) return true;
	if (!r) sprintf(err, "byte %02x delivers nothing, expected U+%04X", b, w);
	else if (!e) sprintf(err, "byte %02x delivers U+%04X, expected nothing yet", b, g);
	else sprintf(err, "byte %02x delivers U+%04X, expected U+%04X", b, g, w);
	return false;
}

struct Utf8Sys : System {
	void *mach = nullptr;
	Dec d{};
	void init(const Header &) override { if (sh_utf8_new(&mach)) abort(); d = Dec{}; }
	bool apply(const Op &op, std::string &err) override
	{
		char e[128];
		for (unsigned char b : op.bytes)
			if (!feed_both(mach, d, b, e)) { err = e; return false; }
		return true;
	}
	bool finish(std::string &err) override
	{
		sh_utf8_free(mach);
		if (arena::hdr()->live) { err = "the decoder is leaked"; return false; }
		return true;
	}
};

void utf8_task(uint64_t t, EnumCtx &cx, int len, const std::vector<uint8_t> &alpha)
{
	void *mach;
	if (sh_utf8_new(&mach)) abort();
	size_t sz = arena::size_of(mach);
	char save[8][64];
	if (sz > sizeof(save[0])) abort();
	Dec d{};
	char err[128];
	size_t n = alpha.size();
	int idx[8] = {};
	uint8_t str[8];
	Dec ds[8];
	auto report = [&](int k) {
		std::string s(str, str + k + 1);
		cx.fail("system utf8\nop feed " + esc_bytes(s), err);
	};
	// the task fixes the first byte
	str[0] = alpha[t];
	++cx.slot->beat;
	++cx.st->transitions;
	memset((void *)cx.slot->cur, 0, sizeof(cx.slot->cur));
	if (!feed_both(mach, d, str[0], err)) { report(0); return; }
	int k = 1;
	memcpy(save[1], mach, sz);
	ds[1] = d;
	idx[1] = 0;
	uint64_t trans = 0, leafs = 0;
	while (k >= 1) {
		if (idx[k] == (int)n) {
			--k;
			if (k >= 1) ++idx[k];
			continue;
		}
		memcpy(mach, save[k], sz);
		d = ds[k];
		str[k] = alpha[idx[k]];
		++trans;
		if (!feed_both(mach, d, str[k], err)) {
			report(k);
			if (cx.stopped()) break;
			++idx[k];
			continue;
		}
		if (k + 1 < len) {
			++k;
			memcpy(save[k], mach, sz);
			ds[k] = d;
			idx[k] = 0;
			if (k < 3) { ++cx.slot->beat; if (cx.stopped()) break; }
		} else {
			++leafs;
			++idx[k];
		}
	}
	cx.st->transitions += trans;
	cx.st->traces += leafs;
	cx.st->states += leafs;
	sh_utf8_free(mach);
}

// ------------------------------------------------------- encoder and widths

bool check_enc(uint32_t v, char *err)
{
	if (v > 0x10ffff) {
		uint64_t q = 0x5555555555555555ull;
		size_t r = tsm_ucs4_to_utf8(v, (char *)&q);
		if (!r && q == 0x5555555555555555ull) return true;
		sprintf(err, "encoding 0x%x gives %zu bytes or writes into the buffer", v, r);
		return false;
	}
	char g[8], w[4];
	memset(g, 0x55, sizeof(g));
	size_t n = tsm_ucs4_to_utf8(v, g), m = m::utf8_encode(v, w);
	if (n == m && n <= 4 && !memcmp(g, w, n < 4 ? n : 4) && g[4] == 0x55 && g[5] == 0x55 && g[6] == 0x55 && g[7] == 0x55) return true;
	sprintf(err, "encoding 0x%x gives %zu bytes %02x %02x %02x %02x, expected %zu bytes %02x %02x %02x %02x", v, n, (uint8_t)g[0], (uint8_t)g[1], (uint8_t)g[2], (uint8_t)g[3], m,
		m > 0 ? (uint8_t)w[0] : 0, m > 1 ? (uint8_t)w[1] : 0, m > 2 ? (uint8_t)w[2] : 0, m > 3 ? (uint8_t)w[3] : 0);
	return false;
}

bool check_width(uint32_t v, char *err)
{
	unsigned g = tsm_ucs4_get_width(v);
	if (v > 0x10ffff) {
		if (g <= 2) return true;
		sprintf(err, "the width of 0x%x is %u", v, g);
		return false;
	}
	if (g == m::char_width(v)) return true;
	sprintf(err, "the width of U+%04X is %u, expected %u", v, g, m::char_width(v));
	return false;
}

// prints the code point through both ways and looks at the cell
bool check_print(Impl &I, uint32_t v, char *err)
{
	char u[4];
	size_t n = m::utf8_encode(v, u);
	unsigned w = m::char_width(v);
	static Drawing d;
	tsm_screen_attr at;
	fill_attr(at, m::test_attr(0));
	for (int way = 0; way < 2; ++way) {
		if (way == 0 && (v < 0x20 || (v >= 0x7f && v < 0xa0) || !n)) continue;
		tsm_screen_erase_screen(I.con, false);
		tsm_screen_move_to(I.con, 0, 0);
		if (way == 0) tsm_vte_input(I.vte, u, n);
		else tsm_screen_write(I.con, v, &at);
		unsigned x = tsm_screen_get_cursor_x(I.con);
		if (x != w) { sprintf(err, "%s U+%04X moves the cursor by %u, its width is %u", way ? "writing" : "printing", v, x, w); return false; }
		draw_screen(I.con, d);
		DrawnCell &c = d.c[0];
		if (!w) {
			if (c.len || c.width != 1) { sprintf(err, "%s U+%04X of width 0 changes the cell", way ? "writing" : "printing", v); return false; }
			continue;
		}
		bool blank = v == ' ' || v == 0;
		if (c.width != w || (w == 2 && d.c[1].width != 0) || c.len != (blank ? 0 : 1) || (c.len && c.ch != v)) {
			sprintf(err, "%s U+%04X shows %u code points, first U+%04X, width %u, then width %u", way ? "writing" : "printing", v, c.len, c.ch, c.width, d.c[1].width);
			return false;
		}
	}
	return true;
}

bool check_alloc(const uint32_t *s, size_t n, char *err)
{
	std::string want;
	char u[4];
	for (size_t i = 0; i < n; ++i) want.append(u, m::utf8_encode(s[i], u));
	uint64_t live = arena::hdr()->live;
	for (int how = 0; how < 3; ++how) {
		size_t len = 12345;
		if (how == 1) arena::fail_set(1, true);
		char *p = tsm_ucs4_to_utf8_alloc(s, n, how == 2 ? nullptr : &len);
		bool failed = how == 1 && arena::hdr()->failed;
		arena::fail_off();
		if (failed ? p != nullptr : (p == nullptr) != want.empty()) { sprintf(err, "the string form of %zu code points is %s", n, p ? "not refused" : "refused"); return false; }
		if (p) {
			if (how != 2 && len != want.size()) { sprintf(err, "the string form has length %zu, expected %zu", len, want.size()); return false; }
			if (arena::size_of(p) < want.size()) { sprintf(err, "the string form does not fit into its buffer"); return false; }
			for (size_t i = 0; i < want.size(); ++i)
				if (p[i] != want[i]) { sprintf(err, "byte %zu of the string form is wrong", i); return false; }
			vf_free(p);
		}
		if (arena::hdr()->live != live) { sprintf(err, "the string form leaks"); return false; }
	}
	return true;
}

struct UcsSys : System {
	Impl I;
	void init(const Header &) override { if (!I.create(4, 1, 0, true)) abort(); }
	bool apply(const Op &op, std::string &err) override
	{
		char e[256] = "";
		bool ok = true;
		if (op.name == "enc") ok = check_enc((uint32_t)op.a[0], e);
		else if (op.name == "width") ok = check_width((uint32_t)op.a[0], e);
		else if (op.name == "print") ok = check_print(I, (uint32_t)op.a[0], e);
		else if (op.name == "alloc") {
			std::vector<uint32_t> s(op.a.begin(), op.a.end());
			uint32_t none = 0;
			ok = check_alloc(s.empty() ? &none : s.data(), s.size(), e);
		}
		err = e;
		return ok;
	}
};

// --------------------------------------------------- large symbol tables

// chains over an alphabet: every string of length 1..L, in one of several orders,
// with one failing allocation
bool check_symbols(int A, int L, int order, uint64_t failat, bool all, uint64_t &allocs, uint64_t &nsym, bool &failed, char *err)
{
	void *t;
	if (sh_sym_new(&t)) { sprintf(err, "no table"); return false; }
	struct Str { int len; uint8_t c[8]; };
	std::vector<Str> strs;
	std::vector<uint32_t> ids;
	std::map<std::vector<uint8_t>, uint32_t> byname;
	auto cp = [&](int k) { return (uint32_t)(k == 0 ? 0x61 : k == 1 ? 0x300 : 0x300 + k * 7); };
	for (int i = 0; i < A; ++i) {
		Str s{ 1, { (uint8_t)i } };
		strs.push_back(s);
		ids.push_back(sh_sym_make(cp(i)));
		byname[{ (uint8_t)i }] = ids.back();
	}
	std::unordered_map<uint32_t, size_t> byid;
	for (size_t i = 0; i < ids.size(); ++i) byid[ids[i]] = i;
	arena::fail_set(failat ? failat : ~0ull, all);
	auto add = [&](size_t base, int k) -> bool {
		Str s = strs[base];
		if (s.len >= L) return true;
		for (int rep = 0; rep < 3; ++rep) {
			uint64_t f0 = arena::hdr()->failed;
			uint32_t r = sh_sym_append(t, ids[base], cp(k));
			bool f = arena::hdr()->failed != f0;
			failed |= f;
			if (f) {
				if (r != ids[base]) { sprintf(err, "append without memory returns %u instead of %u", r, ids[base]); return false; }
				if (all) arena::fail_off();       // memory is back
				continue;
			}
			Str q = s;
			q.c[q.len++] = (uint8_t)k;
			std::vector<uint8_t> key(q.c, q.c + q.len);
			auto i = byname.find(key);
			if (i != byname.end()) {
				if (i->second != r) { sprintf(err, "append returns %u for a string whose symbol is %u", r, i->second); return false; }
			} else {
				if (byid.count(r)) { sprintf(err, "symbol %u stands for two strings", r); return false; }
				byname[key] = r;
				byid[r] = strs.size();
				strs.push_back(q);
				ids.push_back(r);
			}
		}
		return true;
	};
	bool ok = true;
	for (size_t i = 0; ok && i < strs.size(); ++i) {
		if (order == 0) for (int k = 0; ok && k < A; ++k) ok = add(i, k);
		else if (order == 1) for (int k = A - 1; ok && k >= 0; --k) ok = add(i, k);
		else for (int k = 0; ok && k < A; ++k) ok = add(order == 2 ? strs.size() - 1 - (i % strs.size()) : i, (k * 5 + (int)i) % A);
	}
	allocs = arena::hdr()->allocs;
	arena::fail_off();
	for (size_t i = 0; ok && i < strs.size(); ++i) {
		uint32_t id = ids[i];
		size_t n = 0;
		const uint32_t *p = sh_sym_get(t, &id, &n);
		ok = p && n == (size_t)strs[i].len;
		for (size_t k = 0; ok && k < n; ++k) ok = p[k] == cp(strs[i].c[k]);
		if (!ok) sprintf(err, "symbol %u, number %zu of %zu, is not the string it was built from", ids[i], i, strs.size());
		if (ok && sh_sym_width(t, ids[i]) != m::char_width(cp(strs[i].c[0]))) { sprintf(err, "symbol %u has a wrong width", ids[i]); ok = false; }
	}
	nsym = strs.size();
	sh_sym_unref(t);
	if (ok && arena::hdr()->live) { sprintf(err, "%lu blocks are leaked", arena::hdr()->live); ok = false; }
	return ok;
}

struct SymsSys : System {
	void init(const Header &) override {}
	bool apply(const Op &op, std::string &err) override
	{
		char e[256] = "";
		uint64_t a, n;
		bool f = false;
		bool ok = check_symbols((int)op.a[0], (int)op.a[1], (int)op.a[2], (uint64_t)op.a[3], op.a[4], a, n, f, e);
		err = e;
		return ok;
	}
};

std::string hex(uint64_t v) { char b[32]; snprintf(b, sizeof(b), "0x%lx", v); return b; }

} // namespace

std::unique_ptr<System> make_enum(const std::string &n)
{
	if (n == "utf8") return std::unique_ptr<System>(new Utf8Sys);
	if (n == "ucs4") return std::unique_ptr<System>(new UcsSys);
	if (n == "syms") return std::unique_ptr<System>(new SymsSys);
	return nullptr;
}

void add_utf8_enums(Plan &p, bool thorough)
{
	std::vector<uint8_t> all;
	for (int i = 0; i < 256; ++i) all.push_back((uint8_t)i);
	EnumJob j;
	j.name = "decoder: all byte strings";
	j.ntasks = 256;
	j.bound = "all 256^4 strings of four bytes";
	j.run = [all](uint64_t t, EnumCtx &cx) { utf8_task(t, cx, 4, all); };
	j.describe = [](const uint64_t *) { return std::string("system utf8\n"); };
	p.enums.push_back(j);
	std::vector<uint8_t> cls = { 0x00, 0x1b, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9b, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfe, 0xff };
	int len = thorough ? 7 : 6;
	EnumJob k;
	k.name = "decoder: longer strings";
	k.ntasks = cls.size();
	k.bound = "all strings of " + std::to_string(len) + " bytes over 30 class boundaries";
	k.run = [cls, len](uint64_t t, EnumCtx &cx) { utf8_task(t, cx, len, cls); };
	k.describe = j.describe;
	p.enums.push_back(k);
}

void add_unicode_enums(Plan &p, bool thorough)
{
	auto values = [&](const char *name, uint64_t total, uint64_t chunk, std::function<bool(uint32_t, char *)> f, const char *op, const char *bound) {
		EnumJob j;
		j.name = name;
		j.ntasks = (total + chunk - 1) / chunk;
		j.bound = bound;
		std::string ops = op;
		j.run = [=](uint64_t t, EnumCtx &cx) {
			char err[256];
			for (uint64_t v = t * chunk; v < total && v < (t + 1) * chunk; ++v) {
				cx.slot->cur[0] = v;
				if ((v & 4095) == 0) { ++cx.slot->beat; if (cx.stopped()) return; }
				++cx.st->transitions;
				++cx.st->traces;
				++cx.st->states;
				if (!f((uint32_t)v, err)) cx.fail("system ucs4\nop " + ops + " " + hex(v), err);
			}
		};
		j.describe = [=](const uint64_t *cur) { return "system ucs4\nop " + ops + " " + hex(cur[0]) + "\n"; };
		p.enums.push_back(j);
	};
	values("encoder", 1ull << 32, 1 << 22, check_enc, "enc", "all 2^32 values");
	values("width", thorough ? 1ull << 32 : 0x120000, 1 << 16, check_width, "width", "all code points and beyond");
	// neither helper remembers anything: the value follows related ones
	// (one bit away, or equal in the low sixteen or eight bits)
	{
		EnumJob j;
		j.name = "after another";
		const uint64_t chunk = 1 << 14, total = 0x110000;
		j.ntasks = (total + chunk - 1) / chunk;
		j.bound = "every code point after each one that differs in one bit, in the plane only, or is fixed";
		auto other = [](uint64_t v, int k) {
			static const uint32_t fix[] = { 0, 'A', 0x301, 0x4e00, 0x1f600, 0xfffe, 0xd800, 0x110000, 0xffffffff };
			return k < 32 ? v ^ (1ull << k) : k < 49 ? (v & 0xffff) | (uint64_t)(k - 32) << 16 : fix[k - 49];
		};
		j.run = [=](uint64_t t, EnumCtx &cx) {
			char err[256];
			for (uint64_t v = t * chunk; v < total && v < (t + 1) * chunk; ++v)
				for (int k = 0; k < 58; ++k) {
					uint64_t w = other(v, k);
					cx.slot->cur[0] = w;
					cx.slot->cur[1] = v;
					if (k == 0 && (v & 255) == 0) { ++cx.slot->beat; if (cx.stopped()) return; }
					cx.st->transitions += 2;
					++cx.st->traces;
					++cx.st->states;
					if (!check_width((uint32_t)w, err) || !check_width((uint32_t)v, err))
						cx.fail("system ucs4\nop width " + hex(w) + "\nop width " + hex(v), err);
					if (!check_enc((uint32_t)w, err) || !check_enc((uint32_t)v, err))
						cx.fail("system ucs4\nop enc " + hex(w) + "\nop enc " + hex(v), err);
				}
		};
		j.describe = [=](const uint64_t *cur) { return "system ucs4\nop width " + hex(cur[0]) + "\nop width " + hex(cur[1]) + "\nop enc " + hex(cur[0]) + "\nop enc " + hex(cur[1]) + "\n"; };
		p.enums.push_back(j);
	}
	static thread_local Impl *I;
	I = nullptr;
	values("printing", 0x110000, 1 << 12, [](uint32_t v, char *err) {
		static uint32_t base = ~0u;
		// a fresh terminal for every block (the arena is reset between tasks)
		if (!I || (v & 0xfff) == 0 || base == ~0u) {
			I = new Impl;
			if (!I->create(4, 1, 0, true)) abort();
			base = v;
		}
		return check_print(*I, v, err);
	}, "print", "all code points, printed as UTF-8 and written directly");
	// strings
	std::vector<uint32_t> rep = { 0, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfdcf, 0xfdd0, 0xfdef, 0xfdf0, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1fffe, 0x1f600, 0x10fffd, 0x10ffff, 0x110000, 0xffffffff };
	uint64_t n = rep.size();
	for (int L = 0; L <= 4; ++L) {
		EnumJob j;
		j.name = "strings of " + std::to_string(L);
		j.ntasks = L ? n : 1;
		j.bound = "all strings over 24 representatives, with and without memory";
		auto str = [=](uint64_t v) {
			std::vector<uint32_t> s;
			for (int i = 0; i < L; ++i) { s.push_back(rep[v % n]); v /= n; }
			return s;
		};
		auto text = [=](uint64_t v) {
			std::string o = "system ucs4\nop alloc";
			for (uint32_t c : str(v)) o += " " + hex(c);
			return o;
		};
		uint64_t per = 1;
		for (int i = 1; i < L; ++i) per *= n;
		j.run = [=](uint64_t t, EnumCtx &cx) {
			char err[256];
			for (uint64_t v = t * per; v < (t + 1) * per; ++v) {
				cx.slot->cur[0] = v;
				if ((v & 255) == 0) { ++cx.slot->beat; if (cx.stopped()) return; }
				cx.st->transitions += 3;
				++cx.st->traces;
				++cx.st->states;
				auto s = str(v);
				uint32_t none = 0;
				if (!check_alloc(s.empty() ? &none : s.data(), s.size(), err)) cx.fail(text(v), err);
			}
		};
		j.describe = [=](const uint64_t *cur) { return text(cur[0]) + "\n"; };
		p.enums.push_back(j);
	}
}

void add_symbol_enums(Plan &p, bool thorough)
{
	struct C { int A, L, order; };
	std::vector<C> cs = { { 2, 9, 0 }, { 3, 6, 1 }, { 6, 4, 0 }, { 6, 4, 2 }, { 12, 3, 3 }, { 30, 3, 0 } };
	if (thorough) cs.push_back({ 60, 3, 1 }), cs.push_back({ 16, 4, 3 });
	for (auto &c : cs) {
		int A = c.A, L = c.L > 8 ? 8 : c.L, order = c.order;
		auto text = [=](uint64_t at, uint64_t all) { return "system syms\nop build " + std::to_string(A) + " " + std::to_string(L) + " " + std::to_string(order) + " " + std::to_string(at) + " " + std::to_string(all); };
		EnumJob j;
		bool big = A >= 30 || A * L >= 64;
		j.name = "build " + std::to_string(A) + "^" + std::to_string(L) + " order " + std::to_string(order);
		j.bound = big ? "one large table" : "every failing allocation, once and permanently until noticed";
		j.ntasks = big ? 1 : 64;
		j.run = [=](uint64_t t, EnumCtx &cx) {
			char err[256];
			uint64_t allocs = 0, nsym = 0;
			uint64_t lim = ~0ull;
			for (uint64_t at = t; at <= lim; at += 64) {
				for (int all = 0; all < (at ? 2 : 1); ++all) {
					cx.slot->cur[0] = at;
					cx.slot->cur[1] = (uint64_t)all;
					++cx.slot->beat;
					if (cx.stopped()) return;
					bool f = false;
					arena::reset();
					if (!check_symbols(A, L, order, at, all, allocs, nsym, f, err)) { cx.fail(text(at, (uint64_t)all), err); return; }
					cx.st->transitions += nsym;
					cx.st->traces += 1;
					cx.st->states += nsym;
					if (f) ++cx.st->nontrivial;
				}
				if (big) break;
				if (lim == ~0ull && at > 0 && allocs < at) break;  // beyond the last allocation
			}
		};
		j.describe = [=](const uint64_t *cur) { return text(cur[0], cur[1]) + "\n"; };
		p.enums.push_back(j);
	}
}
