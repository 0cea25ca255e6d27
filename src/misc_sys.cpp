// Systems around the terminal: incremental redraw, input splitting, two
// terminals, allocation failures, object lifetimes.
#include "term_sys.hpp"
#include <cstdarg>
#include <dlfcn.h>
#include <algorithm>

using namespace m;

static std::string fmt(const char *f, ...)
{
	char b[600];
	va_list a;
	va_start(a, f);
	vsnprintf(b, sizeof(b), f, a);
	va_end(a);
	return b;
}

// first line in which two observations differ
static std::string diff(const std::string &a, const std::string &b)
{
	size_t i = 0;
	while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
	size_t s = i;
	while (s > 0 && a[s - 1] != '\n' && i - s < 60) --s;
	return "\"..." + esc_bytes(a.substr(s, i - s + 60)) + "...\" instead of \"..." + esc_bytes(b.substr(std::min(s, b.size()), i - s + 60)) + "...\"";
}

// ------------------------------------------------------ incremental redraw

namespace {

struct FbCell { uint32_t valid, ch, len, width; Attr at; uint8_t pad[3]; };
struct Fb { uint32_t W, H; uint64_t last; uint64_t aged; FbCell c[1]; };

class AgeSys : public System {
public:
	Impl I;
	uint32_t mw = 1, mh = 1;
	Fb *fb = nullptr;
	size_t bytes() const { return sizeof(Fb) + sizeof(FbCell) * mw * mh; }
	uint64_t hash() override
	{
		uint64_t h = arena::mem_hash();
		for (size_t i = 0; i < bytes() / 8; ++i) h = (h ^ ((uint64_t *)fb)[i]) * 0x9ddfea08eb382d69ull, h ^= h >> 31;
		return h | 1;
	}
	void resolve(Op &op) override
	{
		if (op.name == "resize" && op.a[0] < 1000 && op.a[1] < 1000) {
			mw = std::max(mw, (uint32_t)op.a[0]);
			mh = std::max(mh, (uint32_t)op.a[1]);
		}
		TermSys t;
		if (op.name != "draw") t.resolve(op);
	}
	void init(const Header &h) override
	{
		uint32_t w = (uint32_t)h.num("cols", 5), hh = (uint32_t)h.num("rows", 3);
		mw = std::max(mw, w);
		mh = std::max(mh, hh);
		free(fb);
		fb = (Fb *)calloc(1, bytes());
		if (!I.create(w, hh, 3, h.num("vte", 1))) abort();
		if (h.num("sb", 0)) tsm_screen_set_max_sb(I.con, (unsigned)h.num("sb", 0));
	}
	bool apply(const Op &op, std::string &err) override
	{
		if (op.name == "draw") return draw(err);
		std::string r;
		I.clear_logs();
		I.run(op, r);
		if (op.name == "age") fb->aged = 1;
		if (!I.bad.empty()) { err = I.bad; return false; }
		return true;
	}
	// the counter never goes back: it may be moved once until it has wrapped around
	bool enabled(const Op &op) override { return op.name != "age" || !fb->aged; }
	bool draw(std::string &err)
	{
		static Drawing d;
		tsm_age_t age;
		draw_screen(I.con, d, &age);
		if (!d.order) { err = "draw does not visit every cell once in order"; return false; }
		if (d.W > mw || d.H > mh) { err = "the screen is larger than ever requested"; return false; }
		if (d.W != fb->W || d.H != fb->H) {
			// a renderer keeps what it has shown at the same place
			std::vector<FbCell> old(fb->c, fb->c + fb->W * fb->H);
			uint32_t ow = fb->W, oh = fb->H;
			fb->W = d.W;
			fb->H = d.H;
			for (uint32_t y = 0; y < d.H; ++y)
				for (uint32_t x = 0; x < d.W; ++x) {
					FbCell &c = fb->c[y * d.W + x];
					if (x < ow && y < oh) c = old[y * ow + x];
					else memset(&c, 0, sizeof(c));
				}
		}
		for (uint32_t y = 0; y < d.H; ++y)
			for (uint32_t x = 0; x < d.W; ++x) {
				DrawnCell &g = d.c[y * d.W + x];
				FbCell &c = fb->c[y * d.W + x];
				Attr a = from_attr(g.attr);
				if (!g.age || g.age > fb->last) {
					c.valid = 1;
					c.ch = g.ch;
					c.len = g.len;
					c.width = g.width;
					c.at = a;
				} else if (!c.valid || c.width != g.width || (g.width && (c.len != g.len || (g.len && c.ch != g.ch) || !(c.at == a)))) {
					err = fmt("cell %u,%u has age %lu, the previous draw returned %lu, so it is not redrawn: shown %s U+%04X len %u width %u colours %d,%d bits %02x, now U+%04X len %u width %u colours %d,%d bits %02x", x, y,
						  (unsigned long)g.age, (unsigned long)fb->last, c.valid ? "" : "(nothing)", c.ch, c.len, c.width, c.at.fc, c.at.bc, c.at.bits, g.ch, g.len, g.width, a.fc, a.bc, a.bits);
					return false;
				}
			}
		if (age < 1ull << 63) fb->aged = 0;
		fb->last = age;
		return true;
	}
	bool finish(std::string &) override { return true; }
protected:
	size_t extra_size() override { return bytes(); }
	void save_extra(char *p) override { memcpy(p, fb, bytes()); }
	void restore_extra(const char *p) override { memcpy(fb, p, bytes()); }
};

// --------------------------------------------------------- split input

class SplitSys : public System {
public:
	enum { MAX = 48 };
	Impl I;
	Header hd;
	struct { int n; uint64_t dig; const Op *op[MAX]; } h;
	uint64_t hash() override { return h.dig | 1; }
	std::vector<char> base;
	size_t extra_size() override { return sizeof(h); }
	void save_extra(char *p) override { memcpy(p, &h, sizeof(h)); }
	void restore_extra(const char *p) override { memcpy(&h, p, sizeof(h)); }
	void resolve(Op &op) override { TermSys t; t.resolve(op); }
	void init(const Header &x) override
	{
		hd = x;
		h.n = 0;
		h.dig = 1;
		if (!I.create((uint32_t)x.num("cols", 5), (uint32_t)x.num("rows", 3), 3, true)) abort();
		tsm_screen_set_max_sb(I.con, (unsigned)x.num("sb", 2));
		base.resize(arena::snap_size());
		arena::save(base.data());
	}
	struct Piece { std::string in; const Op *op; };
	struct Result { uint64_t dig; std::string log; };
	void between()
	{
		static Drawing d;
		std::string r;
		tsm_vte_input(I.vte, "", 0);
		draw_screen(I.con, d);
		char *out = nullptr;
		if (tsm_screen_selection_copy(I.con, &out) >= 0) vf_free(out);
		tsm_screen_attr a;
		tsm_vte_get_def_attr(I.vte, &a);
		(void)(tsm_screen_get_width(I.con) + tsm_screen_get_height(I.con) + tsm_screen_get_cursor_x(I.con) + tsm_screen_get_cursor_y(I.con) + tsm_screen_get_flags(I.con) + tsm_screen_sb_get_line_count(I.con) +
		       tsm_screen_sb_get_line_pos(I.con) + tsm_vte_get_flags(I.vte) + tsm_vte_get_mouse_mode(I.vte) + tsm_vte_get_mouse_event(I.vte));
		tsm_vte_input(I.vte, nullptr, 0);
	}
	// cut[i]: cut before byte i+1 of the concatenated input (cuts across segments are implied)
	Result run(const std::vector<Piece> &seg, const std::vector<bool> &cut, int mode, bool probe)
	{
		arena::restore(base.data());
		I.clear_logs();
		size_t pos = 0;
		std::string r, log;
		for (auto &s : seg) {
			if (s.op) {
				I.run(*s.op, r);
				I.all += "R" + r;
				continue;
			}
			size_t from = 0;
			if (mode) between();
			for (size_t i = 1; i <= s.in.size(); ++i) {
				bool c = i == s.in.size() || cut[pos + i];
				if (!c) continue;
				tsm_vte_input(I.vte, s.in.data() + from, i - from);
				from = i;
				if (mode) between();
			}
			pos += s.in.size();
		}
		Result x;
		x.dig = I.digest();
		if (probe) {
			static const char p[] = "m1;2H\x07Z\xbd\x1b[n\x1b\\\x18q\x1b[6n\n#";
			tsm_vte_input(I.vte, p, sizeof(p) - 1);
			x.dig = x.dig * 31 + I.digest();
		}
		x.log = I.all;
		return x;
	}
	bool apply(const Op &op, std::string &err) override
	{
		if (h.n >= MAX) return true;
		h.op[h.n++] = &op;
		std::vector<Piece> seg;
		size_t N = 0;
		for (int i = 0; i < h.n; ++i) {
			if (h.op[i]->name == "in") {
				if (seg.empty() || seg.back().op) seg.push_back({ "", nullptr });
				seg.back().in += h.op[i]->bytes;
				N += h.op[i]->bytes.size();
			} else {
				seg.push_back({ "", h.op[i] });
			}
		}
		h.dig = h.dig * 0x9ddfea08eb382d69ull + std::hash<std::string>()(op.text);
		if (op.name != "in") return true;             // looked at with the next input
		std::vector<size_t> at;                        // interior cut positions
		bool edges = hd.num("edges", 0);
		auto near = [](size_t p, size_t of) { return p % of <= 3 || p % of >= of - 3; };
		size_t pos = 0;
		for (auto &s : seg) {
			for (size_t i = 1; i < s.in.size(); ++i)
				if (!edges || near(i, 4096) || i + 8 > s.in.size()) at.push_back(pos + i);
			pos += s.in.size();
		}
		std::vector<bool> cut(N + 1, false);
		Result ref = run(seg, cut, 0, true);
		h.dig = ref.dig ^ std::hash<std::string>()(ref.log);
		auto test = [&](int mode) {
			Result r = run(seg, cut, mode, true);
			++vf_nontrivial;
			if (r.dig == ref.dig && r.log == ref.log) return true;
			std::string where;
			for (size_t p : at) if (cut[p]) where += (where.empty() ? "" : ",") + std::to_string(p);
			std::string a, b;
			run(seg, cut, mode, false);
			a = I.observe();
			std::fill(cut.begin(), cut.end(), false);
			run(seg, cut, 0, false);
			b = I.observe();
			err = fmt("cut before byte %s%s: ", where.empty() ? "(none)" : where.substr(0, 100).c_str(), mode ? " with queries in between" : "") +
			      (r.log != ref.log ? "callbacks \"" + esc_bytes(r.log).substr(0, 200) + "\" instead of \"" + esc_bytes(ref.log).substr(0, 200) + "\"" : a != b ? diff(a, b) : "later input behaves differently");
			return false;
		};
		if (!test(1)) return false;
		if (edges) {
			// one byte, and one power of two, at a time
			for (size_t k : { (size_t)1, (size_t)16, (size_t)256, (size_t)1024, (size_t)4096, (size_t)32768 }) {
				for (size_t p = 1; p < N; ++p) cut[p] = p % k == 0;
				if (!test(0)) return false;
			}
			std::fill(cut.begin(), cut.end(), false);
		}
		for (size_t p : at) cut[p] = true;
		if (!test(0) || !test(1)) return false;
		for (size_t p : at) cut[p] = false;
		if (at.size() <= 6) {
			for (unsigned b = 1; b + 1 < 1u << at.size(); ++b) {
				for (size_t i = 0; i < at.size(); ++i) cut[at[i]] = b >> i & 1;
				if (!test(0)) return false;
				if (!(b & (b - 1)) && !test(1)) return false;
			}
		} else {
			for (size_t i = 0; i < at.size(); ++i) {
				cut[at[i]] = true;
				if (!test(0)) return false;
				if (!test(1)) return false;
				if (at.size() <= 14)
					for (size_t k = i + 1; k < at.size(); ++k) {
						cut[at[k]] = true;
						if (!test(0)) return false;
						cut[at[k]] = false;
					}
				cut[at[i]] = false;
			}
		}
		arena::restore(base.data());
		return true;
	}
};

// -------------------------------------------------------- two terminals

class DuoSys : public System {
public:
	TermSys t[2];
	void resolve(Op &op) override
	{
		// "0:in X" acts on terminal 0
		if (op.text[1] != ':') abort();
		int k = op.text[0] - '0';
		if (k < 0 || k > 1) abort();
		Op o = parse_op(op.text.substr(2));
		t[k].resolve(o);
		op.a = o.a; op.w = o.w; op.bytes = o.bytes; op.name = o.name;
		op.code = o.code;
	}
	void init(const Header &h) override
	{
		for (int k = 0; k < 2; ++k) {
			Header x = h;
			char c[8];
			for (const char *n : { "cols", "rows", "sb" }) {
				snprintf(c, sizeof(c), "%s%d", n, k);
				if (h.kv.count(c)) x.kv[n] = h.kv.at(c);
			}
			t[k].init(x);
		}
	}
	bool apply(const Op &op, std::string &err) override
	{
		int k = op.text[0] - '0';
		TermSys &o = t[!k];
		o.I.clear_logs();
		o.M.wr.clear(); o.M.osc.clear(); o.M.mouse.clear();
		if (!t[k].apply(op, err)) { err = fmt("terminal %d: ", k) + err; return false; }
		if (!o.I.all.empty()) { err = fmt("terminal %d, which was not involved, calls back: ", !k) + esc_bytes(o.I.all); return false; }
		if (!o.compare(err)) { err = fmt("terminal %d, which was not involved: ", !k) + err; return false; }
		return true;
	}
	bool finish(std::string &err) override
	{
		Impl d[2];
		for (int k = 0; k < 2; ++k) d[k].con = t[k].I.con, d[k].vte = t[k].I.vte;
		d[0].destroy();
		t[1].I.clear_logs();
		t[1].M.wr.clear(); t[1].M.osc.clear(); t[1].M.mouse.clear();
		if (!t[1].compare(err)) { err = "terminal 1 after terminal 0 is gone: " + err; return false; }
		d[1].destroy();
		if (arena::hdr()->live) { err = fmt("%lu blocks are leaked", arena::hdr()->live); return false; }
		return true;
	}
	uint64_t hash() override { return t[0].M.hash() * 0x9e3779b97f4a7c15ull + t[1].M.hash(); }
protected:
	size_t extra_size() override { return t[0].M.bufsize + t[1].M.bufsize; }
	void save_extra(char *p) override { t[0].M.save(p); t[1].M.save(p + t[0].M.bufsize); }
	void restore_extra(const char *p) override { t[0].M.restore(p); t[1].M.restore(p + t[0].M.bufsize); }
};

// --------------------------------------------------- allocation failures

class OomSys : public System {
public:
	TermSys T;
	uint32_t w = 5, h = 3, sb = 0;
	bool dead_ = false;
	struct Fault { Op op; uint64_t at; bool all; };
	std::vector<std::unique_ptr<Fault>> faults;
	bool dead() override { return dead_; }
	void resolve(Op &op) override
	{
		if (op.name == "recover") { op.code = -2; return; }
		// "!3:in X": the third allocation fails; "!!3:...": all from the third
		auto f = std::make_unique<Fault>();
		f->at = 0;
		f->all = false;
		std::string t = op.text;
		if (t[0] == '!') {
			f->all = t[1] == '!';
			f->at = strtoull(t.c_str() + 1 + f->all, nullptr, 10);
			t = t.substr(t.find(':') + 1);
		}
		f->op = parse_op(t);
		if (f->op.name != "new") T.resolve(f->op);
		op.code = (int)faults.size();
		faults.push_back(std::move(f));
	}
	void init(const Header &x) override
	{
		w = (uint32_t)x.num("cols", 5);
		h = (uint32_t)x.num("rows", 3);
		sb = (uint32_t)x.num("sb", 0);
		dead_ = false;
		Header y = x;
		y.kv["model"] = "0";
		T.init(y);
	}
	bool sane(std::string &err)
	{
		if (!T.compare(err)) return false;
		static Drawing d;
		draw_screen(T.I.con, d);
		for (auto &c : d.c)
			if (c.len > 8 || c.width > 2 || (c.len && c.ch > 0x10ffff)) { err = fmt("a cell shows U+%04X with %u code points and width %u", c.ch, c.len, c.width); return false; }
		return true;
	}
	bool apply(const Op &op, std::string &err) override
	{
		dead_ = false;
		if (op.code == -2) return recover(err);
		Fault &f = *faults[op.code];
		if (f.op.name == "new") return create(f, err);
		std::string r, r0;
		T.I.clear_logs();
		bool ret = f.op.name == "resize" || f.op.name == "selcopy" || f.op.name == "palette" || f.op.name == "custompal";
		if (!f.at) {
			T.I.run(f.op, r);
			if (!T.I.bad.empty()) { err = T.I.bad; return false; }
			if (f.op.name == "resize" && r != "0") { err = "resizing with memory available returns " + r; return false; }
			return sane(err);
		}
		static std::vector<char> before;
		uint64_t dig0 = 0;
		unsigned W0 = tsm_screen_get_width(T.I.con), H0 = tsm_screen_get_height(T.I.con);
		if (ret) {
			before.resize(arena::snap_size());
			arena::save(before.data());
			T.I.run(f.op, r0);
			dig0 = f.op.name == "resize" ? screens() : T.I.digest();
			arena::restore(before.data());
			T.I.clear_logs();
		}
		arena::fail_set(f.at, f.all);
		T.I.run(f.op, r);
		bool failed = arena::hdr()->failed;
		arena::fail_off();
		if (!failed) { dead_ = true; return true; }
		++vf_nontrivial;
		if (!T.I.bad.empty()) { err = T.I.bad; return false; }
		if (f.op.name == "selcopy") {
			if (r != "-12:" && r != r0) { err = "copying a selection without memory gives \"" + esc_bytes(r) + "\", expected -ENOMEM or \"" + esc_bytes(r0) + "\""; return false; }
			if (T.I.digest() != dig0) { err = "a failed copy changes the screen"; return false; }
		} else if (ret) {
			if (r != r0 && r != "-12") { err = f.op.name + " without memory returns " + r; return false; }
			// a line without memory is lost to the scrollback, which is best effort
			if (r == r0 && (f.op.name == "resize" ? screens() : T.I.digest()) != dig0) { err = f.op.name + " returns success although it has not done all of its work"; return false; }
			if (r != r0 && (tsm_screen_get_width(T.I.con) != W0 || tsm_screen_get_height(T.I.con) != H0)) { err = f.op.name + " fails but changes the size"; return false; }
		}
		return sane(err);
	}
	// both screens without the scrollback
	uint64_t screens()
	{
		static std::vector<char> keep;
		keep.resize(arena::snap_size());
		arena::save(keep.data());
		tsm_screen_selection_reset(T.I.con);
		tsm_screen_clear_sb(T.I.con);
		uint64_t h = T.I.digest();
		for (const char *o : { "in \\e[?47h", "in \\e[?47l", "in \\e[99;1H\\tx" }) {
			Op p = parse_op(o);
			std::string r;
			T.resolve(p);
			T.I.run(p, r);
			h = h * 31 + T.I.digest();
		}
		arena::restore(keep.data());
		return h;
	}
	// objects created without memory
	bool create(Fault &f, std::string &err)
	{
		uint64_t live = arena::hdr()->live;
		Impl J;
		tsm_verif_initial_cols = w;
		tsm_verif_initial_rows = h;
		if (f.at) arena::fail_set(f.at, f.all);
		int r = tsm_screen_new(&J.con, nullptr, nullptr), r2 = 0;
		if (!r) r2 = tsm_vte_new(&J.vte, J.con, [](struct tsm_vte *, const char *, size_t, void *) {}, nullptr, nullptr, nullptr);
		bool failed = f.at && arena::hdr()->failed;
		arena::fail_off();
		if (f.at && !failed) { dead_ = true; return true; }
		if (failed) ++vf_nontrivial;
		if (failed ? (r != -12 && r2 != -12) : (r || r2)) { err = fmt("creating a terminal %s memory returns %d, %d", failed ? "without" : "with", r, r2); return false; }
		if (!r && !r2) tsm_vte_unref(J.vte);
		if (!r) {
			static Drawing d;
			draw_screen(J.con, d);
			tsm_screen_unref(J.con);
		}
		if (arena::hdr()->live != live) { err = "a failed creation leaks"; return false; }
		return true;
	}
	bool both(Impl &F, const char *text, std::string &err)
	{
		Op o = parse_op(text);
		std::string a, b;
		T.I.clear_logs();
		F.clear_logs();
		T.I.run(o, a);
		F.run(o, b);
		if (a == b && T.I.all == F.all && T.I.digest() == F.digest()) return true;
		std::string x = T.I.observe(), y = F.observe();
		err = std::string("with memory back, after a hard reset, \"") + text + "\" " + (a != b ? "returns " + esc_bytes(a) + ", on a fresh terminal " + esc_bytes(b) : x != y ? "shows " + diff(x, y) : "calls back differently");
		return false;
	}
	bool recover(std::string &err)
	{
		Impl F;
		if (!F.create(w, h, 3, true)) { err = "creating a terminal with memory available fails"; return false; }
		if (sb) tsm_screen_set_max_sb(F.con, sb);
		tsm_vte_hard_reset(T.I.vte);
		if (tsm_vte_set_palette(T.I.vte, nullptr) || tsm_vte_set_custom_palette(T.I.vte, nullptr)) { err = "setting the default palette fails"; return false; }
		tsm_vte_set_backspace_sends_delete(T.I.vte, false);
		tsm_screen_selection_reset(T.I.con);
		tsm_screen_set_max_sb(T.I.con, sb);
		tsm_screen_clear_sb(T.I.con);
		for (int i = 0; i < 2; ++i)
			if (tsm_screen_resize(T.I.con, w + 1 - i, h + 1 - i)) { err = "resizing with memory available fails"; return false; }
		tsm_vte_hard_reset(T.I.vte);
		tsm_screen_clear_sb(T.I.con);
		for (const char *o : { "draw", "in ABCDEFGHIJKL\\r\\n1\\r\\n2\\r\\n3\\t4\\r\\n5", "in \\e[31m\\xe4\\xbd\\xa0\\e[?1049hXYZ\\eH\\e[2;2r", "resize 7 5", "in \\e[99;99HQ\\e[?1049l\\n\\n\\n", "sbup 2", "selstart 0 0", "seltarget 3 2", "selcopy", "in \\e]0;title\\x07\\e[c\\e[6n",
					"resize 2 1", "in mn\\r\\no", "resize 6 4", "sbup 1", "palette 3", "in \\ecfoo\\e[1;33mbar", "key 0xff52 0 0 0xffffffff" })
			if (!both(F, o, err)) return false;
		F.destroy();
		return true;
	}
	bool finish(std::string &err) override { return T.finish(err); }
};

// ------------------------------------------------------- object lifetimes

struct LifeModel {
	struct tsm_screen *con[2];
	struct tsm_vte *vte[2];
	void *tab;
	int sref[2], vref[2], von[2], tref;   // von: the screen of the terminal
	uint32_t sym;
};

void no_write(struct tsm_vte *, const char *, size_t, void *d) { ++*(int *)d; }
int writes;

class LifeSys : public System {
public:
	LifeModel m;
	uint64_t hash() override
	{
		uint64_t h = 1;
		for (int i = 0; i < 2; ++i) h = (((h * 31 + m.sref[i]) * 31 + m.vref[i]) * 31 + m.von[i]) * 0x9ddfea08eb382d69ull;
		return (h * 31 + m.tref) * 0x9ddfea08eb382d69ull | 1;
	}
	size_t extra_size() override { return sizeof(m); }
	void save_extra(char *p) override { memcpy(p, &m, sizeof(m)); }
	void restore_extra(const char *p) override { memcpy(&m, p, sizeof(m)); }
	void init(const Header &) override
	{
		memset(&m, 0, sizeof(m));
		tsm_verif_initial_cols = 4;
		tsm_verif_initial_rows = 2;
	}
	bool salive(int i) const
	{
		if (m.sref[i]) return true;
		for (int j = 0; j < 2; ++j) if (m.vref[j] && m.von[j] == i) return true;
		return false;
	}
	// how many references at once: "sref 0 300", "tref 300"
	static int many(const Op &op, size_t at = 1) { return op.a.size() > at ? (int)op.a[at] : 1; }
	bool enabled(const Op &op) override
	{
		int i = op.a.empty() ? 0 : (int)op.a[0], n = many(op);
		if (op.name == "snew") return !salive(i);
		if (op.name == "sref" || op.name == "sunref") return m.sref[i] > 0 && (op.name != "sref" ? m.sref[i] >= n : m.sref[i] < 3);
		if (op.name == "vnew") return !m.vref[i] && m.sref[op.a[1]];
		if (op.name == "vref" || op.name == "vunref") return m.vref[i] > 0 && (op.name != "vref" ? m.vref[i] >= n : m.vref[i] < 3);
		if (op.name == "tnew") return !m.tref;
		if (op.name == "tref" || op.name == "tunref") return m.tref > 0 && (op.name != "tref" ? m.tref >= many(op, 0) : m.tref < 3);
		return true;
	}
	bool apply(const Op &op, std::string &err) override
	{
		int i = op.a.empty() ? 0 : (int)op.a[0];
		if (op.name == "snew") {
			if (tsm_screen_new(&m.con[i], nullptr, nullptr)) { err = "creation fails"; return false; }
			m.sref[i] = 1;
		} else if (op.name == "sref") for (int n = many(op); n--;) tsm_screen_ref(m.con[i]), ++m.sref[i];
		else if (op.name == "sunref") for (int n = many(op); n--;) tsm_screen_unref(m.con[i]), --m.sref[i];
		else if (op.name == "vnew") {
			if (tsm_vte_new(&m.vte[i], m.con[op.a[1]], no_write, &writes, nullptr, nullptr)) { err = "creation fails"; return false; }
			m.vref[i] = 1;
			m.von[i] = (int)op.a[1];
		} else if (op.name == "vref") for (int n = many(op); n--;) tsm_vte_ref(m.vte[i]), ++m.vref[i];
		else if (op.name == "vunref") for (int n = many(op); n--;) tsm_vte_unref(m.vte[i]), --m.vref[i];
		else if (op.name == "tnew") {
			if (sh_sym_new(&m.tab)) { err = "creation fails"; return false; }
			m.tref = 1;
		} else if (op.name == "tref") for (int n = many(op, 0); n--;) sh_sym_ref(m.tab), ++m.tref;
		else if (op.name == "tunref") for (int n = many(op, 0); n--;) sh_sym_unref(m.tab), --m.tref;
		else if (op.name == "null") return null_call(op.w[0], err);
		else if (op.name == "export") return exported(op.w[0], err);
		else { err = "unknown operation"; return false; }
		return use(err);
	}
	// everything that is referenced works, everything else is gone
	bool use(std::string &err)
	{
		static Drawing d;
		bool any = m.tref;
		for (int i = 0; i < 2; ++i) {
			if (!salive(i)) continue;
			any = true;
			tsm_screen_move_to(m.con[i], 0, 0);
			tsm_screen_attr a;
			memset(&a, 0, sizeof(a));
			tsm_screen_write(m.con[i], (uint32_t)('a' + i), &a);
			draw_screen(m.con[i], d);
			if (!d.order || d.c[0].ch != (uint32_t)('a' + i)) { err = fmt("screen %d does not work", i); return false; }
		}
		for (int j = 0; j < 2; ++j) {
			if (!m.vref[j]) continue;
			any = true;
			writes = 0;
			tsm_vte_input(m.vte[j], "\x1b[HZ\x1b[c\x1b]0;abc\x07", 15);
			if (!writes) { err = fmt("terminal %d does not reply", j); return false; }
			draw_screen(m.con[m.von[j]], d);
			if (d.c[0].ch != 'Z') { err = fmt("terminal %d does not print on its screen", j); return false; }
		}
		if (m.tref) {
			uint32_t s = sh_sym_append(m.tab, 'x', 0x301);
			size_t n = 0;
			const uint32_t *p = sh_sym_get(m.tab, &s, &n);
			if (!p || n != 2 || p[0] != 'x' || p[1] != 0x301) { err = "the symbol table does not work"; return false; }
		}
		if (!any && arena::hdr()->live) { err = fmt("%lu blocks are left although nothing is referenced", arena::hdr()->live); return false; }
		// what is gone has released all of its memory: compare with the same objects created afresh
		uint64_t live = arena::hdr()->live, want = 0;
		static std::vector<char> snap;
		snap.resize(arena::snap_size());
		arena::save(snap.data());
		LifeModel keep = m;
		// dropping every reference that is left must free everything
		for (int j = 0; j < 2; ++j) while (m.vref[j]-- > 0) tsm_vte_unref(m.vte[j]);
		for (int i = 0; i < 2; ++i) while (m.sref[i]-- > 0) tsm_screen_unref(m.con[i]);
		while (m.tref-- > 0) sh_sym_unref(m.tab);
		want = arena::hdr()->live;
		arena::restore(snap.data());
		m = keep;
		(void)live;
		if (want) { err = fmt("%lu blocks are leaked after the last reference to everything was dropped", want); return false; }
		return true;
	}
	bool exported(const std::string &name, std::string &err)
	{
		const char *so = getenv("VF_SO");
		if (!so) return true;
		static void *h;
		if (!h) h = dlopen(so, RTLD_NOW | RTLD_LOCAL);
		if (!h) { err = std::string("the library cannot be loaded: ") + dlerror(); return false; }
		if (!dlsym(h, name.c_str())) { err = name + " is declared in the public header but not exported by the library"; return false; }
		return true;
	}
	bool null_call(const std::string &n, std::string &err);
};

bool LifeSys::null_call(const std::string &n, std::string &err)
{
	struct tsm_screen *c = nullptr, *c2 = nullptr;
	struct tsm_vte *v = nullptr, *v2 = nullptr;
	tsm_screen_attr a;
	memset(&a, 0, sizeof(a));
	char *out = (char *)0x1;
	uint64_t live = arena::hdr()->live;
	uint8_t pal[18][3] = {};
	bool ok = true;
	std::string what;
	static Drawing d;
	auto cb = [](struct tsm_screen *, uint64_t, const uint32_t *, size_t, unsigned, unsigned, unsigned, const struct tsm_screen_attr *, tsm_age_t, void *p) -> int { ++*(int *)p; return 0; };
	int calls = 0;
#define V(name, call) if (n == name) { call; }
#define E(name, expr) if (n == name) { ok = (expr); }
	V("screen_ref", tsm_screen_ref(c))
	V("screen_unref", tsm_screen_unref(c))
	E("screen_new", tsm_screen_new(nullptr, nullptr, nullptr) == -22)
	E("get_width", tsm_screen_get_width(c) == 0)
	E("get_height", tsm_screen_get_height(c) == 0)
	E("resize", tsm_screen_resize(c, 3, 3) == -22)
	E("set_margins", tsm_screen_set_margins(c, 1, 2) == -22)
	V("set_max_sb", tsm_screen_set_max_sb(c, 3))
	V("clear_sb", tsm_screen_clear_sb(c))
	V("sb_up", tsm_screen_sb_up(c, 1))
	V("sb_down", tsm_screen_sb_down(c, 1))
	V("sb_page_up", tsm_screen_sb_page_up(c, 1))
	V("sb_page_down", tsm_screen_sb_page_down(c, 1))
	V("sb_reset", tsm_screen_sb_reset(c))
	E("sb_get_line_count", tsm_screen_sb_get_line_count(c) == 0)
	E("sb_get_line_pos", tsm_screen_sb_get_line_pos(c) == 0)
	V("set_def_attr", tsm_screen_set_def_attr(c, &a))
	V("screen_reset", tsm_screen_reset(c))
	V("set_flags", tsm_screen_set_flags(c, ~0u))
	V("reset_flags", tsm_screen_reset_flags(c, ~0u))
	E("screen_get_flags", tsm_screen_get_flags(c) == 0)
	E("get_cursor_x", tsm_screen_get_cursor_x(c) == 0)
	E("get_cursor_y", tsm_screen_get_cursor_y(c) == 0)
	V("set_tabstop", tsm_screen_set_tabstop(c))
	V("reset_tabstop", tsm_screen_reset_tabstop(c))
	V("reset_all_tabstops", tsm_screen_reset_all_tabstops(c))
	V("write", tsm_screen_write(c, 'x', &a))
	V("newline", tsm_screen_newline(c))
	V("scroll_up", tsm_screen_scroll_up(c, 1))
	V("scroll_down", tsm_screen_scroll_down(c, 1))
	V("move_to", tsm_screen_move_to(c, 1, 1))
	V("move_up", tsm_screen_move_up(c, 1, true))
	V("move_down", tsm_screen_move_down(c, 1, true))
	V("move_left", tsm_screen_move_left(c, 1))
	V("move_right", tsm_screen_move_right(c, 1))
	V("move_line_end", tsm_screen_move_line_end(c))
	V("move_line_home", tsm_screen_move_line_home(c))
	V("tab_right", tsm_screen_tab_right(c, 1))
	V("tab_left", tsm_screen_tab_left(c, 1))
	V("insert_lines", tsm_screen_insert_lines(c, 1))
	V("delete_lines", tsm_screen_delete_lines(c, 1))
	V("insert_chars", tsm_screen_insert_chars(c, 1))
	V("delete_chars", tsm_screen_delete_chars(c, 1))
	V("erase_cursor", tsm_screen_erase_cursor(c))
	V("erase_chars", tsm_screen_erase_chars(c, 1))
	V("erase_cursor_to_end", tsm_screen_erase_cursor_to_end(c, true))
	V("erase_home_to_cursor", tsm_screen_erase_home_to_cursor(c, true))
	V("erase_current_line", tsm_screen_erase_current_line(c, true))
	V("erase_screen_to_cursor", tsm_screen_erase_screen_to_cursor(c, true))
	V("erase_cursor_to_screen", tsm_screen_erase_cursor_to_screen(c, true))
	V("erase_screen", tsm_screen_erase_screen(c, true))
	V("selection_reset", tsm_screen_selection_reset(c))
	V("selection_start", tsm_screen_selection_start(c, 1, 1))
	V("selection_target", tsm_screen_selection_target(c, 1, 1))
	E("selection_copy", tsm_screen_selection_copy(c, &out) == -22 && out == (char *)0x1)
	E("draw", tsm_screen_draw(c, cb, &calls) == 0 && calls == 0)
	V("vte_ref", tsm_vte_ref(v))
	V("vte_unref", tsm_vte_unref(v))
	V("set_osc_cb", tsm_vte_set_osc_cb(v, nullptr, nullptr))
	V("set_mouse_cb", tsm_vte_set_mouse_cb(v, nullptr, nullptr))
	E("set_palette", tsm_vte_set_palette(v, "solarized") == -22)
	E("set_custom_palette", tsm_vte_set_custom_palette(v, pal) == -22)
	V("get_def_attr", tsm_vte_get_def_attr(v, &a))
	E("vte_get_flags", tsm_vte_get_flags(v) == 0)
	E("get_mouse_mode", tsm_vte_get_mouse_mode(v) == 0)
	E("get_mouse_event", tsm_vte_get_mouse_event(v) == 0)
	V("vte_reset", tsm_vte_reset(v))
	V("hard_reset", tsm_vte_hard_reset(v))
	V("input", tsm_vte_input(v, "abc", 3))
	V("set_backspace", tsm_vte_set_backspace_sends_delete(v, true))
	E("keyboard", !tsm_vte_handle_keyboard(v, 'a', 'a', 0, 'a'))
	E("mouse", !tsm_vte_handle_mouse(v, 1, 1, 1, 1, 0, 1, 0))
	// a valid object with null arguments
	if (n == "partial") {
		tsm_screen_new(&c2, nullptr, nullptr);
		tsm_vte_new(&v2, c2, no_write, &writes, nullptr, nullptr);
		out = (char *)0x1;
		tsm_screen_selection_start(c2, 0, 0);
		ok = tsm_vte_new(nullptr, c2, no_write, nullptr, nullptr, nullptr) == -22 && tsm_vte_new(&v, nullptr, no_write, nullptr, nullptr, nullptr) == -22 && tsm_vte_new(&v, c2, nullptr, nullptr, nullptr, nullptr) == -22 && !v &&
		     tsm_screen_selection_copy(c2, nullptr) == -22 && tsm_screen_draw(c2, nullptr, nullptr) == 0;
		tsm_screen_set_def_attr(c2, nullptr);
		tsm_vte_get_def_attr(v2, nullptr);
		tsm_vte_input(v2, nullptr, 0);
		tsm_screen_write(c2, 'x', &a);
		tsm_vte_set_osc_cb(v2, nullptr, nullptr);
		tsm_vte_set_mouse_cb(v2, nullptr, nullptr);
		tsm_vte_input(v2, "\x1b]0;x\x07\x1b[?1006h\x1b[?1003h", 21);
		tsm_vte_unref(v2);
		draw_screen(c2, d);
		ok = ok && d.order && d.c[0].ch == 'x';
		tsm_screen_unref(c2);
	}
#undef V
#undef E
	if (!ok) { err = "tsm_..." + n + " does not refuse a null object"; return false; }
	if (arena::hdr()->live != live) { err = "tsm_..." + n + " leaks"; return false; }
	return true;
}

} // namespace

std::unique_ptr<System> make_misc(const std::string &n)
{
	if (n == "age") return std::unique_ptr<System>(new AgeSys);
	if (n == "split") return std::unique_ptr<System>(new SplitSys);
	if (n == "duo") return std::unique_ptr<System>(new DuoSys);
	if (n == "oom") return std::unique_ptr<System>(new OomSys);
	if (n == "life") return std::unique_ptr<System>(new LifeSys);
	return nullptr;
}
