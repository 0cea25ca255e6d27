// What is explored for each property: systems, start states, alphabets, depths.
#include "sys.hpp"
#include "term_sys.hpp"
#include "plans.hpp"
#include <cmath>

std::unique_ptr<System> make_pty();
std::unique_ptr<System> make_misc(const std::string &);
std::unique_ptr<System> make_cont(const std::string &);
std::unique_ptr<System> make_enum(const std::string &);

std::unique_ptr<System> make_system(const std::string &n)
{
	if (n == "term") return std::unique_ptr<System>(new TermSys);
	if (n == "pty") return make_pty();
	if (auto s = make_misc(n)) return s;
	if (auto s = make_cont(n)) return s;
	if (auto s = make_enum(n)) return s;
	return nullptr;
}

// ---------------------------------------------------------------- builders

SV operator+(SV a, const SV &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
std::string S(const char *f, ...)
{
	char b[1024];
	va_list a;
	va_start(a, f);
	vsnprintf(b, sizeof(b), f, a);
	va_end(a);
	return b;
}
SV in(const SV &v)
{
	SV o;
	for (auto &x : v) o.push_back("in " + x);
	return o;
}
static SV uniq(const SV &v)
{
	SV o;
	for (auto &x : v) {
		bool dup = false;
		for (auto &y : o) dup |= x == y;
		if (!dup) o.push_back(x);
	}
	return o;
}

int Builder::fit(size_t n, double weight) const
{
	double lim = budget * weight;
	int d = 0;
	double c = 1;
	while (d < 16 && c * n <= lim) { c *= n; ++d; }
	return d < 1 ? 1 : d;
}

Config &Builder::add(const std::string &name, const std::string &header, const SV &prefix, const SV &alphabet, double weight)
{
	Config c;
	c.name = name;
	c.header = header;
	c.prefix = prefix;
	c.alphabet = alphabet.size() > 400 ? alphabet : uniq(alphabet);
	c.depth = c.fitted = fit(c.alphabet.size(), weight);
	c.budget = budget * weight;
	p.configs.push_back(c);
	return p.configs.back();
}

void Builder::each(const std::string &name, const std::vector<std::pair<std::string, SV>> &starts, const SV &alphabet, double weight)
{
	int i = 0;
	for (auto &s : starts) add(name + "/" + std::to_string(i++), s.first, s.second, alphabet, weight / starts.size());
}

// ------------------------------------------------------------ start states

// distinct text with varying colours on a WxH screen; the cursor ends at home
std::string fill_text(int w, int h, bool wrap)
{
	std::string o;
	const char *sgr[] = { "\\e[31m", "\\e[0;42m", "\\e[0;1;4m", "\\e[0;7;38;5;200m", "\\e[0m" };
	int k = 0;
	for (int y = 0; y < h; ++y) {
		for (int x = 0; x < w; ++x, ++k) {
			if (k % 3 == 0) o += sgr[k / 3 % 5];
			o += (char)((k / 26 % 2 ? 'a' : 'A') + k % 26);
		}
		if (!wrap && y + 1 < h) o += "\\r\\n";
	}
	return o + "\\e[0m\\e[H";
}
SV filled(int w, int h) { return { "in " + fill_text(w, h, false) }; }

// ------------------------------------------------------------- properties

typedef std::vector<std::pair<std::string, SV>> Starts;

// ------------------------------------------------------------ frame checks
//
// What a property is about is changed by few operations; all others must leave it alone. So behind
// every history of two operations of any kind, from states in which everything has an unusual
// value, the suffixes of a property show whether its part of the state is as it should be.

static SV universal()
{
	SV u;
	auto a = [&](std::initializer_list<const char *> l) { for (auto x : l) u.push_back(S("in %s", x)); };
	// printing and controls
	a({ "X", "ABCDEFGHIJKLM", "\\xe4\\xbd\\xa0", "\\xc3\\xb1", "\\xcc\\x81", "\\xf0\\x9f\\x98\\x80", "q", "\\xe4", "\\xff" });
	for (int c = 0; c < 0x20; ++c) u.push_back(S("in \\x%02x", c));
	u.push_back("in \\x7f");
	for (int c = 0x80; c < 0xa0; ++c) u.push_back(S("in \\xc2\\x%02x", c));
	// escape sequences
	for (int f = 0x30; f < 0x7f; ++f) u.push_back(S("in \\e%s", f == '\\' ? "\\\\" : std::string(1, (char)f).c_str()));
	for (const char *i : { "(", ")", "*", "+" })
		for (const char *f : { "0", "B", "<", "K", "A" }) u.push_back(S("in \\e%s%s", i, f));
	a({ "\\e\\sF", "\\e\\sG", "\\e#8", "\\e#3", "\\e%G", "\\e%@" });
	// control sequences
	for (const char *f : { "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "P", "S", "T", "X", "Z", "`", "a", "b", "c", "d", "e", "f", "g", "m", "n", "q", "r", "s", "t", "u", "x" })
		for (const char *n : { "", "2", "99" }) u.push_back(S("in \\e[%s%s", n, f));
	a({ "\\e[1J", "\\e[?J", "\\e[?2J", "\\e[1K", "\\e[?1K", "\\e[3g", "\\e[5g", "\\e[2;3H", "\\e[3;9f", "\\e[4;10H", "\\e[2;3r", "\\e[3;4r", "\\e[2;2r", "\\e[5n", "\\e[6n", "\\e[>c", "\\e[!p", "\\e[1\"q", "\\e[2\"q", "\\e[$p", "\\e[1;2;3;4$r" });
	for (int m : { 60, 61, 62, 63, 64, 65 })
		for (const char *q : { "", ";0", ";1", ";2", ";3" }) u.push_back(S("in \\e[%d%s\"p", m, q));
	for (int m : { 2, 4, 12, 20, 3 })
		for (char t : { 'h', 'l' }) u.push_back(S("in \\e[%d%c", m, t));
	for (int m : { 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 18, 19, 25, 42, 47, 66, 67, 1000, 1002, 1003, 1006, 1016, 1047, 1048, 1049, 2004 })
		for (char t : { 'h', 'l' }) u.push_back(S("in \\e[?%d%c", m, t));
	a({ "\\e[31m", "\\e[1;3;4;5;7;42m", "\\e[38;5;100m", "\\e[48;2;1;2;3m", "\\e[39;49m", "\\e[22;23;24;25;27m", "\\e[95;105m", "\\e[8m" });
	a({ "\\e]0;t\\x07", "\\e]2;t\\e\\\\", "\\e]", "\\eP1q", "\\eP1qx\\e\\\\", "\\eX", "\\e^", "\\e_", "\\e[", "\\e[3", "\\e[?", "\\e(", "\\e\\s", "\\xc2", "\\xe4\\xbd", "\\eP", "\\eP1", "\\eP:", "\\eP\\s", "\\ePq", "\\e[:", "\\e[1\\s", "\\e[1;2;3;4;5;6;7;8;9;10;11;12;13;14;15;16", "\\e]2;t" });
	// everything outside of the stream
	u = u + SV{ "resize 10 3", "resize 9 4", "resize 12 5", "resize 4 2", "resize 10 4", "maxsb 0", "maxsb 1", "maxsb 5", "clearsb", "sbup 1", "sbup 9", "sbdown 1", "pgup 1", "pgdn 1", "sbreset", "selstart 0 0", "selstart 9 3", "selstart 4 1", "seltarget 0 0", "seltarget 9 3", "seltarget 3 2", "selreset", "selcopy",
		    "setflags 8", "clrflags 8", "setflags 16", "clrflags 16", "setflags 64", "clrflags 64", "reset", "hardreset", "palette 1", "palette 3", "palette 0", "custompal 1", "custompal 2", "bs 1", "bs 0", "draw", "mousecb 0", "mousecb 1", "osccb 0", "osccb 1",
		    "key 0xff52 0 0 0xffffffff", "key 97 97 0 97", "key 97 97 8 97", "key 0xff0d 13 0 13", "key 0xff08 8 0 8", "key 0xe9 0 0 0xe9", "key 0xff55 0 1 0xffffffff", "key 0xff56 0 1 0xffffffff", "key 0xffbe 0 0 0xffffffff", "key 0xffe1 0 0 0xffffffff", "mouse 1 1 15 20 0 1 0", "mouse 2 1 25 20 0 4 0", "mouse 0 0 0 0 0 2 0", "mouse 3 2 35 40 4 1 0",
		    "s.setdef 1", "s.margins 2 3", "s.margins 0 0", "s.reset", "s.newline", "s.scrollup 1", "s.scrolldown 1", "s.moveto 2 2", "s.up 1 1", "s.down 1 1", "s.left 1", "s.right 1", "s.lineend", "s.linehome", "s.tabr 1", "s.tabl 1", "s.insl 1", "s.dell 1", "s.insc 1", "s.delc 1", "s.ercur", "s.erchars 2", "s.erl2 0", "s.erd2 0", "s.settab", "s.clrtab", "s.clrtabs", "s.write 65 0" };
	return uniq(u);
}

static Starts rich(const char *cmp, const char *more = "")
{
	std::string h = S("term cols=10 rows=4 sb=3 ms=6 %s %s", more, cmp);
	SV text = in({ "one\\r\\n\\e[32mtw\\xe4\\xbd\\xa0o\\r\\n\\e[7mthree\\e[m\\r\\n\\e[1;44mfour\\e[m\\r\\nfive\\r\\n" }) + SV{ "s.write 115 2", "s.write 105 4", "s.write 120 2" } + in({ "s\\x1b[m" });
	// tabs, margins, charsets, saved cursors of both kinds, a filled alternate screen
	SV a = text + in({ "\\e[?47h\\e[H\\e[33malternate\\r\\nscreen\\e[m" }) + SV{ "s.write 80 2", "s.write 81 4" } + in({ "\\e[?47l", "\\e[3g\\e[3G\\eH\\e[6G\\eH\\e[9G\\eH", "\\e)0\\e*<\\e+0\\x0e\\e~", "\\e[2;3r\\e[?6h\\e[1;4;35;46m\\e[2;5H\\e7", "\\e[?6l\\x0f\\e}\\e[3;2H\\e[0;36m\\e[?1048h", "\\e[?1002;1006h\\e[?1h\\e=" }) +
		    SV{ "selstart 1 1", "seltarget 4 2", "sbup 1" };
	SV b = in({ "\\e[63;1\"p" }) + text + in({ "\\e[2;4H\\e[31m\\e7", "\\e[?1049h", "\\e[4h\\e[20h\\e[12l\\e[?25l\\e[?5h", "\\e(0\\e)<", "alt\\r\\n" }) + SV{ "s.write 115 2", "s.write 99 4" } + in({ "r\\e[4;42m\\e[3;10HZ", "\\e[?1003;1016h\\e>" }) + SV{ "palette 2", "bs 1" };
	return { { h, {} }, { h, a }, { h, b } };
}

static void frame(Builder &b, const char *cmp, const std::vector<SV> &probes, double weight = 0.03, const char *more = "")
{
	int i = 0;
	for (auto &s : rich(cmp, more)) {
		Config &c = b.add("frame/" + std::to_string(i++), s.first, s.second, universal(), weight);
		for (auto &p : probes) c.epi.push_back(p);
	}
}

static SV deep_text() { return { "in*7000 0\\r\\n1\\r\\n2\\r\\n3\\r\\n4\\r\\n5\\r\\n6\\r\\n7\\r\\n8\\r\\n9\\r\\n" }; }

// numbers beyond eight (and sixteen) bits: a wide screen, a high one, a long scrollback
static void large(Builder &b, const char *cmp, const SV &wide, const SV &high, const SV &deep = {})
{
	auto add = [&](const char *n, const std::string &h, const SV &start, const SV &ops) {
		if (ops.empty()) return;
		Config &c = b.add(n, h, start, ops, 0.1);
		c.depth = b.thorough ? 4 : *n == 'd' ? 2 : 3;
		c.finish = true;
	};
	add("wide300", S("term cols=300 rows=3 sb=4 ms=4 %s", cmp), filled(300, 3), wide);
	add("high300", S("term cols=3 rows=300 sb=400 ms=400 %s", cmp), filled(3, 300), high);
	SV tall = high;
	for (auto n : { "384", "512", "513", "599" })
		for (auto f : { "S", "T", "L", "M" }) tall.push_back(S("in \\e[%s%s", n, f));
	if (high.size()) {
		add("high600", S("term cols=2 rows=600 sb=700 ms=700 %s", cmp), filled(2, 600), tall + in({ "\\e[512;2H", "\\e[520d", "\\e[384d", "\\e[513;600r" }));
		b.p.configs.back().depth = b.thorough ? 3 : 2;
	}
	add("deep70000", S("term cols=3 rows=2 sb=70000 ms=70000 %s", cmp), deep_text(), deep);
}

// every number as the parameter of a sequence
static void numbers(Builder &b, const char *cmp, const SV &seqs)
{
	SV n = { "", "384", "512", "600", "1000", "1023", "1024", "4095", "4096", "9999", "10000", "32767", "32768", "65534", "65535", "65536", "65537", "70000", "99999", "100000", "655359", "655360", "655370", "1000000", "16777217", "2147483647", "2147483648", "4294967295", "4294967296", "4294967298", "42949672970", "9223372036854775808", "18446744073709551615", "18446744073709551618", "00000000000000000000002", "000", "100000000000000000000000000000000000000002" };
	for (int i = 0; i <= 310; ++i) n.push_back(std::to_string(i));
	SV ops;
	for (auto &q : seqs)
		for (auto &v : n) ops.push_back("in \\e[" + std::string(q).replace(q.find('%'), 1, v));
	SV mid = in({ "\\e[150;150H", "\\e[20;280r\\e[150;150H\\e[44m" });
	for (auto &m : mid) {
		Config &c = b.add("numbers", S("term cols=300 rows=300 sb=310 ms=310 %s", cmp), filled(300, 1) + in({ "\\e[150;1H" + fill_text(300, 1, false), "\\e[300;1H" + fill_text(300, 1, false) }) + SV{ m }, ops, 0.0001);
		c.depth = 1;
	}
}

// the modes of the whole terminal, in states that resets and mode changes leave behind
static SV contexts()
{
	return in({ "\\e[61\"p", "\\e[62\"p", "\\e[62;1\"p", "\\e[64;2\"p", "\\e\\sG", "\\e\\sF", "\\e[?47h", "\\e[?1049h", "\\e[?6h\\e[2;3r", "\\e[12l", "\\e[20h", "\\e[4h", "\\e[2h", "\\e[?1h", "\\e=", "\\e[?5h", "\\e[?7l", "\\e[?25l", "\\e[?8l", "\\e[?18h\\e[?19h", "\\e[?42h", "\\e[?66h", "\\e[!p", "\\ec",
		   "\\e7\\e[?1048h", "\\e)0\\x0e", "\\e*<\\e}", "\\e[1;4;7;35;46m", "\\e[3g", "\\e]2;", "\\e[3;", "\\eP1q", "\\xe4\\xbd", "\\e[?1003;1006h", "\\e[?9h", "\\e[?1002;1016h", "\\e[?67h", "\\e[?4h", "\\e[?2h", "\\e[?2l" }) +
	       SV{ "bs 1", "palette 3", "setflags 8", "mousecb 0", "hardreset", "resize 9 7" };
}

static void c07(Builder &b)
{
	const char *cmp = "cmp=cur,size,cells,sb,sflags";
	SV addr = in({ "\\e[H", "\\e[2;3H", "\\e[3;5H", "\\e[4;1f", "\\e[0;0H", "\\e[;2H", "\\e[99;99H", "\\e[65536;1H", "\\e[1;99f", "\\e[2G", "\\e[99G",
		       "\\e[0G", "\\e[d", "\\e[3d", "\\e[4d", "\\e[99d", "\\e[e", "\\e[2e", "\\e[99e" });
	SV rel = in({ "\\e[A", "\\e[2A", "\\e[99A", "\\e[B", "\\e[2B", "\\e[0B", "\\e[99B", "\\e[C", "\\e[3C", "\\e[99C", "\\e[D", "\\e[2D", "\\e[99D", "\\e[E",
		      "\\e[2E", "\\e[99E", "\\e[F", "\\e[2F", "\\e[99F" });
	SV lines = in({ "\\r", "\\x08", "\\n", "\\x0b", "\\x0c", "\\eD", "\\eM", "\\eE", "\\xc2\\x84", "\\xc2\\x85", "\\xc2\\x8d" });
	SV state = in({ "\\e[r", "\\e[2;3r", "\\e[1;2r", "\\e[3;4r", "\\e[2;2r", "\\e[3;2r", "\\e[2;99r", "\\e[0;3r", "\\e[?6h", "\\e[?6l", "\\e[20h", "\\e[20l",
			"\\e[?7l", "\\e[?7h", "X", "XYZWV", "\\xe4\\xbd\\xa0", "\\e[?47h", "\\e[?47l", "\\e[?1049h", "\\e[?1049l", "\\e7", "\\e8", "\\e[!p", "\\ec", "\\e[J",
			"\\e[?1048h", "\\e[?1048l" }) +
		   SV{ "resize 5 4", "resize 3 2", "resize 7 5", "sbup 1" };
	std::string h5 = S("term cols=5 rows=4 sb=2 %s", cmp);
	Starts st = { { h5, {} }, { h5, filled(5, 4) }, { h5, filled(5, 4) + in({ "\\e[2;3r" }) }, { h5, filled(5, 4) + in({ "\\e[2;3r\\e[?6h" }) },
		      { h5, filled(5, 4) + in({ "\\e[3;4r\\e[?6h\\e[?47h", fill_text(5, 4, false) }) }, { h5, filled(5, 4) + in({ "\\e[1;2r\\e[4;5HX" }) } };
	b.each("wide", st, addr + rel + lines + state, 0.25);
	SV core = in({ "\\e[3;5H", "\\e[2;1H", "\\e[99;99H", "\\e[H", "\\e[d", "\\e[2e", "\\e[A", "\\e[9A", "\\e[B", "\\e[9B", "\\e[9C", "\\e[D", "\\e[E", "\\e[F", "\\r", "\\x08",
		       "\\n", "\\eM", "\\eE", "\\e[2;3r", "\\e[r", "\\e[?6h", "\\e[?6l", "XYZWV" });
	b.each("core", { st[1], st[2], st[3] }, core, 0.35);
	numbers(b, cmp, { "%A", "%B", "%C", "%D", "%E", "%F", "%G", "%H", "2;%H", "%;%H", "%f", "3;%f", "%d", "%e", "%a", "%`", "%;200r\\e[?6h\\e[9d", "100;%r\\e[?6h\\e[999d" });
	// other sizes
	Starts sz;
	for (auto g : { std::make_pair(1, 1), std::make_pair(1, 3), std::make_pair(3, 1), std::make_pair(2, 2), std::make_pair(4, 3), std::make_pair(9, 6) })
		sz.push_back({ S("term cols=%d rows=%d sb=1 %s", g.first, g.second, cmp), filled(g.first, g.second) });
	b.each("sizes", sz, core + in({ "\\e[1;2r", "\\e[3;9r", "\\e[?7l", "\\e[99G", "\\e[2d", "\\e[?1049h", "\\e[?1049l" }), 0.15);
	// huge counts through the direct API
	SV direct = { "s.moveto 0 0", "s.moveto 4 3", "s.moveto 2 1", "s.moveto 4294967295 4294967295", "s.moveto 5 4", "s.moveto 1 4294967294", "s.up 1 0", "s.up 1 1", "s.up 2 1",
		      "s.up 4294967295 0", "s.up 4294967295 1", "s.down 1 0", "s.down 1 1", "s.down 3 1", "s.down 4294967295 0", "s.down 4294967295 1", "s.left 1", "s.left 2",
		      "s.left 4294967295", "s.right 1", "s.right 3", "s.right 4294967295", "s.lineend", "s.linehome", "s.newline", "s.write 65 0", "s.margins 1 2", "s.margins 2 3",
		      "s.margins 0 0", "s.margins 3 2", "s.margins 4294967295 4294967295", "s.margins 2 4294967295", "setflags 4", "clrflags 4", "setflags 2", "clrflags 2", "setflags 64",
		      "clrflags 64", "s.reset", "resize 5 4", "resize 4 3", "s.up 0 1", "s.down 0 1", "s.left 0", "s.right 0" };
	Starts ds = { { S("term vte=0 cols=5 rows=4 sb=2 %s", cmp), {} },
		      { S("term vte=0 cols=5 rows=4 sb=2 %s", cmp), { "setflags 2", "s.write 65 0", "s.write 66 1", "s.write 67 0", "s.write 68 0", "s.write 69 1", "s.write 70 1", "s.newline", "s.write 71 0",
								    "s.newline", "s.write 72 0", "s.margins 2 3" } } };
	b.each("direct", ds, direct, 0.25);
	large(b, cmp, in({ "\\e[2;257H", "\\e[3;300H", "\\e[256G", "\\e[255C", "\\e[256C", "\\e[257D", "\\e[299`", "\\x08", "A", "\\r", "\\e[260a", "\\n" }) + SV{ "s.moveto 280 1", "s.right 256", "s.left 257" },
	      in({ "\\e[257;2H", "\\e[300H", "\\e[256d", "\\e[255B", "\\e[256A", "\\e[257B", "\\e[258E", "\\e[256F", "\\e[250;299r", "\\e[2;257r", "\\e[?6h", "\\e[?6l", "\\n", "\\eM", "\\e[256e" }) + SV{ "s.moveto 1 280", "s.up 256 0", "s.down 257 0", "s.margins 257 290" });
	// whatever comes before
	frame(b, "cmp=cur,size,sflags", { { "in \\e[2;3H", "in \\e[9A", "in \\e[9B", "in \\e[9C", "in XY", "in \\n" },
				 { "in \\e[A", "in \\e[B", "in \\e[C", "in \\e[D", "in \\eM", "in \\eM", "in \\eM", "in \\eM" },
				 { "in \\e8", "in \\e[2d", "in \\e[B", "in \\r" },
				 { "in \\e[?6l\\e[99;99H", "in \\n", "in \\e[?6h\\e[H", "in \\eM" } }, 0.08);
}

static void c08(Builder &b)
{
	const char *cmp = "cmp=cur,size,cells,attr,sb,sflags";
	SV prints = in({ "A", "b", "\\s", "~", "\\xc3\\xa9", "\\xe4\\xbd\\xa0", "\\xf0\\x9f\\x98\\x80", "\\xcc\\x81", "\\xe2\\x80\\x8b", "\\xe1\\x85\\xa0", "\\xef\\xbf\\xbd", "\\xff", "\\x7f", "\\x00", "\\x01", "\\xc2\\xad", "\\xc2\\xa0",
			 "\\xc2\\x80", "\\xef\\xbf\\xbf", "ABCDEF", "A\\xe4\\xbd\\xa0B", "\\xe4\\xbd\\xa0\\xe5\\xa5\\xbd", "a\\xcc\\x81", "abcdefghijklmnop", "\\xe4\\xbd\\xa0\\xcc\\x81", "\\xed\\x9f\\xbb", "\\xef\\xbc\\xa1" });
	SV state = in({ "\\e[?7h", "\\e[?7l", "\\e[4h", "\\e[4l", "\\e[31m", "\\e[0;44;1m", "\\e[H", "\\e[1;4H", "\\e[1;5H", "\\e[3;5H", "\\e[3;4H", "\\e[2;5H", "\\e[2;2H", "\\r", "\\n", "\\x08", "\\t", "\\e[2;3r",
			"\\e[1;2r", "\\e[r", "\\e[K", "\\e[?47h", "\\e[?47l", "\\e7", "\\e8", "\\eM", "\\e[C", "\\e[D", "\\e[A", "\\e[P", "\\e[@" }) +
		   SV{ "resize 4 3", "resize 5 3" };
	std::string h5 = S("term cols=5 rows=3 sb=2 %s", cmp);
	Starts st = { { h5, {} }, { h5, filled(5, 3) }, { h5, filled(5, 3) + in({ "\\e[2;2r\\e[2;1H" }) }, { h5, filled(5, 3) + in({ "\\e[?7l\\e[4h\\e[3;3H" }) },
		      { h5, in({ "\\xe4\\xbd\\xa0\\xe5\\xa5\\xbdx\\xe4\\xbd\\xa0\\xe5\\xa5\\xbdy\\e[H" }) } };
	b.each("wide", st, prints + state, 0.35);
	SV core = in({ "A", "\\xe4\\xbd\\xa0", "\\xcc\\x81", "\\e[?7h", "\\e[?7l", "\\e[4h", "\\e[4l", "\\e[1;4H", "\\e[3;5H", "\\e[2;5H", "\\r", "\\n", "\\x08", "\\e[1;2r", "\\e[31m" });
	b.each("core", { st[0], st[1] }, core, 0.35);
	Starts sz;
	for (auto g : { std::make_pair(1, 1), std::make_pair(2, 1), std::make_pair(1, 2), std::make_pair(2, 2), std::make_pair(3, 2), std::make_pair(8, 2) })
		sz.push_back({ S("term cols=%d rows=%d sb=1 %s", g.first, g.second, cmp), filled(g.first, g.second) });
	b.each("sizes", sz, core + in({ "\\e[1;99H", "\\e[99;99H", "\\eM", "ABCDEF" }), 0.2);
	SV direct = { "s.write 65 0", "s.write 66 1", "s.write 20320 0", "s.write 769 0", "s.write 8203 0", "s.write 0 0", "s.write 10 1", "s.write 127 0", "s.write 1114111 0", "s.write 128512 4", "setflags 2", "clrflags 2",
		      "setflags 1", "clrflags 1", "s.moveto 3 0", "s.moveto 4 0", "s.moveto 4 2", "s.moveto 3 2", "s.moveto 1 1", "s.margins 1 2", "s.margins 2 3", "s.newline", "s.left 1", "s.setdef 1", "setflags 64", "clrflags 64" };
	b.each("direct", { { S("term vte=0 cols=5 rows=3 sb=2 %s", cmp), { "setflags 2" } } }, direct, 0.1);
	large(b, cmp, in({ "\\e[2;257H", "\\e[3;299H", "\\e[256G", "\\e[300G", "A", "BC", "\\xe4\\xbd\\xa0", "\\e[4h", "\\e[?7l" }) + SV{ "in*257 x", "in*299 y", "in*150 \\xe4\\xbd\\xa0", "in*601 z" },
	      in({ "\\e[257;2H", "\\e[300;3H", "\\e[256;1H", "ABCDE", "\\xe4\\xbd\\xa0\\xe4\\xbd\\xa0", "\\e[257;299r" }) + SV{ "in*20 abc" });
	// whatever comes before
	frame(b, "cmp=cur,size,cells,attr,sb", { { "in ABCDEFGHIJKLMNOPQRSTUVWXYZ" },
				 { "in \\e[4;9HA\\xe4\\xbd\\xa0B\\xe4\\xbd\\xa0" },
				 { "in \\e[H\\e[4hXY\\xe4\\xbd\\xa0Z\\e[4lQ" },
				 { "in \\e[99GXYZ", "in \\e[?7lABCDEFGHIJKLM" } }, 0.08);
}

static void c09(Builder &b)
{
	const char *cmp = "cmp=cur,size,cells,attr,sb,sflags";
	SV ed = in({ "\\e[J", "\\e[1J", "\\e[2J", "\\e[3J", "\\e[0J", "\\e[?J", "\\e[?1J", "\\e[?2J", "\\e[K", "\\e[1K", "\\e[2K", "\\e[3K", "\\e[?K", "\\e[?1K", "\\e[?2K", "\\e[X", "\\e[2X", "\\e[99X", "\\e[0X" });
	SV id = in({ "\\e[@", "\\e[2@", "\\e[99@", "\\e[P", "\\e[2P", "\\e[4P", "\\e[99P", "\\e[L", "\\e[2L", "\\e[3L", "\\e[99L", "\\e[M", "\\e[2M", "\\e[3M", "\\e[99M", "\\e[S", "\\e[2S", "\\e[99S", "\\e[T", "\\e[2T", "\\e[99T", "\\e[0M", "\\e[65535L", "\\e[65535S" });
	SV state = in({ "\\e[H", "\\e[2;3H", "\\e[3;1H", "\\e[4;5H", "\\e[1;5H", "\\e[2;3r", "\\e[1;2r", "\\e[3;4r", "\\e[r", "\\e[?6h", "\\e[?6l", "\\e[42m", "\\e[0;1;4;7m", "\\e[?5h", "XYZ", "Q\\xe4\\xbd\\xa0", "\\e[?47h", "\\e[?47l",
			"\\n", "\\e[B", "\\e[D" }) +
		   SV{ "s.write 80 2", "s.write 81 4", "resize 4 3" };
	std::string h = S("term cols=5 rows=4 sb=3 %s", cmp);
	SV prot = { "in \\e[HAB", "s.write 112 2", "in C\\r\\n", "s.write 113 4", "in D\\e[44mEF\\e[0m\\r\\nGHIJK\\r\\nL", "s.write 114 2", "s.write 115 2", "s.write 116 2", "in \\e[2;2H" };
	Starts st = { { h, filled(5, 4) + in({ "\\e[2;3H" }) }, { h, filled(5, 4) + in({ "\\e[2;3r\\e[45m\\e[3;2H" }) }, { h, prot }, { h, filled(5, 4) + in({ "\\e[?47h", fill_text(5, 4, false), "\\e[2;4r\\e[4;3H" }) },
		      { h, filled(5, 4) + in({ "\\e[2;3r\\e[4;4H\\e[41m" }) }, { h, filled(5, 4) + in({ "\\e[2;1HVWXYZ" }) } };
	// protected wide characters, cut by the edges and by what is erased
	SV pw = { "in \\e[?7h\\e[H", "s.write 20320 2", "in a", "s.write 20320 2", "in \\e[2;4H", "s.write 20320 2", "in \\e[3;5H", "s.write 98 2", "in \\e[4;1Hx", "s.write 20320 4", "in \\e[2;4H" };
	st.push_back({ h, pw });
	b.each("wide", st, ed + id + state, 0.4);
	SV core = in({ "\\e[J", "\\e[1J", "\\e[K", "\\e[1K", "\\e[2X", "\\e[2@", "\\e[2P", "\\e[L", "\\e[2M", "\\e[S", "\\e[T", "\\e[2;3H", "\\e[4;5H", "\\e[2;3r", "\\e[r", "\\e[42m", "XYZ" });
	b.each("core", { st[0], st[2] }, core, 0.3);
	Starts sz;
	for (auto g : { std::make_pair(1, 1), std::make_pair(2, 1), std::make_pair(1, 3), std::make_pair(3, 2), std::make_pair(4, 6) })
		sz.push_back({ S("term cols=%d rows=%d sb=1 %s", g.first, g.second, cmp), filled(g.first, g.second) });
	b.each("sizes", sz, core + in({ "\\e[2J", "\\e[?1K", "\\e[99L", "\\e[99M", "\\e[3S", "\\e[3T", "\\e[99;99H", "\\e[3;5r" }), 0.15);
	SV direct = { "s.erd0 0", "s.erd0 1", "s.erd1 0", "s.erd1 1", "s.erd2 0", "s.erd2 1", "s.erl0 0", "s.erl0 1", "s.erl1 0", "s.erl1 1", "s.erl2 0", "s.erl2 1", "s.ercur", "s.erchars 1", "s.erchars 0", "s.erchars 4294967295",
		      "s.insc 1", "s.insc 0", "s.insc 4294967295", "s.delc 1", "s.delc 0", "s.delc 4294967295", "s.insl 1", "s.insl 0", "s.insl 4294967295", "s.dell 1", "s.dell 0", "s.dell 4294967295", "s.scrollup 1", "s.scrollup 0",
		      "s.scrollup 4294967295", "s.scrolldown 1", "s.scrolldown 0", "s.scrolldown 4294967295", "s.moveto 2 1", "s.moveto 4 3", "s.moveto 0 2", "s.margins 2 3", "s.margins 0 0", "s.setdef 1", "s.setdef 3", "s.write 65 2", "s.write 66 0",
		      "setflags 64", "clrflags 64", "setflags 4" };
	SV dp = { "setflags 2" };
	for (int i = 0; i < 19; ++i) dp.push_back(S("s.write %d %d", 'a' + i, i % 5));
	b.each("direct", { { S("term vte=0 cols=5 rows=4 sb=2 %s", cmp), dp } }, direct, 0.15);
	// more lines than the scroll code handles at once
	SV tall;
	for (int i = 0; i < 260; ++i) tall.push_back(S("in %c%d\\e[4%dm\\r\\n", 'A' + i % 26, i, i % 8));
	tall.push_back("in last\\e[0m");
	SV many = in({ "\\e[130S", "\\e[130T", "\\e[130L", "\\e[130M", "\\e[127S", "\\e[128S", "\\e[129S", "\\e[255S", "\\e[257T", "\\e[128L", "\\e[129M", "\\e[5;200r", "\\e[H", "\\e[6;1H", "\\e[100;2H", "\\eM", "\\n", "\\e[999B" });
	numbers(b, cmp, { "%@", "%P", "%X", "%L", "%M", "%S", "%T", "%J", "%K" });
	b.add("tall", S("term cols=4 rows=260 sb=300 %s", cmp), tall, many, 1).depth = b.thorough ? 4 : 2;
	large(b, cmp, in({ "\\e[2;257H", "\\e[3;300H", "\\e[2;20H", "\\e[256X", "\\e[280X", "\\e[256@", "\\e[257P", "\\e[299@", "\\e[3P", "\\e[K", "\\e[1K", "\\e[J", "\\e[1J", "\\e[45m" }),
	      in({ "\\e[257;2H", "\\e[300H", "\\e[20H", "\\e[256L", "\\e[257M", "\\e[256S", "\\e[258T", "\\e[J", "\\e[1J", "\\e[250;299r", "\\e[2;280r", "\\n", "\\eM", "\\e[2L", "\\e[2M" }));
	// whatever comes before
	frame(b, "cmp=cur,size,cells,attr,sb", { { "in \\e[L", "in \\e[P", "in \\e[@", "in \\e[X" },
				 { "in \\e[2;4H\\e[2M", "in \\e[99@", "in \\e[1K", "in \\e[J" },
				 { "in \\e[H\\e[?J", "in \\e[S", "in \\e[T", "in \\e[2J" },
				 { "in \\e[3;9H\\e[2P", "in \\eM\\eM\\eM", "in \\e[2L", "in \\e[1J" } }, 0.08);
}

static void c10(Builder &b)
{
	const char *cmp = "cmp=cur,size,cells";
	SV a = in({ "\\t", "\\t\\t", "\\e[I", "\\e[2I", "\\e[0I", "\\e[9I", "\\e[65535I", "\\e[Z", "\\e[2Z", "\\e[0Z", "\\e[9Z", "\\eH", "\\xc2\\x88", "\\e[g", "\\e[0g", "\\e[3g", "\\e[1g", "\\e[5g", "\\r", "\\e[3G", "\\e[8G", "\\e[9G", "\\e[10G", "\\e[17G", "\\e[18G",
		    "\\e[19G", "\\e[20G", "X", "\\x08", "\\e[?7l", "\\e[?7h", "\\e[4h", "\\e[4l", "\\e[!p", "\\ec", "\\n", "\\e[?47h", "\\e[?47l", "\\e7", "\\e8", "XXXXXXXX", "\\e[?6h", "\\e[2;2r", "\\e[J" }) +
	       SV{ "resize 19 2", "resize 20 2", "resize 40 2", "resize 12 2", "resize 8 2", "resize 24 3", "reset", "hardreset" };
	std::string h = S("term cols=19 rows=2 sb=1 %s", cmp);
	std::string full(19, 'X');
	Starts st = { { h, {} }, { h, in({ "\\e[3g\\e[5G\\eH\\e[19G\\eH\\r" }) }, { h, in({ full }) }, { h, in({ full + "\\r\\e[1;9H\\e[g\\e[2;1H" }) }, { S("term cols=1 rows=1 %s", cmp), {} }, { S("term cols=8 rows=2 %s", cmp), {} },
		      { S("term cols=9 rows=2 %s", cmp), {} } };
	b.each("tabs", st, a, 0.6);
	SV core = in({ "\\t", "\\e[2I", "\\e[Z", "\\e[2Z", "\\eH", "\\e[g", "\\e[3g", "\\e[3G", "\\e[17G", "\\e[99G", "X", "\\ec" }) + SV{ "resize 19 2", "resize 33 2" };
	b.each("core", { st[0], st[1] }, core, 0.3);
	SV direct = { "s.settab", "s.clrtab", "s.clrtabs", "s.tabr 1", "s.tabr 2", "s.tabr 0", "s.tabr 4294967295", "s.tabl 1", "s.tabl 2", "s.tabl 0", "s.tabl 4294967295", "s.moveto 4 0", "s.moveto 8 0", "s.moveto 18 0", "s.moveto 16 0", "s.linehome", "s.write 65 0",
		      "s.reset", "resize 19 2", "resize 17 2", "resize 30 2", "setflags 2", "s.lineend" };
	b.each("direct", { { S("term vte=0 cols=19 rows=2 %s", cmp), { "setflags 2" } } }, direct, 0.1);
	large(b, cmp, in({ "\\e[257G", "\\e[300G", "\\e[256G", "\\e[2G", "\\t", "\\e[Z", "\\eH", "\\e[g", "\\e[3g", "\\e[256I", "\\e[32I", "\\e[257Z", "\\r" }) + SV{ "resize 280 3", "resize 310 3", "resize 257 3" }, {});
	// whatever comes before
	frame(b, "cmp=cur,size", { { "in \\r\\t", "in \\t", "in \\t", "in \\t", "in \\t" },
				 { "in \\e[99G\\e[Z", "in \\e[Z", "in \\e[Z", "in \\e[Z" },
				 { "in \\e[3G\\eH\\r\\t", "in \\t\\t\\e[2Z", "in \\e[g\\e[9Z", "in \\e[2I" },
				 { "in \\e[3g\\r\\t" } }, 0.08);
}

static void c11(Builder &b)
{
	const char *cmp = "cmp=attr,inv,def,cells";
	SV all;
	for (int i = 0; i <= 120; ++i) all.push_back(S("in \\e[%dmX", i));
	for (int k : { 38, 48 }) {
		for (int i = 0; i < 258; ++i) all.push_back(S("in \\e[%d;5;%dmX", k, i));
		for (const char *t : { "", ";", ";5", ";5;", ";2", ";2;1", ";2;1;2", ";2;1;2;", ";2;1;2;3", ";2;255;0;128", ";2;256;0;0", ";2;0;256;0", ";2;0;0;256", ";2;;1;2", ";2;0;0;0;31", ";5;1;4", ";5;256;4", ";3;1;31", ";0;31", ";1", ";5;0;38", ";2;1;2;3;1",
				       ";2;99999;0;0", ";4;1;2;3;4", ";6" })
			all.push_back(S("in \\e[%d%smX", k, t));
	}
	for (const char *t : { "", ";", "1;31", "31;1", ";31", "31;", "31;;42", "1;4;5;7;31;42", "22;24;25;27;39;49", "38;5;9;48;5;10;1", "38;5;100;48;2;1;2;3;4", "1;38;5;3", "38;5;3;1", "99", "999", "99999", "1;999;4", "38;48;5;3", "48;38;5;3", "0;1;0;4",
			       "1;2;3;4;5;6;7;8;9;10;11;12;13;14;31;42;1", "38;5;1;38;5;2;38;5;3;38;5;4;38;5;5;38;5;6", "1;1;1;1;1;1;1;1;1;1;1;1;1;38;5;3", "1;1;1;1;1;1;1;1;1;1;1;1;38;2;3;4", "?1", ">4;1", "1 q", "1:2" })
		all.push_back(S("in \\e[%smX", t));
	for (int k = 12; k <= 17; ++k)
		for (int c : { 0, 1, 2, 3, 4, 5, 7, 8, 9, 21, 22, 23, 24, 25, 27, 30, 37, 38, 39, 40, 47, 48, 49, 90, 97, 100, 107 }) {
			std::string l;
			for (int i = 0; i < k; ++i) l += i == 3 ? "31;" : i == 5 ? "7;" : "4;";
			all.push_back(S("in \\e[1;5;3m\\e[%s%dmX", l.c_str(), c));
		}
	// extended colours at every position, and what follows them
	for (int k = 0; k <= 15; ++k)
		for (const char *t : { "38;2;1;2;3", "48;2;255;128;0", "38;5;200", "48;5;9", "38;5;250", "38;2;1;2", "48;5", "38;2;1;2;3;48;5;100", "48;5;2;38;2;9;8;7", "38;2;1;2;256", "38;5;256", "38;;5;3", "38;2;1;2;3;", "38;5;3;7", "48;2;1;2;3;24" }) {
			std::string l;
			for (int i = 0; i < k; ++i) l += i == 2 ? "32;" : i % 3 ? "4;" : ";";
			all.push_back(S("in \\e[%s%smX", l.c_str(), t));
		}
	for (int v = 0; v <= 257; ++v)
		for (const char *t : { "38;2;%d;1;2", "48;2;3;%d;4", "38;2;5;6;%d", "48;2;%d;%d;%d" }) all.push_back("in \\e[" + S(t, v, v, v) + "mX");
	SV st = in({ "\\e[1;31;42mX", "\\e[0;7;94;103mX", "\\e[38;5;200;48;2;1;2;3m", "\\e[0;39;49;1mX" });
	std::string h = S("term cols=12 rows=2 %s", cmp);
	SV q = { "palette 2", "in \\e[H" };
	b.each("every", { { h, {} }, { h, { st[0] } }, { h, { st[1] } }, { h, { st[2] } }, { h, { st[3] } }, { h, q } }, all, 1.0 / 256);
	{
		SV few;
		for (size_t i = 0; i < all.size(); i += b.thorough ? 2 : 5) few.push_back(all[i]);
		b.each("pairs", { { h, {} }, { h, { st[0] } } }, few, 0.15);
	}
	SV core = in({ "\\e[mX", "\\e[1mX", "\\e[22mX", "\\e[4mX", "\\e[24m", "\\e[5mX", "\\e[25mX", "\\e[3mX", "\\e[23mX", "\\e[7mX", "\\e[27mX", "\\e[31mX", "\\e[37mX", "\\e[91mX", "\\e[39mX", "\\e[42mX", "\\e[47mX", "\\e[107mX", "\\e[100mX", "\\e[49mX", "\\e[38;5;1mX", "\\e[38;5;12mX",
		       "\\e[48;5;7mX", "\\e[38;5;16mX", "\\e[48;5;231mX", "\\e[38;5;244mX", "\\e[48;2;9;8;7mX", "\\e[38;2;0;0;0mX", "\\e[38;5mX", "\\e[48;2;1mX", "\\e7", "\\e8X", "\\e[K", "\\e[2X", "\\eM", "\\n", "\\e[H", "\\e[?5h", "\\e[!p", "\\ec", "\\e[?47h", "\\e[?47l", "\\e[P", "\\e[@",
		       "\\e[L", "\\e[2;2r", "\\e[?1049h", "\\e[?1049l", "\\e[?1048h", "\\e[?1048l", "\\t\\x1aY" }) +
		  SV{ "palette 1", "resize 10 2", "resize 12 3" };
	b.each("core", { { S("term cols=6 rows=2 sb=2 %s", cmp), {} }, { S("term cols=6 rows=2 sb=2 %s", cmp), in({ "\\e[1;31;44mABCDEF\\r\\nGH\\e[H" }) } }, core, 0.6);
	SV deep = in({ "\\e[mX", "\\e[1mX", "\\e[22mX", "\\e[7mX", "\\e[27mX", "\\e[31mX", "\\e[39mX", "\\e[47mX", "\\e[49mX", "\\e[38;5;1mX", "\\e[48;2;9;8;7mX", "\\e[K", "\\e7", "\\e8X" });
	b.each("deep", { { S("term cols=9 rows=1 %s", cmp), {} } }, deep, 0.2);
	// whatever comes before
	frame(b, "cmp=cells,attr,def", { { "in X\\e[1mY\\e[22;39;49mZ" },
				 { "in \\e8W" },
				 { "in \\e[?47h\\e[HV\\e[K", "in \\e[?47l\\e[HU\\e[1K" },
				 { "in \\e[?1048lT\\e[7;91mS\\e[mR" } }, 0.08);
}

static void c12(Builder &b)
{
	const char *cmp = "cmp=ch,size";
	SV des;
	for (const char *g : { "(", ")", "*", "+" })
		for (const char *c : { "B", "0", "<", "A" }) des.push_back(S("in \\e%s%s", g, c));
	SV other;
	for (const char *c : { "4", "C", "5", "R", "Q", "K", "Y", "E", "6", "Z", "H", "7", "=", "X", "1", ">", "%%" })
		for (const char *g : { "(", ")" }) other.push_back(S("in \\e%s%s", g, c));
	SV inv = in({ "\\x0e", "\\x0f", "\\en", "\\eo", "\\e~", "\\e}", "\\e|", "\\eN", "\\eO", "\\xc2\\x8e", "\\xc2\\x8f" });
	SV chars = in({ "q", "a", "`", "\\s", "~", "\\x7f", "!", "\\xc3\\xa9", "\\xc2\\xa0", "\\xc3\\xbf", "\\xc2\\xa1", "\\xc4\\x80", "\\xe4\\xbd\\xa0", "\\xff" });
	SV st = in({ "\\e7", "\\e8", "\\e[!p", "\\ec", "\\e[61\"p", "\\e[62\"p", "\\e[?47h", "\\n", "\\t", "\\e[A", "\\x18", "\\e[?42h", "\\e-A", "\\e.A", "\\e((0", "\\e( 0" });
	// every code point of both halves is printed at the end of every history
	std::string row;
	SV probe;
	for (int i = 0x20; i < 0x80; ++i) row += S("\\x%02x", i);
	probe.push_back("in \\e[H" + row);
	row.clear();
	for (int i = 0xa0; i < 0x100; ++i) row += S("\\xc2\\x%02x", i < 0xc0 ? i : 0), (void)0;
	row.clear();
	for (int i = 0xa0; i < 0x100; ++i) row += i < 0xc0 ? S("\\xc2\\x%02x", i) : S("\\xc3\\x%02x", i - 0x40);
	probe.push_back("in " + row);
	std::string h = S("term cols=24 rows=10 %s", cmp);
	Config &c = b.add("tables", h, {}, des + other + inv + st, 0.02);
	c.epi = { probe };
	// the sets that each mode of the terminal leaves behind, behind every invocation
	SV levels;
	for (int m : { 60, 61, 62, 63, 64, 65 })
		for (const char *q : { "", ";0", ";1", ";2", ";3" }) levels.push_back(S("in \\e[%d%s\"p", m, q));
	int cn = 0;
	for (auto &x : uniq(contexts() + levels)) {
		Config &cc = b.add("contexts/" + std::to_string(cn++), h, in({ "\\e(0\\e)<\\e*0\\e+<" }) + SV{ x }, inv + in({ "\\e7", "\\e8" }), 0.0001);
		cc.depth = b.thorough ? 3 : 2;
		cc.epi = { probe };
		Config &cd = b.add("contexts/" + std::to_string(cn++), h, { x }, inv + levels, 0.0001);
		cd.depth = b.thorough ? 2 : 1;
		cd.epi = { probe };
	}
	std::string h2 = S("term cols=14 rows=2 %s", cmp);
	b.add("histories", h2, {}, des + inv + chars + st, 0.5);
	SV core = in({ "\\e(0", "\\e)<", "\\e*0", "\\e+<", "\\x0e", "\\x0f", "\\en", "\\e~", "\\e}", "\\eN", "\\eO", "q", "\\xc3\\xa9", "\\s", "\\e7", "\\e8" });
	b.add("core", h2, {}, core, 0.5);
	// every byte of ASCII designated
	SV any;
	for (int i = 0x21; i < 0x7f; ++i)
		for (const char *g : { "(", ")", "*", "+", " ", "!", "\"", "#", "-", ".", "/", "(*" }) any.push_back(S("in \\e%s\\x%02x\\x0e\\eN\\xc3\\xa9q\\x0fq", g, i));
	b.add("finals", h2, in({ "\\e)0" }), any, 0.001).depth = b.thorough ? 2 : 1;
	// whatever comes before
	frame(b, "cmp=cur,ch", { { "in q\\xc3\\xb1" },
				 { "in \\x0eq\\x0fq" },
				 { "in \\enq\\eoq\\x0f" },
				 { "in \\e~\\xc3\\xb1\\e}\\xc3\\xb1\\e|\\xc3\\xb1" },
				 { "in \\e8q\\xc3\\xb1\\x0eq" },
				 { "in \\eNqq\\eOqq" },
				 { "in \\e[?1048lq\\e~\\xc3\\xb1" } }, 0.08);
}

static void c13(Builder &b)
{
	const char *cmp = "cmp=cur,size,sflags,vflags,mmode,cells,attr,inv,reply";
	SV modes;
	for (int m : { 2, 4, 12, 20, 3, 6, 1 })
		for (char c : { 'h', 'l' }) modes.push_back(S("in \\e[%d%c", m, c));
	SV dec;
	for (int m : { 1, 5, 6, 7, 8, 25, 42, 47, 1047, 1048, 1049, 9, 1002, 1003, 1006, 1016, 2, 3, 4, 12, 20, 1000, 2004 })
		for (char c : { 'h', 'l' }) dec.push_back(S("in \\e[?%d%c", m, c));
	SV more = in({ "\\e[4;20h", "\\e[4;20l", "\\e[?6;7l", "\\e[?1;25;7h", "\\e[?25;;5l", "\\e[?7;47;6h", "\\e=", "\\e>", "\\eF", "\\eG", "\\e G", "\\e F", "\\e[61\"p", "\\e[62;1\"p", "\\e[62;0\"p", "\\e[64\"p", "\\e[99\"p", "\\e[!p", "\\e[>p", "\\ec", "\\e[>4h", "\\e[h", "\\e[?h",
		       "\\e[?99999h", "\\e[?1;1;1;1;1;1;1;1;1;1;1;1;1;1;1;6h", "\\e[?1;1;1;1;1;1;1;1;1;1;1;1;1;1;1;1;6h" });
	SV act = in({ "\\e7", "\\e8", "AB", "CDEF", "\\e[2;2H", "\\e[H", "\\e[3;5H", "\\n", "\\e[31;1m", "\\e[m", "\\e(0", "\\x0e", "\\x0f", "q", "\\e[2;3r", "\\e[2J", "\\eM", "\\e[6n", "\\e~", "\\e}" }) +
		 SV{ "resize 4 3", "resize 6 4", "key 0xff52 0 0 0xffffffff", "key 97 97 0 97", "key 0xffb5 53 0 53", "key 0xff0d 13 0 13", "key 0xe9 0 0 0xe9" };
	std::string h = S("term cols=5 rows=3 sb=2 %s", cmp);
	Starts st = { { h, {} }, { h, filled(5, 3) + in({ "\\e[2;3H\\e[32m" }) } };
	b.each("wide", st, modes + dec + more + act, 0.4);
	Starts st2 = { { h, filled(5, 3) + in({ "\\e[?47h", fill_text(5, 3, false), "\\e[2;2H" }) }, { h, filled(5, 3) + in({ "\\e[2;3r\\e[?6h\\e[2;2H\\e7" }) }, { h, filled(5, 3) + in({ "\\e[?7l\\e[1;31m\\x0e\\e[3;4H\\e7\\e[m\\x0f\\e[?1049h" }) } };
	b.each("wide2", st2, modes + dec + more + act, 0.1);
	SV alt = in({ "\\e[?47h", "\\e[?47l", "\\e[?1047h", "\\e[?1047l", "\\e[?1048h", "\\e[?1048l", "\\e[?1049h", "\\e[?1049l", "\\e7", "\\e8", "X", "ABCDEF", "\\e[2;3H", "\\e[31;44m", "\\e[J", "\\n", "\\e[S" }) + SV{ "resize 4 2", "resize 5 3" };
	b.each("alt", { st[1] }, alt, 0.25);
	SV sc = in({ "\\e7", "\\e8", "\\e[?7l", "\\e[?7h", "\\e[?6h", "\\e[?6l", "\\e[2;3r", "\\e[3;5H", "\\e[2;1H", "\\e[31m", "\\e[m", "\\x0e", "\\x0f", "\\e(0", "\\e~", "\\e}", "\\eN", "qX", "\\e[?47h", "\\e[?47l", "\\e[!p", "\\xc3\\xa9" }) + SV{ "resize 3 2" };
	b.each("saved", { st[0] }, sc, 0.25);
	// the character sets in the saved state
	SV sets = in({ "\\e7", "\\e8", "\\e(0", "\\e)B", "\\e)<", "\\e*0", "\\e*<", "\\e+0", "\\x0e", "\\x0f", "\\en", "\\eo", "\\e~", "\\e}", "\\e|", "\\eN", "\\eO", "q\\xc3\\xb1", "\\e[?1048h", "\\e[?1048l", "\\e[!p" });
	b.add("sets", S("term cols=4 rows=1 cmp=cur,size,ch"), {}, sets + in({ "\\e[H" }), 0.2);
	// every mode number
	SV every;
	for (int m = 0; m < 3000; ++m)
		for (const char *t : { "in \\e[%dh", "in \\e[%dl", "in \\e[?%dh", "in \\e[?%dl" }) every.push_back(S(t, m));
	every.push_back("in \\e[65535h");
	// every pair of modes in one sequence, and pairs split by every single one
	const int known[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 18, 19, 20, 25, 42, 47, 1000, 1002, 1003, 1006, 1016, 1047, 1048, 1049, 0, 999 };
	for (const char *q : { "", "?" })
		for (char t : { 'h', 'l' })
			for (int m : known)
				for (int n : known) {
					every.push_back(S("in \\e[%s%d;%d%c", q, m, n, t));
					for (int o : { 4, 6, 20, 25, 47, 1006 }) every.push_back(S("in \\e[%s%d;%d;%d%c", q, o, m, n, t));
				}
	b.each("numbers", { { h, filled(5, 3) }, { h, filled(5, 3) + in({ "\\e[?1;5;6;8;42;1002;1006h\\e[2;4;12;20h\\e[?7;25;8l\\e=" }) } }, every, 0.001);
	large(b, cmp, in({ "\\e[2;257H", "\\e[3;300HA", "\\e7", "\\e8", "\\e[?1048h", "\\e[?1048l", "\\e[?1049h", "\\e[?1049l", "\\e[?47h", "\\e[?47l", "B" }) + SV{ "resize 256 3", "resize 310 3" },
	      in({ "\\e[257;2H", "\\e[300;3HA", "\\e7", "\\e8", "\\e[?1048h", "\\e[?1048l", "\\e[?1049h", "\\e[?1049l", "\\e[250;299r", "\\e[?6h", "\\e[H" }) + SV{ "resize 3 256", "resize 3 310" });
	// whatever comes before
	frame(b, "cmp=cur,size,sflags,vflags,mmode,cells,attr,inv,reply", { { "in \\e8qX", "in \\e8" },
				 { "in \\e[?47h\\e[HX", "in \\e[?47l\\e[HY" },
				 { "in \\e[?1049l", "in \\e[?1049h" },
				 { "in \\e[?1048lqX" },
				 { "in \\e[?1047h\\eM", "in \\e[?1047l" },
				 { "key 0xff52 0 0 0xffffffff", "key 97 97 0 97", "key 0xff0d 13 0 13", "key 0xffb5 53 0 53", "in \\n", "in \\e[1;99HABC", "in \\e[HX" } }, 0.1);
}

static void c14(Builder &b)
{
	const char *cmp = "cmp=cur,size,sflags,vflags,mmode,cells,attr,inv,reply,sb,def,osc,mcb,ret";
	SV prot = { "in \\e[2;2H", "s.write 80 2", "s.write 81 4", "in \\e[3;4H", "s.write 82 2", "s.write 83 4", "in \\e[H" };
	SV mess = in({ "ABCDEFGH", "\\e[31;42;1;7m", "\\e[2;3H", "\\e[3;5HX", "\\e[2;3r", "\\e[?6h", "\\e[?7l", "\\e[4h", "\\e[20h", "\\e[12l", "\\e[2h", "\\e[?1h", "\\e[?5h", "\\e[?25l", "\\e=", "\\e[?42h", "\\e[?8l", "\\e(0", "\\e)0", "\\e*0\\en", "\\e+<\\e|", "\\x0e", "\\e~",
		       "\\e}", "\\eN", "\\eO", "\\e7", "\\e[?47h", "\\e[?1048h", "\\e[?1049h", "\\e[3g", "\\e[3G\\eH", "\\e[?9h", "\\e[?1002h", "\\e[?1003h", "\\e[?1006h", "\\e[?1016h", "\\e[61\"p", "\\e[62;1\"p", "\\e[62;0\"p", "\\e G", "\\n\\n\\n", "\\xe4\\xbd\\xa0", "\\xe4\\xbd", "\\xf0", "\\e", "\\e[",
		       "\\e[3;4", "\\e[?", "\\e(", "\\e]0;ab", "\\eP1;2|x", "\\e_x", "\\e[!p" }) +
		  SV{ "maxsb 0", "maxsb 4", "sbup 1", "setflags 32", "setflags 8", "resize 6 4", "palette 1", "bs 1", "selstart 0 0", "seltarget 3 1", "key 0xff08 8 8 8", "mouse 1 1 5 5 0 1 0", "mouse 2 1 5 5 0 4 0", "custompal 1", "age 3", "mousecb 0", "s.setdef 3", "s.margins 2 3" };
	SV probes = in({ "AB", "ABCDEFG", "q\\xc3\\xa9", "\\t\\tX", "\\n\\n\\n\\nY", "\\e8X", "\\e[?47hQ", "\\e[?1049h\\e[?1049lZ", "\\e[?1048lZ", "\\e[K", "\\e[6n\\e[5n\\e[c\\x05", "m", "1m", ";1H", "\\x07X", "\\e\\\\X", "\\xa0X", "\\x80\\x80X", "0q", "\\e[2;2HW\\e[6n", "\\eMV", "\\x0eq\\x0fq", "\\enq\\eoq",
			 "\\e~\\xc3\\xa9\\e}\\xc3\\xa9", "\\eNq\\eOq", "\\e[?1006h", "\\e[?1002h", "\\e[4lABC", "\\e[99;99HXY", "\\e[?1003;1006h" });
	SV keys = { "key 0xff52 0 0 0xffffffff", "key 0xff0d 13 0 13", "key 0xffb5 53 0 53", "key 0xe9 0 0 0x1e9", "key 0xff08 8 0 8", "key 97 97 0 97", "mouse 1 1 5 5 0 1 0", "mouse 2 1 5 5 0 4 0", "sbup 2", "resize 7 5", "resize 2 2", "setflags 64", "selcopy" };
	std::string h = S("term cols=5 rows=3 sb=3 ms=8 %s", cmp);
	Starts st = { { h, {} }, { h, filled(5, 3) + prot + in({ "\\e[?47h", fill_text(5, 3, false) }) + prot } };
	// unfinished sequences of every kind
	mess = mess + in({ "\\eP", "\\eP1", "\\eP:", "\\eP\\s", "\\ePq", "\\eP\\x9c", "\\eP1;", "\\eP1\\s", "\\e[:", "\\e[1:", "\\e[\\s", "\\e[1;2\\s", "\\e[1;2;3;4;5;6;7;8;9;10;11;12;13;14;15;16", "\\e[>", "\\e]", "\\e]1;a\\xe4", "\\eX", "\\e^", "\\e\\s", "\\e(\\s", "\\e#", "\\xc2\\x90", "\\xc2\\x9b7", "\\xc2\\x9d2;t", "\\xc2", "\\xe4" });
	int i = 0;
	for (auto &s : st)
		for (const char *r : { "hardreset", "in \\ec", "in \\e[!p", "reset" }) {
			Config &c = b.add("reset/" + std::to_string(i++), s.first, s.second, mess, 0.0025);
			for (auto &q : probes + keys) c.epi.push_back({ r, q, "in \\eD\\e8Xq", "sbup 1" });
			c.epi_every = 1;
		}
	i = 0;
	for (auto &s : st) {
		b.add("histories/" + std::to_string(i++), s.first, s.second, mess + SV{ "hardreset", "in \\ec", "reset" } + SV{ probes[0], probes[2], probes[3], probes[5], probes[6], probes[8], keys[7], keys[8] }, 0.35);
	}
	// whatever comes before
	frame(b, "cmp=cur,size,sflags,vflags,mmode,cells,attr,inv,reply,sb,def,osc,mcb,ret", { { "hardreset", "in q\\xc3\\xb1\\x0eq\\e~\\xc3\\xb1\\enq\\eoq", "in \\eD\\e8Xq" },
				 { "hardreset", "in \\r\\t\\tX\\e8Y", "in \\eD\\e8Xq" },
				 { "hardreset", "in \\e[?47hQ\\e[?1049lZ\\e[?1048lW", "in \\eD\\e8Xq" },
				 { "hardreset", "in \\n\\n\\n\\n\\n\\e[99;99HABC", "in \\eD\\e8Xq" },
				 { "hardreset", "key 0xff52 0 0 0xffffffff", "in \\eD\\e8Xq" },
				 { "hardreset", "key 0xe9 0 0 0xe9", "in \\eD\\e8Xq" },
				 { "hardreset", "mouse 1 1 15 20 0 1 0", "in \\eD\\e8Xq" },
				 { "hardreset", "in \\e[?1003;1006h", "in \\eD\\e8Xq" },
				 { "in \\ec", "in q\\xc3\\xb1\\x0eq\\e~\\xc3\\xb1\\enq\\eoq", "in \\eD\\e8Xq" },
				 { "in \\ec", "in \\r\\t\\tX\\e8Y", "in \\eD\\e8Xq" },
				 { "in \\ec", "in \\e[?47hQ\\e[?1049lZ\\e[?1048lW", "in \\eD\\e8Xq" },
				 { "in \\ec", "in \\n\\n\\n\\n\\n\\e[99;99HABC", "in \\eD\\e8Xq" },
				 { "in \\ec", "key 0xff52 0 0 0xffffffff", "in \\eD\\e8Xq" },
				 { "in \\ec", "key 0xe9 0 0 0xe9", "in \\eD\\e8Xq" },
				 { "in \\ec", "mouse 1 1 15 20 0 1 0", "in \\eD\\e8Xq" },
				 { "in \\ec", "in \\e[?1003;1006h", "in \\eD\\e8Xq" },
				 { "in \\e[!p", "in q\\xc3\\xb1\\x0eq\\e~\\xc3\\xb1\\enq\\eoq", "in \\eD\\e8Xq" },
				 { "in \\e[!p", "in \\r\\t\\tX\\e8Y", "in \\eD\\e8Xq" },
				 { "in \\e[!p", "in \\e[?47hQ\\e[?1049lZ\\e[?1048lW", "in \\eD\\e8Xq" },
				 { "in \\e[!p", "in \\n\\n\\n\\n\\n\\e[99;99HABC", "in \\eD\\e8Xq" },
				 { "in \\e[!p", "key 0xff52 0 0 0xffffffff", "in \\eD\\e8Xq" },
				 { "in \\e[!p", "key 0xe9 0 0 0xe9", "in \\eD\\e8Xq" },
				 { "in \\e[!p", "mouse 1 1 15 20 0 1 0", "in \\eD\\e8Xq" },
				 { "in \\e[!p", "in \\e[?1003;1006h", "in \\eD\\e8Xq" },
				 { "reset", "in q\\xc3\\xb1\\x0eq\\e~\\xc3\\xb1\\enq\\eoq", "in \\eD\\e8Xq" },
				 { "reset", "in \\r\\t\\tX\\e8Y", "in \\eD\\e8Xq" },
				 { "reset", "in \\e[?47hQ\\e[?1049lZ\\e[?1048lW", "in \\eD\\e8Xq" },
				 { "reset", "in \\n\\n\\n\\n\\n\\e[99;99HABC", "in \\eD\\e8Xq" },
				 { "reset", "key 0xff52 0 0 0xffffffff", "in \\eD\\e8Xq" },
				 { "reset", "key 0xe9 0 0 0xe9", "in \\eD\\e8Xq" },
				 { "reset", "mouse 1 1 15 20 0 1 0", "in \\eD\\e8Xq" },
				 { "reset", "in \\e[?1003;1006h", "in \\eD\\e8Xq" } }, 0.2);
}

static void c15(Builder &b)
{
	const char *cmp = "cmp=size,cells,attr,sb,cur";
	SV scr = in({ "\\n", "A\\r\\n", "b\\e[31m\\r\\n", "ABCDEFGHIJK", "\\e[S", "\\e[2S", "\\e[9S", "\\e[T", "\\eM", "\\eD", "\\e[2;3r", "\\e[1;2r", "\\e[r", "\\e[?47h", "\\e[?47l", "\\e[?1049h", "\\e[?1049l", "\\e[2J", "\\e[3;1H", "\\e[H", "\\e[M", "\\e[L", "X", "\\e[3J", "\\ec", "\\e[!p", "\\e[99;99H", "\\e[42m" });
	SV view = { "sbup 1", "sbup 2", "sbup 4294967295", "sbup 0", "sbdown 1", "sbdown 2", "sbdown 4294967295", "sbdown 0", "pgup 1", "pgup 2", "pgdn 1", "pgup 4294967295", "pgdn 4294967295", "sbreset", "maxsb 0", "maxsb 1", "maxsb 2", "maxsb 3", "maxsb 5", "clearsb", "setflags 32", "clrflags 32", "hardreset" };
	SV rs = { "resize 4 3", "resize 4 1", "resize 4 2", "resize 4 5", "resize 2 3", "resize 6 3", "resize 3 2" };
	std::string h = S("term cols=4 rows=3 sb=3 ms=5 %s", cmp);
	SV some = in({ "1\\r\\n2\\r\\n3\\r\\n4\\r\\n5\\r\\n6" });
	Starts st = { { h, {} }, { h, some }, { h, some + SV{ "setflags 32", "sbup 2" } }, { h, some + SV{ "sbup 2" } }, { S("term cols=4 rows=3 sb=0 ms=5 %s", cmp), some }, { S("term cols=3 rows=1 sb=2 ms=5 %s", cmp), some }, { h, some + in({ "\\e[?47h" }) } };
	b.each("wide", st, scr + view + rs, 0.35);
	SV core = in({ "A\\r\\n", "b\\r\\nc\\r\\n", "\\e[2S", "\\e[?47h", "\\e[?47l" }) + SV{ "sbup 1", "sbup 2", "sbdown 1", "pgup 1", "sbreset", "maxsb 1", "maxsb 3", "clearsb", "setflags 32", "clrflags 32", "resize 4 2", "resize 4 4" };
	b.each("core", { st[1], st[2], st[3] }, core, 0.5);
	SV direct = { "s.newline", "s.scrollup 1", "s.scrollup 2", "s.scrollup 4294967295", "s.write 65 0", "s.write 66 1", "s.moveto 0 2", "s.down 1 1", "sbup 1", "sbup 2", "sbdown 1", "pgup 1", "sbreset", "maxsb 1", "maxsb 4294967295", "maxsb 2", "clearsb", "setflags 32", "clrflags 32", "setflags 64", "clrflags 64", "s.margins 1 2",
		      "s.reset", "s.scrolldown 1", "resize 3 2", "resize 4 3" };
	b.each("direct", { { S("term vte=0 cols=4 rows=3 sb=3 ms=64 %s", cmp), { "s.write 65 0", "s.newline", "s.write 66 0", "s.newline", "s.write 67 1", "s.newline", "s.write 68 0", "s.newline" } } }, direct, 0.1);
	// many lines at once
	SV tall;
	for (int i = 0; i < 150; ++i) tall.push_back(S("in L%d\\r\\n", i));
	SV many = { "in \\e[140S", "in \\e[128S", "in \\e[127S", "sbup 100", "sbup 30", "sbdown 7", "pgup 1", "maxsb 100", "maxsb 200", "setflags 32", "resize 4 10", "resize 4 150", "in Z\\r\\n", "clearsb" };
	b.add("tall", S("term cols=4 rows=150 sb=200 ms=400 %s", cmp), tall, many, 1).depth = b.thorough ? 4 : 2;
	large(b, cmp, {}, in({ "\\n", "\\e[257S", "\\e[300;1HX\\r\\n", "\\e[256S" }) + SV{ "sbup 256", "sbup 257", "sbdown 256", "sbdown 3", "pgup 1", "pgdn 1", "maxsb 256", "maxsb 257", "maxsb 300", "sbreset", "resize 3 40", "resize 3 300", "setflags 32", "clearsb" },
	      in({ "\\n", "x\\r\\ny\\r\\n" }) + SV{ "sbup 1", "sbup 65535", "sbup 65536", "sbup 65537", "sbup 4294967295", "sbdown 1", "sbdown 65536", "pgup 32769", "pgdn 32768", "sbreset", "maxsb 65535", "maxsb 65536", "maxsb 65537", "maxsb 2", "setflags 32", "clearsb", "resize 3 1", "resize 3 9" });
	// whatever comes before
	frame(b, "cmp=size,cells,attr,sb,cur", { { "sbup 1", "sbup 1", "in \\n", "sbdown 1", "sbreset" },
				 { "sbup 9", "in \\e[4;1H\\n\\n", "sbdown 2" },
				 { "in \\e[r\\e[4;1H\\n", "sbup 2", "maxsb 1", "pgdn 1" },
				 { "resize 10 2", "pgup 1", "setflags 8", "in \\e[99;1H\\n\\n", "clearsb" } }, 0.08);
}

static void c16(Builder &b)
{
	const char *cmp = "cmp=size,cells,attr,sb,cur,copy";
	SV sel;
	for (int y = 0; y < 3; ++y)
		for (int x = 0; x < 3; ++x) sel.push_back(S("selstart %d %d", x, y)), sel.push_back(S("seltarget %d %d", x, y));
	SV far = { "selstart 4294967295 0", "selstart 0 4294967295", "seltarget 4294967295 4294967295", "seltarget 3 3", "selstart 5 1", "seltarget 0 7" };
	SV ops = { "selcopy", "selreset", "sbup 1", "sbup 9", "sbdown 1", "sbreset", "clearsb", "maxsb 1", "maxsb 0", "maxsb 3", "resize 3 3", "resize 2 3", "resize 3 2", "resize 5 4" };
	SV txt = in({ "\\n", "\\e[H", "\\e[3;1H\\n", "A", "\\xe4\\xbd\\xa0", "\\e[2;1Hxyz", "\\e[K", "\\e[2J", "\\e[S", "\\e[2S", "\\e[?47h", "\\e[?47l", "\\e[3;3H\\n\\n", "\\s", "\\xf0\\x9f\\x98\\x80", "\\e[3;1Hw\\n", "\\xc3\\xa9", "\\e[C", "\\e[1;3H", "\\e[X", "\\e[T", "\\e[H\\eM" });
	std::string h = S("term cols=3 rows=3 sb=3 ms=4 %s", cmp);
	SV t1 = in({ "ab\\r\\n\\e[2Cc\\r\\n\\r\\n\\xe4\\xbd\\xa0x\\r\\n\\sq\\s\\r\\nmno" });
	SV t2 = in({ "\\xf0\\x9f\\x98\\x80\\xe4\\xbd\\xa0\\r\\n\\xe4\\xbd\\xa0\\xe4\\xbd\\xa0\\r\\na\\r\\nb\\r\\n\\r\\n\\e[2CZ" });
	Starts st = { { h, {} }, { h, t1 }, { h, t1 + SV{ "sbup 2" } }, { h, t2 + SV{ "sbup 1" } } };
	SV copy = { "selcopy" };
	int i = 0;
	for (auto &s : st) {
		Config &c = b.add("wide/" + std::to_string(i++), s.first, s.second, sel + far + ops + txt, 0.05);
		c.epi = { copy };
		c.epi_every = 1;
	}
	// all pairs of cells, then text moves
	i = 0;
	for (auto &s : st) {
		SV a;
		for (int y = 0; y < 3; ++y)
			for (int x = 0; x < 3; ++x) a.push_back(S("selstart %d %d", x, y)), a.push_back(S("seltarget %d %d", x, y));
		a = a + SV{ "in \\e[3;3H\\nk", "sbup 1", "sbdown 1", "in \\e[2S", "in \\e[T" };
		Config &c = b.add("pairs/" + std::to_string(i++), s.first, s.second, a, 0.08);
		c.epi = { copy };
	}
	SV core = { "selstart 1 0", "seltarget 2 2", "selstart 0 2", "seltarget 1 1", "selstart 2 1", "in \\e[3;1H\\nA", "in \\e[2S", "sbup 1", "sbup 9", "sbdown 1", "clearsb", "maxsb 1", "maxsb 3" };
	Config &c = b.add("core", h, t1, core, 0.12);
	c.epi = { copy };
	// other shapes
	for (auto g : { std::make_pair(1, 1), std::make_pair(2, 1), std::make_pair(1, 3), std::make_pair(6, 2) }) {
		SV a = { "selcopy", "in \\n", "in A", "in \\xe4\\xbd\\xa0", "sbup 1", "sbdown 1", "in \\e[H" };
		for (int y = 0; y < g.second; ++y)
			for (int x = 0; x < g.first; ++x) a.push_back(S("selstart %d %d", x, y)), a.push_back(S("seltarget %d %d", x, y));
		Config &d = b.add(S("size%dx%d", g.first, g.second), S("term cols=%d rows=%d sb=2 %s", g.first, g.second, cmp), filled(g.first, g.second), a, 0.03);
		d.epi = { copy };
	}
	// rows full of characters of four (and three) bytes each: the copy is as long as it can be
	for (auto g : { std::make_pair(4, 2), std::make_pair(6, 3), std::make_pair(80, 25) }) {
		std::string row, row3;
		for (int x = 0; x < g.first; ++x) row += S("\\xf0\\x90\\x90\\x%02x", 0x80 + x % 0x28), row3 += S("\\xe1\\xb4\\x%02x", 0x80 + x % 0x2b);
		SV t;
		for (int y = 0; y < 2 * g.second; ++y) t.push_back("in " + (y % 4 == 2 ? row3 : row) + "\\r\\n");
		int W = g.first - 1, H = g.second - 1;
		SV a = { "selstart 0 0", S("seltarget %d %d", W, H), S("selstart %d %d", W, H), "seltarget 0 0", "selstart 1 0", S("seltarget %d %d", W - 1, H), S("seltarget %d 0", W), S("seltarget %d 1", W / 2), S("selstart %d 1", W), "sbup 1", S("sbup %d", H), S("sbup %d", 2 * H), "sbdown 1", "in " + row, "in \\e[H", "in " + row3, "in \\n", "maxsb 1" };
		Config &d = b.add(S("bytes%dx%d", g.first, g.second), S("term cols=%d rows=%d sb=%d ms=4 %s", g.first, g.second, g.second + 1, cmp), t, a, g.first > 50 ? 0.002 : 0.02);
		d.epi = { copy };
		d.epi_every = 1;
	}
	{
		// lines and columns whose product is beyond 32 bits
		Config &c = b.add("hugesel", S("term cols=3 rows=2 sb=70000 ms=70000 sw=3 %s", cmp), deep_text() + SV{ "sbup 4294967295", "selstart 0 0", "sbreset", "resize 15339 2", "seltarget 2 1" }, { "seltarget 15338 1", "selcopy", "in x", "selstart 1 0", "resize 3 2", "maxsb 60000" }, 0.1);
		c.depth = 2;
		c.finish = true;
		c.epi = { copy };
		c.epi_every = 1;
	}
	{
		// a selection that begins tens of thousands of lines up
		Config &c = b.add("deepsel", S("term cols=3 rows=2 sb=70000 ms=70000 %s", cmp), deep_text() + SV{ "sbup 65536", "selstart 1 0", "sbreset", "seltarget 1 1" }, { "sbup 3", "sbup 60000", "sbup 65535", "sbdown 7", "sbreset", "selcopy", "seltarget 2 0", "in x\\r\\n", "maxsb 65540", "draw" }, 0.1);
		c.depth = b.thorough ? 3 : 2;
		c.finish = true;
	}
	large(b, cmp, SV{ "selstart 257 0", "selstart 20 1", "selstart 299 2", "seltarget 256 0", "seltarget 270 1", "seltarget 0 2", "seltarget 299 0", "selcopy", "in \\e[3;1H\\n", "sbup 1", "resize 260 3" },
	      SV{ "selstart 1 257", "selstart 2 20", "selstart 0 299", "seltarget 1 256", "seltarget 2 270", "seltarget 0 1", "seltarget 2 299", "selcopy", "in \\e[300;1H\\n", "in \\e[256S", "sbup 256", "sbup 3", "resize 3 260" },
	      SV{ "selstart 1 0", "selstart 0 1", "seltarget 2 1", "seltarget 1 0", "sbup 3", "sbup 65536", "sbup 4294967295", "sbdown 65000", "sbreset", "selcopy", "in \\n", "maxsb 65536" });
	// whatever comes before
	frame(b, "cmp=size,cells,attr,sb,cur,copy", { { "selcopy" },
				 { "selstart 0 0", "seltarget 9 3", "selcopy" },
				 { "sbup 9", "selstart 8 2", "seltarget 1 0", "selcopy" },
				 { "seltarget 2 1", "in \\e[r\\e[4;1H\\n", "selcopy" } }, 0.2);
}

static void c17(Builder &b)
{
	const char *cmp = "cmp=all,id,draw2";
	SV a = in({ "A", "B\\xe4\\xbd\\xa0", "\\s", "\\e[4m", "\\e[7m", "\\e[1m", "\\e[3m", "\\e[5m", "\\e[m", "\\e[31m", "\\e[H", "\\e[2;2H", "\\e[3;4H", "\\e[?5h", "\\e[?5l", "\\e[?25l", "\\e[?25h", "\\n", "\\e[S", "\\e[T", "\\e[H\\eM", "\\e[K", "\\e[?47h", "\\e[?47l", "\\e[4m\\s", "\\xf0\\x9f\\x98\\x80", "\\xef\\xbf\\xbd", "\\e[2;3r", "\\ec" }) +
	       SV{ "selstart 0 0", "selstart 2 1", "selstart 3 2", "selstart 1 0", "seltarget 0 0", "seltarget 3 0", "seltarget 1 1", "seltarget 3 2", "seltarget 0 2", "selreset", "sbup 1", "sbup 2", "sbdown 1", "sbreset", "resize 4 3", "resize 3 3", "resize 5 4", "setflags 8", "clrflags 8", "setflags 16", "clrflags 16", "s.write 65 2", "s.write 66 3",
		   "palette 2", "clearsb", "maxsb 1" };
	SV txt = in({ "ab\\e[7mc\\e[m\\r\\n\\e[4mde\\e[m\\xe4\\xbd\\xa0\\r\\nf\\r\\n\\e[1mg\\r\\n\\e[m\\s\\sh" });
	std::string h = S("term cols=4 rows=3 sb=3 ms=3 %s", cmp), hf = S("term cols=4 rows=3 sb=3 ms=3 cbfail=1 %s", cmp);
	Starts st = { { h, {} }, { h, txt }, { hf, txt + SV{ "sbup 1" } }, { h, txt + SV{ "selstart 1 1", "seltarget 2 2" } }, { h, txt + SV{ "sbup 2", "selstart 1 0", "seltarget 2 2" } }, { h, txt + in({ "\\e[?5h" }) + SV{ "selstart 3 2", "seltarget 0 1" } } };
	b.each("wide", st, a, 0.4);
	SV core = in({ "\\e[?5h", "\\e[?5l", "\\e[?25l", "\\e[3;4H\\nX", "\\e[H", "\\e[2;2H", "\\e[7mY" }) + SV{ "selstart 1 0", "selstart 2 2", "seltarget 2 1", "seltarget 3 2", "seltarget 0 0", "sbup 1", "sbdown 1", "resize 4 2", "resize 4 3" };
	b.each("core", { st[1], st[2] }, core, 0.4);
	Starts sz = { { S("term cols=1 rows=1 sb=1 %s", cmp), {} }, { S("term cols=2 rows=1 sb=2 %s", cmp), {} }, { S("term cols=1 rows=3 sb=2 %s", cmp), {} }, { S("term cols=7 rows=2 sb=2 %s", cmp), txt } };
	b.each("sizes", sz, core + in({ "A", "\\xe4\\xbd\\xa0", "\\n" }), 0.15);
	// glyph ids: characters and attribute combinations next to each other
	SV gl;
	for (int i = 0; i < 32; ++i)
		gl.push_back(S("in \\e[0%s%s%s%s%smA", i & 1 ? ";1" : "", i & 2 ? ";3" : "", i & 4 ? ";4" : "", i & 8 ? ";5" : "", i & 16 ? ";7" : ""));
	gl = gl + in({ "\\e[0;1mB", "\\e[0m\\xef\\xbf\\xbd", "\\e[0;31mA", "\\e[0;4m\\s", "\\e[0m\\s", "\\e[0;1m\\xf4\\x8f\\xbf\\xbd", "\\e[0;7m\\xc3\\xa9", "\\e[?5h" });
	b.add("glyphs", S("term cols=8 rows=1 %s", cmp), {}, gl, 0.1);
	{
		Config &c = b.add("deepsel", S("term cols=3 rows=2 sb=70000 ms=70000 %s", cmp), deep_text() + SV{ "sbup 65536", "selstart 1 0", "sbreset", "seltarget 1 1" }, { "sbup 3", "sbup 60000", "sbup 65535", "sbdown 7", "sbreset", "seltarget 2 0", "in x\\r\\n", "in \\e[?5h" }, 0.1);
		c.depth = b.thorough ? 3 : 2;
		c.finish = true;
	}
	large(b, cmp, SV{ "selstart 257 0", "selstart 20 1", "selstart 299 2", "seltarget 256 0", "seltarget 270 1", "seltarget 0 2", "in \\e[2;257H", "in \\e[3;300H", "sbup 1", "resize 260 3", "in \\e[3;1H\\n" },
	      SV{ "selstart 1 257", "selstart 2 20", "selstart 0 299", "seltarget 1 256", "seltarget 2 270", "in \\e[257;2H", "in \\e[300;3H", "sbup 256", "in \\e[256S", "resize 3 260" },
	      SV{ "selstart 1 0", "selstart 0 1", "seltarget 2 1", "seltarget 1 0", "sbup 3", "sbup 65536", "sbup 4294967295", "sbdown 65000", "sbreset", "in \\n" });
	// whatever comes before
	frame(b, "cmp=all,id,draw2", { { "sbup 1" },
				 { "selstart 1 1", "seltarget 5 2" },
				 { "sbup 9", "seltarget 2 0" } }, 0.08);
}

static void c19(Builder &b)
{
	const char *cmp = "cmp=size,cur,cells,attr,sb,ret";
	SV rs = { "resize 0 3", "resize 3 0", "resize 0 0" };
	for (int w = 1; w <= 6; ++w)
		for (int h = 1; h <= 5; ++h) rs.push_back(S("resize %d %d", w, h));
	SV st = in({ "ABCDEFG", "x\\r\\n", "\\n", "\\e[H", "\\e[99;99H", "\\e[2;2H", "\\e[2;3r", "\\e[42m", "\\e[m", "\\e[?47h", "\\e[?47l", "\\e[?1049h", "\\e[?1049l", "\\e[3g", "\\t", "\\xe4\\xbd\\xa0", "\\e[?6h", "\\e[2J", "\\e7", "\\e8", "\\e[K", "\\e[L", "\\e[M", "\\e[4h", "\\e[@", "\\e[P", "\\eM", "\\e[?5h", "\\e[1;1r" }) +
		SV{ "sbup 1", "sbup 2", "sbdown 1", "maxsb 2", "clearsb", "setflags 32", "s.setdef 1", "palette 1" };
	std::string h = S("term cols=4 rows=3 sb=3 ms=4 %s", cmp);
	Starts s = { { h, {} }, { h, filled(4, 3) + in({ "\\e[2;3H" }) }, { h, filled(4, 3) + in({ "\\e[?47h", fill_text(4, 3, false), "\\e[3;4H" }) }, { h, in({ "1\\r\\n2\\r\\n3\\r\\n4\\r\\n5abc\\e[44m" }) + SV{ "sbup 1" } }, { h, filled(4, 3) + in({ "\\e[2;3r\\e[?6h\\e[3;2H" }) } };
	b.each("wide", s, rs + st, 0.4);
	b.each("sizes", { s[1], s[2], s[3] }, rs + in({ "\\e[99;99HZ\\n", "\\e[?47h", "\\e[?47l" }), 0.35);
	SV core = { "resize 4 3", "resize 3 3", "resize 5 3", "resize 4 2", "resize 4 4", "resize 2 1", "resize 6 5", "in \\e[99;99HXY\\n", "in \\e[42mQ", "in \\e[?47h", "in \\e[?47l", "in \\e[2;2r\\e[?6h", "in \\e[HA", "in \\tT" };
	b.each("core", { s[1], s[2] }, core, 0.4);
	SV big = { "resize 1 1", "resize 200 2", "resize 80 24", "resize 81 25", "resize 3 200", "resize 132 43", "resize 10 10", "resize 200 200", "in \\e[99;999HX\\tY", "in \\e[999;1HZ\\n\\n", "in \\e[?47h", "in \\e[?47l", "in \\e[200S" };
	b.add("large", S("term cols=80 rows=24 sb=50 %s", cmp), filled(80, 24), big, 1).depth = b.thorough ? 4 : 3;
	large(b, cmp, SV{ "resize 256 3", "resize 257 3", "resize 300 3", "resize 310 3", "resize 44 3", "resize 65536 1", "resize 65537 2", "in \\e[2;300HAB", "in \\e[1;257H", "in \\e[?47h" },
	      SV{ "resize 3 256", "resize 3 257", "resize 3 300", "resize 3 310", "resize 3 44", "in \\e[300;2HAB", "in \\e[257;1H", "in \\e[257;299r", "in \\e[?47h", "in \\n" },
	      SV{ "resize 3 1", "resize 3 5", "resize 9 2", "in \\n", "sbup 65536", "maxsb 65536" });
	// whatever comes before
	frame(b, "cmp=size,cells,attr,sb,cur,sflags", { { "resize 4 2", "resize 10 4" },
				 { "resize 13 6", "in \\e[?47l\\e[99;99HX", "sbup 1" },
				 { "resize 9 3", "in \\e[?47h", "in \\t\\tX\\n\\n" },
				 { "resize 1 1", "resize 3 3", "in \\e[?47lABCD" } }, 0.08);
}

static SV all_keysyms()
{
	SV k;
	return k;
}

static void c21(Builder &b)
{
	const char *cmp = "cmp=reply,ret,vflags,cells,cur";
	SV modes = in({ "\\e[?1h", "\\e[?1l", "\\e=", "\\e>", "\\e[20h", "\\e[20l", "\\e[61\"p", "\\e[62;1\"p", "\\e[62;0\"p", "\\e[2h", "\\e[2l", "\\e[12l", "\\e[12h", "\\e[!p", "\\ec", "\\e G", "\\e F", "\\e[?42h", "\\e[?8l" }) + SV{ "bs 1", "bs 0", "reset" };
	std::vector<uint32_t> syms;
	for (uint32_t k = 0xff00; k <= 0xffff; ++k) syms.push_back(k);
	for (uint32_t k = 0x20; k < 0x80; ++k) syms.push_back(k);
	for (uint32_t k : { 0u, 1u, 0x1bu, 0xa0u, 0xe9u, 0xffu, 0x100u, 0x1a1u, 0x20acu, 0xfe20u, 0xfe50u, 0xfe01u, 0x01000101u, 0x0101f600u, 0xffffffffu, 0xfdffu, 0x1ff52u }) syms.push_back(k);
	SV keys;
	for (uint32_t m : { 0, 1, 4, 8, 5, 12, 13, 2, 16, 9 })
		for (uint32_t k : syms) {
			bool chr = k >= 0x20 && k < 0x100 && k != 0x7f;
			keys.push_back(S("key 0x%x %u %u 0x%x", k, chr && k < 0x80 ? k : 0, m, chr ? k : 0xffffffffu));
		}
	for (uint32_t m : { 0, 1, 4, 8, 12 })
		for (uint32_t u : { 0u, 1u, 0x7fu, 0x80u, 0xffu, 0x100u, 0x7ffu, 0x800u, 0x20acu, 0xffffu - 2, 0x10000u, 0x1f600u, 0x10fffdu })
			for (uint32_t asc : { 0u, 97u, 50u, 32u }) keys.push_back(S("key 0x%x %u %u 0x%x", 0x1000000 + u, asc, m, u));
	// the keysym of one layout with the ASCII keysym of another
	for (uint32_t m : { 4, 0, 12, 5 })
		for (uint32_t asc = 0; asc < 0x80; ++asc)
			for (uint32_t k : { 0x3du, 0x26u, 0x41u, 0x61u, 0x7eu, 0x7fu, 0x20u, 0x32u, 0x38u, 0xe9u, 0x6c6u, 0x20acu, 0xff0du, 0xff52u, 0xffe1u, 0xfe20u })
				if (m == 4 || asc % 16 == 1) keys.push_back(S("key 0x%x %u %u 0x%x", k, asc, m, k < 0x100 ? k : k < 0xfe00 ? 0x444u : 0xffffffffu));
	for (uint32_t k = 0; k < 0x80; ++k)
		for (uint32_t asc : { 0u, 0x31u, 0x33u, 0x38u, 0x40u, 0x5fu, 0x63u, 0x7fu }) keys.push_back(S("key 0x%x %u 4 0x%x", k, asc, k));
	std::string h = S("term cols=5 rows=3 %s", cmp);
	for (size_t i = 0; i < 1; ++i) {
		Config &c = b.add("every-key", h, {}, modes, 0.0001);
		c.depth = b.thorough ? 3 : 2;
		for (auto &k : keys) c.epi.push_back({ k });
	}
	// the prefix of one key never reaches another
	SV two = { "key 0xff52 0 8 0xffffffff", "key 0xffe1 0 8 0xffffffff", "key 97 97 8 97", "key 97 97 0 97", "key 99 99 12 99", "key 99 99 4 99", "key 0xff08 8 8 8", "key 0xff08 8 0 8", "key 0xffbe 0 8 0xffffffff", "key 0xffbe 0 0 0xffffffff", "key 0xffb5 53 8 53", "key 0xff0d 13 8 13", "key 0xff0d 13 0 13", "key 0xe9 0 8 0xe9",
		   "key 0x20ac 0 8 0x20ac", "key 0xff1b 27 8 27", "key 0xffff 0 1 0xffffffff", "key 0xff50 0 8 0xffffffff", "key 0xff55 0 5 0xffffffff", "key 0xff09 9 1 9", "key 0xfe20 0 1 0xffffffff", "in \\e[6n", "in \\e[c", "in \\x05", "mouse 1 1 0 0 0 1 0", "in \\e[?9h" };
	b.add("sequences", h, {}, modes + two, 0.6);
	SV core = { "key 0xff52 0 8 0xffffffff", "key 0xffe1 0 8 0xffffffff", "key 97 97 8 97", "key 97 97 0 97", "key 99 99 12 99", "key 0xff0d 13 8 13", "in \\e[12l", "in \\e[12h", "in \\e[61\"p", "in \\e[20h", "in \\e[5n", "in \\ec", "in \\e=", "key 0xffb5 53 8 53" };
	b.add("core", h, {}, core, 0.4);
	(void)all_keysyms;
	// every key within each mode of the terminal
	for (auto &x : contexts()) {
		Config &c = b.add("contexts/" + x, h, { x }, in({ "A", "\\e[?1h", "\\e=", "\\e[20h", "\\e[62;1\"p" }) + SV{ "bs 1" }, 0.0001);
		c.depth = b.thorough ? 2 : 1;
		for (auto &k : keys) c.epi.push_back({ k });
	}
	// whatever comes before
	frame(b, "cmp=reply,ret", { { "key 0xff52 0 0 0xffffffff", "key 97 97 0 97", "key 0xff0d 13 0 13", "key 0xffb5 53 0 53", "key 0xe9 0 0 0xe9", "key 0xff08 8 0 8" },
				 { "key 97 97 8 97", "key 0xffbe 0 0 0xffffffff" },
				 { "key 99 99 12 99", "key 97 97 0 97" },
				 { "key 0xff55 0 4 0xffffffff", "key 0xff50 0 1 0xffffffff", "key 0xff08 8 8 8", "key 0x20ac 0 0 0x20ac" } }, 0.08);
}

static void c22(Builder &b)
{
	const char *cmp = "cmp=reply,ret,mmode,mcb";
	SV modes;
	for (int m : { 9, 1002, 1003, 1006, 1016 })
		for (char c : { 'h', 'l' }) modes.push_back(S("in \\e[?%d%c", m, c));
	SV combos = in({ "\\e[?1000h", "\\e[?1000l", "\\e[?1002;1006h", "\\e[?1003;1006h", "\\e[?1003;1016h", "\\e[?1006;1003l", "\\e[!p", "\\ec", "\\e[9h", "\\e[1003h", "\\e[?47h", "\\e[?1049l", "\\e7", "\\e8", "A" }) + SV{ "mousecb 0", "mousecb 1", "reset", "hardreset", "resize 6 4" };
	SV ev;
	for (int bt : { 0, 1, 2, 4, 5 })
		for (int e : { 1, 2, 4, 5, 3 }) ev.push_back(S("mouse 2 1 25 17 %d %d 0", bt, e));
	for (int m : { 4, 8, 16, 28 })
		for (int e : { 1, 2, 4 }) ev.push_back(S("mouse 2 1 25 17 0 %d %d", e, m)), ev.push_back(S("mouse 2 1 25 17 4 %d %d", e, m));
	for (const char *xy : { "0 0 0 0", "3 1 30 17", "2 2 25 30", "94 94 900 900", "95 95 1000 1000", "221 221 1 1", "222 222 2 2", "223 223 3 3", "224 300 4 5", "255 0 0 0", "1000 1000 65535 65535", "4294967295 4294967295 4294967295 4294967295", "0 4294967294 7 7" })
		for (int e : { 1, 2, 4 }) ev.push_back(S("mouse %s 0 %d 0", xy, e));
	SV odd = { "mouse 2 1 25 17 3 1 0", "mouse 2 1 25 17 6 1 0", "mouse 2 1 25 17 0 0 0", "mouse 2 1 25 17 0 6 0", "mouse 2 1 26 18 0 4 0", "mouse 2 1 26 18 1 1 0" };
	std::string h = S("term cols=5 rows=3 %s", cmp);
	b.add("wide", h, {}, modes + combos + ev + odd, 0.4);
	SV evs = { "mouse 2 1 25 17 0 1 0", "mouse 2 1 25 17 0 2 0", "mouse 2 1 25 17 0 4 0", "mouse 3 1 35 17 0 4 0", "mouse 2 1 26 18 2 4 0", "mouse 2 1 25 17 4 1 16", "mouse 300 0 9 9 0 1 0" };
	b.add("histories", h, {}, modes + evs + SV{ "reset", "in \\ec", "mousecb 0", "mousecb 1" }, 0.7);
	b.add("nocb", S("term cb=0 cols=5 rows=3 %s", cmp), {}, modes + evs + SV{ "reset" }, 0.1);
	// motion: every way over a 3x3 neighbourhood, in every mode
	SV mv;
	for (int x : { 1, 2, 3 })
		for (int y : { 0, 1, 2 })
			for (int e : { 1, 2, 4 }) mv.push_back(S("mouse %d %d %d %d 0 %d 0", x, y, x * 10 + 5, y * 16 + 3, e));
	mv = mv + SV{ "mouse 2 1 26 19 0 4 0", "mouse 2 1 25 20 0 4 0", "mouse 1 2 15 35 1 1 0", "mouse 1 2 15 35 1 2 0", "mouse 3 0 35 3 2 1 0" };
	b.add("motion", h, {}, in({ "\\e[?9h", "\\e[?1002h", "\\e[?1002;1006h", "\\e[?1002;1016h", "\\e[?1003h", "\\e[?1003;1006h", "\\e[?1003;1016h", "\\e[?1003l", "\\e[?1006l" }) + mv, 0.4);
	// all events behind every short mode history
	Config &c = b.add("events", h, {}, modes + SV{ "reset" }, 0.002);
	for (auto &e : ev + odd) c.epi.push_back({ e, "mouse 2 1 25 17 0 4 0" });
	// each mode of the mouse within each mode of the terminal
	SV mm = in({ "\\e[?9h", "\\e[?1002h", "\\e[?1003h", "\\e[?1002;1006h", "\\e[?1003;1006h", "\\e[?1002;1016h", "\\e[?1003;1016h", "A" });
	Starts cx;
	for (auto &x : contexts()) cx.push_back({ h, { x } });
	size_t n0 = b.p.configs.size();
	b.each("contexts", cx, mm, 0.1);
	for (size_t i = n0; i < b.p.configs.size(); ++i) {
		b.p.configs[i].depth = b.thorough ? 3 : 1;
		for (auto &e : ev + odd) b.p.configs[i].epi.push_back({ e, "mouse 2 1 25 17 0 4 0" });
	}
	// whatever comes before
	frame(b, "cmp=reply,ret,mmode,mcb", { { "mouse 1 1 15 20 0 1 0", "mouse 1 1 16 21 0 4 0", "mouse 2 1 25 20 0 4 0", "mouse 2 1 25 20 0 2 0" },
				 { "mouse 2 1 25 20 0 4 0", "mouse 0 0 0 0 1 4 16" },
				 { "mouse 0 0 0 0 0 4 0" },
				 { "mouse 0 2 0 40 0 4 0" },
				 { "mouse 3 0 40 0 0 4 0" },
				 { "in \\e[?1003h", "mouse 0 1 0 20 0 4 0", "in \\e[?1006h", "mouse 1 0 20 0 0 4 0" },
				 { "in \\e[?9h", "mouse 4 3 40 50 2 1 0", "mouse 4 3 40 50 2 2 0" } }, 0.08);
}

static void c23(Builder &b)
{
	const char *cmp = "cmp=reply,ret,cur,cells";
	SV req = in({ "\\e[c", "\\e[0c", "\\e[1c", "\\e[>c", "\\e[>0c", "\\e[>1c", "\\e[?c", "\\e[5n", "\\e[6n", "\\e[0n", "\\e[n", "\\e[7n", "\\e[?6n", "\\e[?5n", "\\e[>5n", "\\eZ", "\\xc2\\x9a", "\\x05", "\\e[6n\\e[5n", "\\e[5;6n", "\\e[c\\x05\\e[6n", "\\e[=c", "\\e[x", "\\e[5 n", "\\e[;6n", "\\e[0;1c", "\\eP$q\\e\\\\", "\\e[0;0c", "\\e[;c", "\\e[;;c", "\\e[>0;0c", "\\e[>;1c", "\\e[6;1n", "\\e[5;5n", "\\e[;c\\e[c" });
	SV st = in({ "\\e[2;3H", "\\e[99;99H", "\\e[3;1H", "\\e[H", "ABCDE", "X", "\\e[2;3r", "\\e[2;2r", "\\e[r", "\\e[?6h", "\\e[?6l", "\\e[20h", "\\e[20l", "\\e[12l", "\\e[12h", "\\e[?1h", "\\e[61\"p", "\\e[62;1\"p", "\\e G", "\\e[62;0\"p", "\\e[?47h", "\\e[?7l", "\\e[!p", "\\ec", "\\e[2h", "\\e[?1049h", "\\e[?1049l", "\\e7", "\\e8", "\\n", "\\e[3;" }) +
		SV{ "resize 4 3", "resize 12 11", "hardreset" };
	SV keys = { "key 97 97 0 97", "key 97 97 8 97", "key 0xff0d 13 0 13", "key 0xff52 0 0 0xffffffff", "key 0xff51 0 4 0xffffffff", "key 0xff08 8 0 8", "key 0xe9 0 0 0xe9", "key 0x20ac 0 0 0x20ac", "key 109 109 0 109", "key 0xff1b 27 0 27", "key 91 91 0 91", "key 54 54 0 54", "key 110 110 0 110", "key 101 101 4 101", "key 0xff50 0 8 0xffffffff",
		    "key 0xffe1 0 8 0xffffffff", "mouse 1 1 3 3 0 1 0", "in \\e[?9h", "key 0xffbe 0 0 0xffffffff", "key 0xff09 9 0 9" };
	std::string h = S("term cols=5 rows=4 sb=1 %s", cmp);
	Starts s = { { h, {} }, { h, in({ "\\e[12l" }) }, { h, in({ "\\e[2;3r\\e[?6h" }) }, { h, filled(5, 4) + in({ "\\e[2;3r\\e[4;5HX" }) }, { S("term cols=12 rows=11 %s", cmp), in({ "\\e[11;12HX" }) } };
	b.each("wide", s, req + st + keys, 0.5);
	SV core = in({ "\\e[6n", "\\e[5n", "\\e[c", "\\x05", "\\e[2;3H", "\\e[99;99H", "ABCDE", "\\e[2;3r", "\\e[?6h", "\\e[12l", "\\e[12h" }) + SV{ "key 97 97 8 97", "key 0xff52 0 0 0xffffffff", "key 0xff0d 13 0 13", "key 101 101 4 101", "key 0xff1b 27 0 27", "key 90 90 0 90" };
	b.each("core", { s[0], s[2] }, core, 0.3);
	b.each("echo", { { h, in({ "\\e[12l" }) } }, keys + in({ "\\e[6n", "\\x05", "\\e[20h", "\\e[61\"p" }), 0.2);
	// a reported position, addressed again, is where the cursor is (decided by the model for every reachable position)
	large(b, cmp, in({ "\\e[2;257H", "\\e[3;300H", "\\e[256G", "A", "\\e[6n" }), in({ "\\e[257;2H", "\\e[300;3H", "\\e[256d", "\\e[250;299r", "\\e[?6h", "\\e[6n", "\\n" }));
	// each question within two modes of the terminal
	for (auto &x : contexts()) {
		Config &c = b.add("contexts/" + x, h, { x }, contexts() + in({ "\\e[3;4H", "\\e[99;99HX", "\\e[2;3r\\e[?6h" }), 0.0001);
		c.depth = b.thorough ? 2 : 1;
		for (auto &q : req) c.epi.push_back({ q, "in \\x18\\e[6n" });
	}
	// whatever comes before
	frame(b, "cmp=reply,ret,cur", { { "in \\e[6n", "in \\e[5n", "in \\e[c", "in \\e[>c", "in \\x05", "in \\eZ" },
				 { "in \\e[2;3H\\e[6n" },
				 { "in \\e[99;99HX\\e[6n" } }, 0.08);
}

static void c24(Builder &b)
{
	const char *cmp = "cmp=osc,cells,cur,reply";
	SV open = in({ "\\e]", "\\xc2\\x9d", "\\e]0;", "\\xc2\\x9d52;c;" });
	SV other = in({ "\\eP", "\\eX", "\\e^", "\\e_", "\\xc2\\x90", "\\xc2\\x98", "\\xc2\\x9e", "\\xc2\\x9f", "\\eP1;2$q" });
	SV end = in({ "\\x07", "\\e\\\\", "\\xc2\\x9c", "\\x18", "\\x1a", "\\e", "\\e[", "\\eD", "\\xc2\\x84", "\\xc2\\x9b", "\\xc2\\x85", "\\\\" });
	SV data = in({ "t", "abc", "\\xc3\\xa9", "\\xe4\\xbd\\xa0", "\\xf0\\x9f\\x98\\x80", "\\n", "\\x00", "\\x08", "\\x7f", "\\xff", "\\xe4\\xbd", "\\xef\\xbf\\xbf", "\\x05", "\\x0e", "\\t", "\\s" }) + SV{ "in*120 x", "in*125 x", "in*126 x", "in*127 x", "in*128 x", "in*300 x", "in*42 \\xe4\\xbd\\xa0", "in*63 \\xc3\\xa9" };
	SV ctl = { "osccb 0", "osccb 1", "hardreset", "reset", "in \\ec", "draw" };
	std::string h = S("term cols=5 rows=3 %s", cmp);
	b.add("wide", h, {}, open + other + end + data + ctl, 0.3);
	Starts s = { { h, in({ "\\e]2;" }) }, { h, in({ "\\e]0;abcdefgh\\x07\\e]" }) }, { h, { "in \\e]", "in*126 y" } }, { h, { "in \\e]", "in*123 y" } }, { h, in({ "\\eP" }) } };
	b.each("within", s, open + end + data + ctl, 0.3);
	SV core = in({ "\\e]", "\\xc2\\x9d", "\\x07", "\\e\\\\", "\\x18", "\\e", "\\xc2\\x84", "a", "\\xe4\\xbd\\xa0", "\\xe4", "\\n", "\\eP" }) + SV{ "in*124 x", "osccb 0", "osccb 1", "hardreset" };
	b.add("core", h, {}, core, 0.4);
	b.add("nocb", S("term cb=0 cols=5 rows=3 %s", cmp), {}, core, 0.05);
	// every character as the whole payload and as the last one
	SV every;
	for (uint32_t c = 0x20; c < 0x3000; c += c < 0x800 ? 1 : 37) {
		char u[8];
		size_t n = m::utf8_encode(c, u);
		if (!n || (c >= 0x7f && c < 0xa0)) continue;
		every.push_back("in \\e]" + esc_bytes(std::string(u, n)) + "\\x07");
	}
	b.each("chars", { { h, {} } }, every, 0.0001);
	// whatever comes before
	frame(b, "cmp=osc,cur,ch", { { "in \\e]2;title\\x07" },
				 { "in \\x07A\\e]0;\\xc3\\xb1\\e\\\\B" },
				 { "in \\e\\\\A\\x1b]x\\x9cy\\x07z" },
				 { "in \\xc2\\x9d1;u\\xc2\\x9cw" } }, 0.08);
}

static void c25(Builder &b)
{
	const char *cmp = "cmp=attr,def,cells,ret,inv";
	SV a;
	for (int i = 0; i < m::n_palette_names; ++i) a.push_back(S("palette %d", i));
	a = a + SV{ "palette 255", "custompal 0", "custompal 1", "custompal 2", "custompal 255" };
	std::string cols = "in \\e[H\\e[m!";
	for (int i = 0; i < 8; ++i) cols += S("\\e[%d;%dmA\\e[%d;%dmB", 30 + i, 100 + (i + 3) % 8, 90 + i, 40 + (i + 5) % 8);
	for (int i = 0; i < 8; ++i) cols += S("\\e[0;1;%dmC\\e[0;38;5;%d;48;5;%dmD", 30 + i, i + 8, 15 - i);
	cols += "\\e[0;39;49;1mE\\e[m";
	SV use = { cols };
	SV ops = in({ "\\e[31;1mX", "\\e[97;102mY", "\\e[39mZ", "\\e[49mW", "\\e[mV", "\\e[J", "\\e[2J", "\\e[K", "\\e7", "\\e8U", "\\e[?47h", "\\e[?47l", "\\e[!p", "\\ec", "\\e[7mT", "\\e[48;5;3m\\e[2X", "\\e[38;5;99mS", "\\n", "\\e[?1049h", "\\e[?1049l", "\\t\\x1aR", "\\e[?5h" }) + SV{ "resize 7 3", "resize 5 2", "reset", "hardreset" };
	std::string h = S("term cols=6 rows=2 sb=1 %s", cmp);
	b.each("wide", { { h, {} }, { h, in({ "\\e[32;44mABCDEFG" }) }, { h, in({ "\\e[1;32;44mABCDEFG\\e[?47hQ" }) } }, a + ops, 0.5);
	b.add("colours", S("term cols=35 rows=2 %s", cmp), {}, a + use + SV{ "in \\ec", "reset", "in \\e[?47h" }, 0.05);
	SV core = { "palette 1", "palette 2", "palette 8", "palette 9", "palette 255", "custompal 0", "custompal 1", "custompal 255", "in \\e[31;1mX", "in \\e[mV", "in \\e[K", "in \\ec", "in \\e[H", "in \\e7", "in \\e8U" };
	b.add("core", h, {}, core, 0.4);
	// whatever comes before
	frame(b, "cmp=cells,attr,def", { { "in \\e[31;42mX\\e[95;106mY\\e[1;34mZ" },
				 { "in \\e[mX\\e[K\\n" },
				 { "palette 3", "in \\e[33;44mXY" },
				 { "in \\e8X\\e[?47hY\\e[?47lZ" },
				 { "custompal 2", "in A\\e[39;49mB", "palette 10", "in C" } }, 0.08);
}

static void c01(Builder &b)
{
	const char *cmp = "cmp=bounds";
	SV bytes = in({ "\\x00", "\\x05", "\\x07", "\\x08", "\\t", "\\n", "\\r", "\\x0e", "\\x0f", "\\x18", "\\x1a", "\\e", "\\s", "0", "1", "9", ";", ":", "?", "!", "\"", "(", "#", "$", "@", "A", "B", "H", "J", "K", "L", "M", "P", "S", "T", "X", "Z", "[", "\\\\", "]", "^", "_", "c", "d", "e", "f", "g", "h", "l", "m", "n", "p", "r", "s", "u", "\\x7f", "\\x80", "\\x9b", "\\x9c",
			"\\xa0", "\\xc0", "\\xc2", "\\xe4", "\\xbd", "\\xed", "\\xef", "\\xf0", "\\xf4", "\\xf8", "\\xff" });
	SV seqs = in({ "ABCDEFG", "\\xe4\\xbd\\xa0\\xe5\\xa5\\xbd", "\\xcc\\x81", "\\e[65535A", "\\e[65535B", "\\e[65535C", "\\e[65535D", "\\e[65535E", "\\e[65535F", "\\e[65535G", "\\e[65535;65535H", "\\e[65535I", "\\e[65535J", "\\e[65535L", "\\e[65535M", "\\e[65535P", "\\e[65535S", "\\e[65535T", "\\e[65535X", "\\e[65535Z", "\\e[65535@", "\\e[65535d", "\\e[65535e",
		       "\\e[1;65535r", "\\e[65535;65535r", "\\e[2;3r", "\\e[1;1r", "\\e[r", "\\e[?6h", "\\e[?6l", "\\e[?7l", "\\e[?7h", "\\e[4h", "\\e[4l", "\\e[?47h", "\\e[?47l", "\\e[?1047h", "\\e[?1047l", "\\e[?1048h", "\\e[?1048l", "\\e[?1049h", "\\e[?1049l", "\\eM", "\\eD", "\\eE", "\\e7", "\\e8", "\\ec", "\\e[!p", "\\eH", "\\e[3g", "\\e[L", "\\e[M", "\\e[@", "\\e[P", "\\e[J", "\\e[1J",
		       "\\e[1;2;3;4;5;6;7;8;9;10;11;12;13;14;15;16;17;18m", "\\e[;;;;;;;;;;;;;;;;;;;;;;;;m", "\\e[99999999999999999999m", "\\e[38;5;255;48;5;256m", "\\e[38;2;1;2", "\\e[38;5m", "\\e[12l", "\\e[61\"p", "\\e[62\"p", "\\e[?5h", "\\e[2;2H", "\\e[99;99H", "\\e[?1003;1006h", "\\e[?9h", "\\e]0;x", "\\x07", "\\eP", "\\e\\\\", "\\e[2h", "\\e[20h", "\\eN", "\\e(0" }) +
		  SV{ "in*200 A", "in*400 x", "in*300 ;" };
	SV api = { "resize 1 1", "resize 5 3", "resize 2 7", "resize 9 1", "resize 0 0", "resize 3 2", "resize 1 4", "maxsb 0", "maxsb 1", "maxsb 4294967295", "clearsb", "sbup 1", "sbup 4294967295", "sbdown 1", "sbdown 4294967295", "pgup 4294967295", "pgdn 4294967295", "pgup 1", "sbreset", "setflags 4294967295", "clrflags 4294967295", "setflags 32", "selstart 0 0", "selstart 4294967295 4294967295",
		   "seltarget 4294967295 4294967295", "seltarget 0 0", "seltarget 2 1", "selstart 3 2", "selreset", "selcopy", "key 0xff52 0 0 0xffffffff", "key 97 97 8 97", "key 4294967295 4294967295 4294967295 4294967294", "key 0x20ac 0 0 0x20ac", "mouse 4294967295 4294967295 4294967295 4294967295 255 255 255", "mouse 1 1 1 1 0 1 0", "mouse 300 300 300 300 0 4 28", "reset", "hardreset", "palette 1", "palette 10", "palette 255", "custompal 1",
		   "custompal 255", "bs 1", "draw", "age 0", "age 2", "mousecb 0", "osccb 0" };
	SV dir = { "s.write 65 0", "s.write 20320 0", "s.write 4294967295 0", "s.write 1114112 0", "s.write 2147483648 0", "s.setdef 1", "s.margins 0 0", "s.margins 4294967295 4294967295", "s.margins 1 4294967295", "s.margins 2 3", "s.reset", "s.newline", "s.scrollup 4294967295", "s.scrolldown 4294967295", "s.scrollup 1", "s.moveto 4294967295 4294967295", "s.moveto 4 2", "s.up 4294967295 1", "s.down 4294967295 1", "s.up 1 1", "s.down 1 1",
		   "s.left 4294967295", "s.right 4294967295", "s.lineend", "s.linehome", "s.tabr 4294967295", "s.tabl 4294967295", "s.insl 4294967295", "s.dell 4294967295", "s.insc 4294967295", "s.delc 4294967295", "s.insc 1", "s.delc 1", "s.insl 1", "s.dell 1", "s.ercur", "s.erchars 4294967295", "s.erl0 0", "s.erl1 1", "s.erl2 0", "s.erd0 1", "s.erd1 0", "s.erd2 1", "s.settab", "s.clrtab", "s.clrtabs" };
	Starts st;
	for (auto g : { std::make_pair(5, 3), std::make_pair(1, 1), std::make_pair(2, 1), std::make_pair(1, 2), std::make_pair(3, 2) })
		st.push_back({ S("term model=0 cols=%d rows=%d sb=2 %s", g.first, g.second, cmp), {} });
	st.push_back({ st[0].first, filled(5, 3) + in({ "\\n\\n\\n\\n\\e[2;3r\\e[?6h\\e[2;5HX" }) + SV{ "sbup 1", "selstart 0 0", "seltarget 3 2" } });
	int i = 0;
	for (auto &s : st) {
		Config &c = b.add("everything/" + std::to_string(i++), s.first, s.second, bytes + seqs + api + dir, 0.02);
		c.finish = true;
		c.epi = { { "draw", "selcopy", "in ABCDEFGH\\n\\n", "resize 4 2", "in \\e[99;99HXYZ", "draw" } };
		c.depth = b.thorough ? 3 : 2;
	}
	i = 0;
	for (auto &s : st) {
		std::string hd = s.first;
		hd.replace(hd.find("model=0 "), 8, "");
		Config &c = b.add("core/" + std::to_string(i++), hd, s.second,
				  in({ "ABC", "\\xe4\\xbd\\xa0", "\\n", "\\eM", "\\e[99;99H", "\\e[2;3r", "\\e[?47h", "\\e[?47l", "\\e[2L", "\\e[2P", "\\e[4h", "\\e[?7l", "\\e[S" }) +
					  SV{ "resize 1 1", "resize 4 2", "resize 6 4", "maxsb 1", "maxsb 3", "sbup 1", "selstart 2 0", "seltarget 0 1", "selcopy", "clearsb", "hardreset" }, 0.1);
		c.finish = true;
	}
	b.each("direct", { { S("term model=0 vte=0 cols=5 rows=3 sb=2 %s", cmp), {} }, { S("term model=0 vte=0 cols=1 rows=1 sb=2 %s", cmp), {} } },
	       dir + SV{ "resize 1 1", "resize 6 2", "resize 2 5", "setflags 7", "clrflags 7", "setflags 64", "clrflags 64", "selstart 1 1", "seltarget 3 0", "selcopy", "sbup 1", "maxsb 1", "clearsb", "draw" }, 0.2);
	SV par;
	for (int f = 0x40; f < 0x7f; ++f)
		for (const char *a : { "", "0", "1", "2", "3", "65535", "2147483647", "4294967296", "99;99", "3;1", ";;;" })
			for (const char *q : { "", "?", ">", "!" }) par.push_back(S("in \\e[%s%s%s", q, a, f == '\\' ? "\\\\" : std::string(1, (char)f).c_str()));
	for (int f = 0x30; f < 0x7f; ++f)
		for (const char *q : { "", " ", "(", "#" }) par.push_back(S("in \\e%s%s", q, f == '\\' ? "\\\\" : std::string(1, (char)f).c_str()));
	b.each("controls", { st[0], st[1], st[5] }, par, 0.0001);
	if (b.thorough) b.each("controls2", { st[0] }, par, 0.05);
	Config &tall = b.add("tall", S("term cols=3 rows=300 sb=20 ms=400 %s", cmp), filled(3, 300), in({ "\\e[200S", "\\e[200T", "\\e[140L", "\\e[140M", "\\e[9;250r", "\\e[100;1H" }) + SV{ "resize 3 5", "resize 3 300", "resize 1 140", "sbup 200", "maxsb 400", "in*300 X\\r\\n" }, 1);
	tall.depth = b.thorough ? 4 : 3;
	tall.finish = true;
}

static void c03(Builder &b)
{
	const char *cmp = "cmp=cur,cells,vflags,sflags,reply,mmode,attr,osc";
	SV all;
	for (int i = 0; i < 256; ++i) all.push_back(S("in \\x%02x", i));
	SV c1 = all;
	for (int i = 0x80; i < 0xa0; ++i) c1.push_back(S("in \\xc2\\x%02x", i));
	std::string h = S("term cols=6 rows=3 sb=1 %s", cmp);
	SV base = in({ "abcdef\\r\\nghi\\e[2;3H" });
	Starts st;
	for (const char *p : { "", "\\e", "\\e(", "\\e[", "\\e[2", "\\e[2;", "\\e[?", "\\e[2!", "\\e[ ", "\\e[2;3", "\\e[3?", "\\e]", "\\e]a", "\\eP", "\\eP1", "\\eP1$", "\\eP1q", "\\ePqx", "\\eX", "\\e^", "\\e_", "\\eP:", "\\e[:", "\\e #" })
		st.push_back({ h, base + in({ std::string(p).empty() ? "z" : std::string(p).replace(0, 0, "") }) });
	// spaces inside words are written as \s
	for (auto &s : st)
		for (auto &w : s.second) {
			size_t k = w.find(' ');
			while ((k = w.find(' ', k + 1)) != std::string::npos) w.replace(k, 1, "\\s");
		}
	SV tail = { "in m1;4Hx" };
	int i = 0;
	for (auto &s : st) {
		Config &c = b.add("bytes/" + std::to_string(i++), s.first, s.second, c1, 0.005);
		c.depth = 2;
		c.epi = { tail };
		c.epi_every = 1;
	}
	if (b.thorough) b.add("triples", h, base, all, 0.1);
	SV cls = in({ "\\e", "[", "?", "!", "\\s", "(", "0", "2", ";", ":", "\\x18", "\\x1a", "\\n", "\\x05", "]", "P", "X", "\\\\", "\\x07", "\\x7f", "a", "H", "m", "c", "\\xc2\\x9b", "\\xc2\\x9c", "\\xc2\\x90", "\\xff" });
	b.add("classes", h, base, cls, 0.5);
	SV par = in({ "\\e[", "0", "1", "9", "5", "99999999999", "65535", "65536", "4294967297", ";", ";;;;;;;;;;;;;;", ";1;1;1;1;1;1;1;1;1;1;1;1;1;1", "?", "\\s", "m", "H", "J", "r", "@", "n", "\\x18", "\\e", "\\n", "X", ":" });
	b.each("params", { { h, base }, { h, base + in({ "\\e[" }) } }, par, 0.5);
	// all final bytes with all single and double intermediates
	SV fin;
	const char *pre[] = { "", "?", ">", "<", "=", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "\\s", "?!", "?$", ">\"", "!!", "?\\s", "((", "()", "?>", "\\s\\s" };
	for (const char *q : pre)
		for (int f = 0x40; f < 0x7f; ++f) {
			std::string fs = f == '\\' ? "\\\\" : std::string(1, (char)f);
			for (const char *n : { "", "2", "2;3", "1;", "4;4;4", "6", "20", "25" }) {
				bool priv = *q == '?' || *q == '>' || *q == '<' || *q == '=';
				if (priv) fin.push_back(S("in \\e[%c%s%s%s", *q, n, q + 1, fs.c_str()));
				fin.push_back(S("in \\e[%s%s%s", n, q, fs.c_str()));
				if (!*n) fin.push_back(S("in \\xc2\\x9b%s%s", q, fs.c_str()));
			}
		}
	for (const char *q : pre)
		for (int f = 0x30; f < 0x7f; ++f) fin.push_back(S("in \\e%s%s", q, f == '\\' ? "\\\\" : std::string(1, (char)f).c_str()));
	Config &c = b.add("finals", h, base, fin, 0.0001);
	c.depth = 1;
	c.epi = { in({ "x" }), in({ "\\x0eq" }), in({ "\\e[2;3HQ" }) };
	// several hundred thousand pairs of control functions do not interfere
	Config &d = b.add("strings", h, base, in({ "\\eP1;2|abc\\n\\r", "\\eX\\t\\x05x", "\\e^\\xc3\\xa9", "\\e_\\xff", "\\e]0;t", "\\e\\\\", "\\x07", "\\x18", "\\x1a", "\\xc2\\x9c", "\\xc2\\x84", "\\e[2J", "\\e[H", "Z", "\\x9c", "\\\\", "\\ec", "\\x7f", "\\x00", "\\xc2\\x9d", "\\xc2\\x98", "\\xc2\\x9e", "\\xc2\\x9f", "\\eP\\e[31m", "\\ePq$", "\\eP?" }), 0.2);
	(void)d;
	// whatever comes before
	frame(b, "cmp=cur,cells,vflags,sflags,reply,mmode,attr,osc", { { "in m1;4Hx" },
				 { "in 3;5Hx" },
				 { "in \\x9bm\\e[2;2HQ" },
				 { "in \\x07z\\e\\\\y" } }, 0.08);
}

static void c04(Builder &b)
{
	const char *cmp = "cmp=ch,cur";
	SV cls = in({ "A", "\\e", "\\n", "\\x7f", "\\x80", "\\x8f", "\\x90", "\\x9b", "\\x9f", "\\xa0", "\\xbf", "\\xc0", "\\xc1", "\\xc2", "\\xc3", "\\xdf", "\\xe0", "\\xe1", "\\xec", "\\xed", "\\xee", "\\xef", "\\xf0", "\\xf1", "\\xf3", "\\xf4", "\\xf5", "\\xf8", "\\xfc", "\\xfe", "\\xff", "\\x00" });
	std::string h = S("term cols=9 rows=1 %s", cmp);
	b.add("screen", h, {}, cls, 0.7);
	SV core = in({ "A", "\\x80", "\\x9b", "\\xbf", "\\xc2", "\\xc3", "\\xe0", "\\xe4", "\\xed", "\\xa0", "\\xf0", "\\x90", "\\xf4", "\\xff" });
	b.add("deep", h, {}, core, 0.5);
	add_utf8_enums(b.p, b.thorough);
}

static void c26(Builder &b)
{
	SV ops;
	for (int i = 0; i < 6; ++i) ops.push_back(S("ins %d", i)), ops.push_back(S("rem %d", i));
	ops = ops + SV{ "insfail 0", "insfail 4", "insmany 0 5", "insmany 6 11", "insmany 16 40", "remmany 16 40", "remmany 0 5", "clear 1", "clear 0", "remq 1", "insmany 16 47", "remmany 6 30" };
	SV core = { "ins 0", "ins 1", "ins 2", "ins 3", "rem 0", "rem 1", "rem 2", "insfail 3", "insmany 4 8", "clear 1" };
	int n = 0;
	for (int kind = 0; kind < 3; ++kind)
		for (int addr = 0; addr < (kind ? 1 : 4); ++addr)
			for (int hash = 0; hash < (kind ? 1 : 8); ++hash) ++n;
	for (int kind = 0; kind < 3; ++kind)
		for (int addr = 0; addr < (kind ? 1 : 4); ++addr)
			for (int hash = 0; hash < (kind ? 1 : 8); ++hash)
				for (int keys : { 96, 3 }) {
					std::string h = S("htable kind=%d addr=%d hash=%d keys=%d", kind, addr, hash, keys);
					Config &c = b.add(S("wide k%d a%d h%d n%d", kind, addr, hash, keys), h, {}, ops, 0.006);
					c.finish = true;
					if (keys == 96) {
						b.add(S("core a%d h%d", addr, hash), h, addr == 1 ? SV{ "insmany 0 7", "remmany 2 6" } : SV{}, core, 0.03);
					}
				}
	SV fill = { "ins 0", "insmany 1 3", "insmany 4 7", "insmany 8 15", "insmany 16 31", "insmany 32 63", "insmany 64 95", "rem 0", "remmany 1 3", "remmany 4 7", "remmany 8 15", "remmany 16 31", "remmany 32 63", "remmany 64 95", "clear 1", "insfail 5" };
	for (int addr = 0; addr < 4; ++addr)
		for (int hash : { 1, 4, 6 }) b.add(S("large a%d h%d", addr, hash), S("htable kind=0 addr=%d hash=%d keys=96", addr, hash), {}, fill, 0.002);
	(void)n;
}

static void c27(Builder &b)
{
	SV ops = { "push 0", "push 1", "push 2", "push 1000", "push 2047", "push 2048", "push 4095", "push 4096", "push 4097", "push 8191", "push 9000", "pull 0", "pull 1", "pull 1000", "pull 2048", "pull 4095", "pull 4096", "pull 5000", "pull 18446744073709551615", "copy 0", "copy 1", "copy 3000", "copy 100000", "clear", "flush",
		   "pushfail 1", "pushfail 4096", "pushfail 5000", "pushhuge 18446744073709551615", "pushhuge 9223372036854775808", "pushhuge 18446744073709550000" };
	Config &c = b.add("wide", "ring", {}, ops, 0.05);
	c.finish = true;
	b.add("wide-wrapped", "ring", { "push 4000", "pull 3000", "push 2000" }, ops, 0.05);
	SV core = { "push 1", "push 1500", "push 2596", "push 4096", "pull 1", "pull 1500", "pull 4096", "pushfail 3000", "flush" };
	b.add("core", "ring", {}, core, 0.06);
	SV small = { "push 1", "push 1365", "pull 1", "pull 1365", "push 2731" };
	b.add("deep", "ring", {}, small, 0.06);
}

static void c28(Builder &b)
{
	SV ops = { "push", "pop", "pushfail", "zresize 0", "zresize 1", "zresize 2", "zresize 3", "zresize 4", "zresize 5", "zresize 8", "zresize 9", "zresize 16", "zresize 17", "zresize 33", "zresize 65", "zresize 129", "zresizefail 3", "zresizefail 9", "zresizefail 33", "huge 9223372036854775809", "huge 18446744073709551615", "huge 4611686018427387904", "huge 2305843009213693953", "newhuge 0", "newhuge 1", "newhuge 2", "newhuge 9", "null" };
	SV core = { "push", "pop", "pushfail", "zresize 2", "zresize 5", "zresizefail 9" };
	for (int es : { 1, 3, 4, 8, 24 })
		for (int in : { 0, 1, 2, 3, 5 }) {
			std::string h = S("array es=%d init=%d", es, in);
			Config &c = b.add(S("wide es%d init%d", es, in), h, {}, ops, 0.006);
			c.finish = true;
			b.add(S("core es%d init%d", es, in), h, {}, core, 0.03);
		}
	// around every power of two
	SV big = { "push", "pop", "pushfail" };
	for (int k : { 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 1500 })
		for (int d : { 0, 1 }) big.push_back(S("zresize %d", k + d));
	for (int es : { 1, 3 }) b.add(S("sizes es%d", es), S("array es=%d init=0", es), {}, big, 0.02).finish = true;
}

static void c05(Builder &b)
{
	add_unicode_enums(b.p, b.thorough);
}

static void c06(Builder &b)
{
	SV ops;
	for (int i : { 0, 1, 2, 3, 4, 5, 6, 7, 8, -1, -2 })
		for (uint32_t c : { 0x301u, 0x302u, 0u, 0x10ffffu }) ops.push_back(S("app %d %u", i, c));
	ops = ops + SV{ "app 0 2147483647", "app 0 2147483648", "app 6 4294967295", "app 6 97", "app 3 769", "appfail 0 769 1", "appfail 0 769 1 1", "appfail -1 770 1", "appfail -1 770 2", "appfail -1 770 3", "appfail -1 771 1 1", "appfail 0 772 2 1", "ref", "unref", "null" };
	Config &c = b.add("wide", "sym", {}, ops, 0.03);
	c.finish = true;
	SV core = { "app 0 769", "app 0 770", "app -1 769", "app -1 770", "app 6 770", "appfail -1 771 1", "appfail 0 770 2", "appfail -1 769 3" };
	Config &d = b.add("core", "sym", {}, core, 0.12);
	d.finish = true;
	SV two = { "app -1 769", "app -1 0", "app 0 769" };
	Config &e = b.add("long", "sym", {}, two, 0.2);
	e.depth = b.thorough ? 14 : 11;
	// two tables: nothing may be shared between them
	SV both;
	for (const char *w : { "", "b" })
		for (const char *o : { "app 0 769", "app 0 770", "app 1 769", "app -1 769", "app -1 770", "appfail 0 770 2" }) both.push_back(S("%s%s", w, o));
	for (const char *w : { "", "b" }) both.push_back(S("%s%s", w, "null")), both.push_back(S("%s%s", w, "ref"));
	Config &f = b.add("two tables", "sym tables=2", {}, both, 0.15);
	f.finish = true;
	add_symbol_enums(b.p, b.thorough);
}

static void c02(Builder &b)
{
	// a node runs its history some twenty to a hundred times
	double base = b.budget;
	b.budget *= b.thorough ? 1 / 100. : 1.2 / 100;
	std::string h = "split cols=5 rows=3 sb=2";
	SV bytes = in({ "A", "\\e", "[", "?", "1", ";", "2", "H", "m", "h", "\\n", "\\xe4", "\\xbd", "\\xa0", "\\xc2", "\\x9b", "]", "0", "\\x07", "\\\\", "P", "\\x18", "(", "c", "\\xff", "6", "n", "\\x1a", "\\xcc", "\\x81" });
	b.add("bytes", h, {}, bytes, 0.7);
	// every sequence by itself
	SV seqs = in({ "A\\xe4\\xbd\\xa0B", "\\e[2;3H", "\\e[31;1m", "\\e[?25l", "\\e[?1049h", "\\e]0;abc\\x07", "\\e]2;x\\xc3\\xa9\\e\\\\", "\\eP1$qm\\e\\\\", "\\xc2\\x9b6n", "\\e[6n", "\\e[>c", "\\e(0q", "\\e[38;5;99mx", "\\e[38;2;1;2;3mx", "\\xf0\\x9f\\x98\\x80", "\\xf0\\x9fA", "\\xe4\\xe4\\xbd\\xa0", "\\xc2\\xc2\\x9b", "\\e\\e[c", "\\e[\\n2C", "\\e[2\\x18A", "\\e^pm\\e\\\\", "\\e_apc\\xc2\\x9c", "\\eXsos\\x1b\\\\", "\\xff\\xfeA", "\\xe2\\x80\\x8bq", "a\\xcc\\x81", "\\e[!p",
			"\\ec", "\\e[61\"p", "\\e#8", "\\e G", "\\x9bm", "\\e[?1003;1006h", "\\e7\\e8", "\\e*0\\en", "\\eN!", "\\eO\\xe9", "\\xed\\xa0\\x80", "\\xf4\\x90\\x80\\x80", "\\xc0\\x80", "\\x00\\e\\x00[\\x00c", "\\e]0;\\xe4\\xbd\\x07", "\\e]\\x18A", "\\e]1", "\\e[1;;;;2H", "\\e[99999999999;1H", "\\e[?5h", "\\eE\\eM", "\\t\\eH\\t", "\\e[2;3r", "\\e[3g", "\\x05", "\\e[4h", "\\e[?7l", "ABCDEFG", "\\r\\n\\r\\n\\n\\n", "\\e[12l", "\\e[2;65535", "\\e]4;1;rgb:00/00/00\\x1b", "\\xf8\\x88A" });
	b.add("sequences", h, in({ "ab\\e[7mc" }), seqs, 0.2).depth = b.thorough ? 3 : 2;
	SV long1;
	for (auto &q : seqs) long1.push_back("in x" + q.substr(3) + "\\e[" + q.substr(3) + "\\xe4");
	b.add("long", h, {}, long1, 1).depth = 1;
	// one call with thousands of bytes
	{
		SV fill, end;
		for (int n : { 1, 2, 3, 4, 5, 250, 252, 253, 254, 255, 256, 1020, 4088, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 32766 }) fill.push_back(S("in*%d x", n));
		end = in({ "\\eOa", "\\xc3\\xa9\\xc2\\x8fz", "\\e[31mX", "\\xe4\\xbd\\xa0", "\\e]0;title\\x07", "\\eP1\\e\\\\", "\\r\\n", "yyyy", "\\e(0qqq" });
		SV all;
		for (auto &e : end) all.push_back("in*1100 " + e.substr(3)), all.push_back(e);
		Config &c = b.add("chunks", "split cols=5 rows=3 sb=2 edges=1", {}, fill + all, 1);
		c.depth = b.thorough ? 3 : 2;
	}
	// other operations between the pieces
	SV mix = in({ "\\e", "[", "2", "J", "\\xe4\\xbd", "\\xa0", "AB", "\\r\\n", "\\e]0;t", "\\x07", "\\e[?1049h", "\\e[6n", "\\e[31" }) + SV{ "resize 3 2", "resize 5 3", "sbup 1", "key 0xff52 0 0 0xffffffff", "mouse 1 1 1 1 0 1 0", "selstart 1 1", "seltarget 3 2", "selcopy", "draw", "reset", "hardreset", "maxsb 1" };
	b.add("mixed", h, in({ "\\e[?1003;1006h" }), mix, 0.5);
	// strings up to and beyond the limits of the parser
	SV lim;
	for (const char *q : { "in \\e]0;%s\\x07", "in \\e[%sm", "in \\eP%s\\e\\\\" })
		for (int n : { 30, 126, 127, 128, 129 }) {
			std::string x;
			for (int i = 0; i < n; ++i) x += q[6] == 'm' || q[8] == 'm' ? (i % 2 ? ";" : "1") : std::string(1, (char)('a' + i % 26));
			lim.push_back(S(q, x.c_str()));
		}
	b.add("limits", h, {}, lim + in({ "Q\\e[6n", "\\e", "\\xe4\\xbd" }), 1).depth = b.thorough ? 2 : 1;
	b.budget = base;
	b.p.assumptions.push_back("pieces: every subset of the cuts for inputs of up to 7 bytes; beyond that single bytes, every single cut, and every pair of cuts up to 15 bytes");
	SV un;
	for (auto &o : universal())
		if (o.compare(0, 3, "in ") == 0) un.push_back(o + "z");
	b.add("pairs", h, in({ "ab\\e[7mc" }), un, 0.2).depth = 2;
}

static void c18(Builder &b)
{
	SV txt = in({ "A", "\\xe4\\xbd\\xa0", "\\s", "XYZWV", "\\n", "\\r", "\\eM", "\\eE", "\\x08", "\\t", "\\e[H", "\\e[2;3H", "\\e[3;5H", "\\e[1;4H", "\\e[A", "\\e[C", "\\e[31m", "\\e[7;42m", "\\e[m", "\\e[J", "\\e[1J", "\\e[2J", "\\e[K", "\\e[1K", "\\e[2K", "\\e[2X", "\\e[@", "\\e[2@", "\\e[P", "\\e[2P", "\\e[L", "\\e[M", "\\e[2M", "\\e[S", "\\e[T", "\\e[2T", "\\e[2;3r", "\\e[r", "\\e[?6h", "\\e[?5h", "\\e[?5l", "\\e[?25l", "\\e[?25h",
		       "\\e[?47h", "\\e[?47l", "\\e[?1049h", "\\e[?1049l", "\\e[4h", "\\e7", "\\e8", "\\ec", "\\e[!p", "\\e[?7l", "\\xcc\\x81", "\\x1a" });
	SV api = { "draw", "resize 4 3", "resize 5 3", "resize 6 4", "resize 5 2", "resize 3 1", "sbup 1", "sbup 2", "sbdown 1", "sbreset", "pgup 1", "pgdn 1", "clearsb", "maxsb 0", "maxsb 1", "maxsb 4", "selstart 1 0", "selstart 3 2", "seltarget 0 1", "seltarget 4 2", "seltarget 2 1", "selreset", "setflags 8", "clrflags 8", "setflags 16", "clrflags 16", "setflags 32", "setflags 64", "clrflags 64", "palette 1", "palette 2", "custompal 1",
		   "hardreset", "reset", "s.reset", "s.erd2 1", "s.ercur", "s.write 66 2", "age 0", "age 1", "age 3", "selcopy", "s.setdef 1", "s.setdef 2" };
	std::string h = "age cols=5 rows=3 sb=3";
	SV base = filled(5, 3) + in({ "\\e[3;1H1\\r\\n2\\r\\n3\\e[2;2H" });
	Starts st = { { h, { "draw" } }, { h, base + SV{ "draw" } }, { h, base + SV{ "sbup 2", "draw" } }, { h, base + SV{ "selstart 1 0", "seltarget 3 2", "draw" } }, { h, base + in({ "\\e[?47hQRSTUVW\\e[2;3r" }) + SV{ "draw" } },
		      { h, base + SV{ "age 4", "draw" } }, { h, base + SV{ "age 1", "draw" } } };
	for (size_t i = 0; i < st.size(); ++i) {
		Config &c = b.add("wide/" + std::to_string(i), st[i].first, st[i].second, txt + api, 0.15);
		c.epi = { { "draw" }, { "in \\e[1;1Hq", "draw" } };
		c.epi_every = 1;
	}
	SV core = in({ "A", "\\n", "\\e[2;3HB", "\\e[3;5H\\n", "\\e[K", "\\e[L", "\\eM", "\\e[?47h", "\\e[?47l", "\\e[?5h", "\\e[?25l" }) + SV{ "draw", "sbup 1", "sbdown 1", "selstart 1 0", "seltarget 3 2", "resize 4 2", "resize 5 3" };
	for (size_t i : { 1, 2, 5 }) {
		Config &c = b.add("core/" + std::to_string(i), st[i].first, st[i].second, core, 0.12);
		c.epi = { { "draw" } };
		c.epi_every = 1;
	}
	SV direct = { "draw", "s.write 65 0", "s.write 20320 1", "s.write 66 2", "s.moveto 0 0", "s.moveto 4 2", "s.moveto 2 1", "s.newline", "s.scrollup 1", "s.scrolldown 1", "s.insl 1", "s.dell 1", "s.insc 1", "s.delc 1", "s.ercur", "s.erchars 2", "s.erl0 0", "s.erl1 1", "s.erl2 0", "s.erd0 0", "s.erd1 0", "s.erd2 1", "s.margins 2 3", "s.margins 1 2", "s.up 1 1", "s.down 1 1", "s.setdef 1", "s.reset", "setflags 64", "clrflags 64", "setflags 1", "setflags 4", "resize 4 3", "sbup 1", "sbreset",
		      "selstart 0 0", "seltarget 2 1", "setflags 8", "setflags 16", "age 0", "age 1", "age 2" };
	Config &c = b.add("direct", "age vte=0 cols=5 rows=3 sb=2", { "s.write 97 0", "s.write 98 1", "s.newline", "s.write 99 0", "draw" }, direct, 0.12);
	c.epi = { { "draw" } };
	c.epi_every = 1;
	// the counter wraps around at every point of a history
	SV wrap = in({ "A", "\\n", "\\e[2;3HB\\e[K", "\\e[?47h", "\\e[?47l", "\\e[?25l", "\\eM" }) + SV{ "draw", "age 0", "age 1", "age 2", "age 5", "sbup 1", "selstart 1 0", "seltarget 3 2", "resize 4 2", "resize 5 3" };
	Config &d = b.add("overflow", h, base + SV{ "draw" }, wrap, 0.15);
	d.epi = { { "draw" } };
	d.epi_every = 1;
	for (auto g : { std::make_pair(1, 1), std::make_pair(1, 3), std::make_pair(3, 1) }) {
		Config &e = b.add(S("size%dx%d", g.first, g.second), S("age cols=%d rows=%d sb=2", g.first, g.second), filled(g.first, g.second) + SV{ "draw" }, core + in({ "\\xe4\\xbd\\xa0", "\\e[P" }), 0.04);
		e.epi = { { "draw" } };
		e.epi_every = 1;
	}
	b.p.assumptions.push_back("a renderer keeps cells at their position when the screen size changes and redraws what it has never shown");
	for (auto &s : rich("")) {
		Config &f = b.add("frame", "age cols=10 rows=4 sb=3", s.second + SV{ "draw" }, universal(), 0.06);
		f.epi = { { "draw" }, { "in \\e[?25h\\e[2;2HQ", "draw", "sbup 1", "draw" } };
	}
}

static void c20(Builder &b)
{
	b.p.level = "fault_enumeration";
	b.p.rule = "every history of the alphabets up to the given depth in which operations run with the k-th allocation failing once or with all allocations from the k-th on failing, for every k up to the number of allocations the operation makes; non-trivial: the fault hit an allocation";
	// operations that allocate, the largest number of allocations looked at
	std::vector<std::pair<std::string, int>> f = { { "new", 48 }, { "in \\r\\n\\n\\nA", 6 }, { "in \\e[3S", 3 }, { "in A\\xcc\\x81\\xcc\\x82", 4 }, { "in \\e[?1049hXY", 2 }, { "in \\e]0;title text\\x07", 3 }, { "in \\e[6n\\e[c", 2 }, { "in \\e[2M\\e[2T", 2 }, { "in \\ecA", 2 }, { "resize 7 5", 40 }, { "resize 9 2", 30 }, { "resize 2 6", 40 }, { "resize 5 3", 40 }, { "resize 4 2", 20 },
							{ "resize 6 3", 40 }, { "selcopy", 2 }, { "palette 1", 2 }, { "palette 9", 2 }, { "palette 3", 2 }, { "custompal 1", 2 }, { "key 0x20ac 0 8 0x20ac", 2 }, { "mouse 1 1 1 1 0 1 0", 2 }, { "maxsb 1", 2 }, { "maxsb 9", 2 }, { "sbup 1", 1 }, { "draw", 1 }, { "s.write 20320 1", 1 }, { "s.margins 1 2", 1 }, { "s.scrollup 2", 2 }, { "s.scrolldown 2", 1 }, { "s.reset", 1 }, { "hardreset", 2 } };
	SV plain = in({ "AB\\r\\nC", "\\e[2;2r", "\\e[?47h", "\\e[?47l", "\\e[99;99H\\n", "\\xe4\\xbd\\xa0\\xcc\\x81", "\\e]0;unfinished", "\\eHx\\t" }) + SV{ "resize 7 5", "resize 3 2", "resize 5 3", "sbup 2", "selstart 0 0", "seltarget 3 2", "selstart 2 2", "seltarget 1 0", "palette 1", "custompal 1", "maxsb 4", "maxsb 0", "clearsb", "new", "selcopy" };
	SV fault;
	for (auto &x : f)
		for (int k = 1; k <= x.second; ++k) {
			fault.push_back(S("!%d:", k) + x.first);
			fault.push_back(S("!!%d:", k) + x.first);
		}
	std::string h = "oom cols=5 rows=3 sb=3 cmp=bounds";
	SV txt = in({ "1\\r\\n2\\r\\n3\\r\\n4\\e[31m\\r\\n5\\e[2;3Hab\\xcc\\x81" });
	Starts st = { { h, {} }, { h, txt }, { h, txt + SV{ "sbup 2", "selstart 0 0", "seltarget 3 2" } }, { h, txt + in({ "\\e[?1049hQQ\\e[2;2r" }) + SV{ "resize 6 4" } }, { "oom cols=1 rows=1 sb=0 cmp=bounds", {} } };
	SV recover = { "recover" };
	// one operation with a fault behind up to two without
	for (size_t i = 0; i < st.size(); ++i) {
		Config &c = b.add("faults/" + std::to_string(i), st[i].first, st[i].second, fault + plain, 1);
		c.depth = b.thorough ? 3 : 2;
		c.epi = { recover };
		c.finish_every = true;
		c.epi_every = 1;
	}
	SV small;
	for (auto &x : std::vector<std::pair<std::string, int>>{ { "resize 7 4", 30 }, { "in A\\r\\n\\n\\n", 3 }, { "resize 5 3", 24 }, { "in e\\xcc\\x81", 2 }, { "palette 9", 1 }, { "selcopy", 1 } })
		for (int k = 1; k <= x.second; ++k) small.push_back(S("!%d:", k) + x.first);
	// any operation with a fault behind any other
	SV any = in({ "AB\\r\\nC", "\\e[?1049h", "\\e[99;99H\\n", "\\e[2;2r\\e[?6h" }) + SV{ "resize 7 5", "sbup 2", "palette 1" };
	for (auto &o : universal())
		for (const char *k : { "!1:", "!2:", "!3:", "!!1:" }) any.push_back(k + o);
	for (size_t i : { size_t(2), size_t(3) }) {
		Config &c = b.add("frame/" + std::to_string(i), st[i].first, st[i].second, any, 0.3);
		c.depth = 2;
		c.epi = { recover };
		c.finish_every = true;
		c.epi_every = 1;
	}
	Config &c = b.add("sequences", h, txt, small + SV{ "in \\e[?47h", "in \\e[99;99H\\nX", "sbup 1", "selstart 0 0", "seltarget 3 2", "resize 3 2", "resize 5 3", "!!1:in A\\r\\n\\n\\n" }, 0.05);
	c.epi = { recover };
	c.finish = true;
	b.p.assumptions.push_back("allocation failures are injected into malloc, calloc, realloc, strdup, strndup and reallocarray of the library");
}

static void c29(Builder &b)
{
	b.p.level = "fault_enumeration";
	b.p.rule = "scripted kernel: every history of writes and dispatches up to the given depth with every combination of up to three results per read and per write (short counts, EAGAIN, EINTR, EIO, end of file); readiness kernel: every history of arrivals, space, EINTR, hang-ups, bridge operations up to the given depth; opening: every system call failing with every error on both sides of the fork, every set-up message; non-trivial: the kernel gave at least one answer other than complete success";
	SV scripts;
	SV rd = { "-", "5,again", "again", "5,3,again", "8192,8191,7", "7,eio", "eio", "5,eof", "eof", "intr,5,again", "intr,again", "5,intr,3,again", "intr,intr,9,again", "8192,again" };
	SV wr = { "-", "5,again", "again", "100000", "3,4,again", "4096,again", "4097,100000", "eio", "5,eio", "intr,100000", "intr,again", "5,intr,100000", "1,1,1,again", "intr,intr,6,again" };
	for (auto &r : rd)
		for (auto &w : wr) scripts.push_back("dispatch 0 " + r + " " + w);
	SV ops = { "write 0 0", "write 0 1", "write 0 10", "write 0 4096", "write 0 5000", "write 0 9000", "close 0", "resize 0", "signal 0", "ref 0", "unref 0" };
	b.add("scripted", "pty ctl=0", {}, scripts + ops, 0.35).finish = true;
	b.add("scripted-queued", "pty ctl=0", { "write 0 3000", "dispatch 0 again 2500,again", "write 0 3000" }, scripts + ops, 0.35).finish = true;
	SV some = { "dispatch 0 again 5,again", "dispatch 0 again 100000", "dispatch 0 5,again again", "dispatch 0 again intr,3,again", "dispatch 0 again eio", "dispatch 0 intr,5,again 1000,1000,again", "dispatch 0 8192,8192,8192 4096,again", "dispatch 0 eof 10,again", "dispatch 0 - -", "write 0 1", "write 0 4096", "write 0 2000", "close 0" };
	b.add("scripted-deep", "pty ctl=0", {}, some, 0.5).finish = true;
	// every result sequence of one dispatch
	SV all;
	SV r1 = { "3", "8192", "again", "intr", "eio", "eof" }, w1 = { "1", "2047", "100000", "again", "intr", "eio" };
	std::vector<SV> seq(2);
	for (int s = 0; s < 2; ++s) {
		SV &one = s ? w1 : r1;
		seq[s] = { "-" };
		for (auto &x : one) {
			seq[s].push_back(x);
			for (auto &y : one) {
				seq[s].push_back(x + "," + y);
				for (auto &z : one) seq[s].push_back(x + "," + y + "," + z);
			}
		}
	}
	for (auto &r : seq[0])
		for (auto &w : seq[1]) all.push_back("dispatch 0 " + r + " " + w);
	for (SV pre : { SV{}, SV{ "write 0 10" }, SV{ "write 0 4000", "dispatch 0 again 3500,again", "write 0 1500" } }) {
		Config &c = b.add(S("one-dispatch/%zu", pre.size()), "pty ctl=0", pre, all, 1);
		c.depth = 1;
		c.epi = { { "write 0 5", "dispatch 0 again 100000", "dispatch 0 9,again again" } };
		c.finish_every = true;
	}
	// the event loop
	SV ev = { "arrive 0 1", "arrive 0 100", "arrive 0 8192", "arrive 0 20000", "arrive 0 500000", "space 0 1", "space 0 100", "space 0 5000", "write 0 1", "write 0 50", "write 0 6000", "eintr 0 0", "eintr 0 1", "hup 0", "unhup 0", "wait", "wait 4", "wait 9", "settle", "remove 0", "add 0", "close 0", "ref 0", "unref 0", "resize 0" };
	SV settle = { "settle" };
	for (long seg : { 1l << 20, 10l, 4096l }) {
		SV e = ev;
		for (auto &o : e) if (seg < 100 && o == "arrive 0 500000") o = "arrive 0 9000";
		Config &c = b.add(S("loop/%ld", seg), S("pty ctl=1 ptys=1 seg=%ld", seg), {}, e, 0.2);
		c.epi = { settle };
		c.finish = true;
	}
	SV ev2;
	for (int i = 0; i < 2; ++i)
		for (const char *o : { "arrive %d 100", "arrive %d 9000", "space %d 100", "write %d 150", "eintr %d 0", "eintr %d 1", "hup %d", "remove %d", "add %d", "close %d", "unref %d" }) ev2.push_back(S(o, i));
	Config &c = b.add("loop-two", "pty ctl=1 ptys=2 seg=4096", {}, ev2 + SV{ "wait", "settle" }, 0.3);
	c.epi = { settle };
	c.finish = true;
	// opening
	SV op;
	for (const char *side : { "parent", "child" })
		for (int k = 0; k <= 30; ++k)
			for (int e : { 5, 4, 11, 12, 24 }) {
				if (!k && e != 5) continue;
				for (const char *m : { "1", "-4 1", "-11 1", "-4 -4 1", "0", "2", "-5", "-4 0" })
					if (!k || !strcmp(m, "1") || !strcmp(m, "0")) op.push_back(S("open %s %d %d %s", side, k, e, m));
			}
	for (int slave : { 60, 0, 1, 2, 3 }) {
		Config &d = b.add(S("open/%d", slave), S("pty ctl=0 auto=0 slave=%d", slave), {}, op, 0.02);
		d.depth = b.thorough ? 3 : 2;
		d.epi = { { "write 0 5", "dispatch 0 4,again 100000", "close 0", "close 0", "write 0 1", "dispatch 0 - -" } };
		d.finish_every = true;
	}
	b.p.assumptions.push_back("the kernel is a stand-in: pty master and slave, pipe, epoll (edge-triggered) and fork behave as described in DESIGN.md; nothing reaches the real kernel");
}

static void c30(Builder &b)
{
	SV refs;
	for (int i = 0; i < 2; ++i) {
		refs = refs + SV{ S("snew %d", i), S("sref %d", i), S("sunref %d", i), S("vref %d", i), S("vunref %d", i) };
		for (int j = 0; j < 2; ++j) refs.push_back(S("vnew %d %d", i, j));
	}
	refs = refs + SV{ "tnew", "tref", "tunref" };
	b.add("lifetimes", "life", {}, refs, 0.5);
	{
		SV many;
		for (const char *n : { "255", "256", "65535", "65536" }) many = many + SV{ S("sref 0 %s", n), S("sunref 0 %s", n), S("vref 0 %s", n), S("vunref 0 %s", n), S("tref %s", n), S("tunref %s", n) };
		many = many + SV{ "sunref 0", "vunref 0", "tunref", "snew 0", "vnew 0 0", "tnew" };
		b.add("lifetimes-many", "life", { "snew 0", "vnew 0 0", "tnew" }, many, 1).depth = b.thorough ? 5 : 4;
	}
	b.add("lifetimes-started", "life", { "snew 0", "vnew 0 0", "vnew 1 0", "sunref 0" }, refs, 0.3);
	SV nulls;
	for (const char *n : { "screen_ref", "screen_unref", "screen_new", "get_width", "get_height", "resize", "set_margins", "set_max_sb", "clear_sb", "sb_up", "sb_down", "sb_page_up", "sb_page_down", "sb_reset", "sb_get_line_count", "sb_get_line_pos", "set_def_attr", "screen_reset", "set_flags", "reset_flags", "screen_get_flags", "get_cursor_x", "get_cursor_y", "set_tabstop", "reset_tabstop",
			       "reset_all_tabstops", "write", "newline", "scroll_up", "scroll_down", "move_to", "move_up", "move_down", "move_left", "move_right", "move_line_end", "move_line_home", "tab_right", "tab_left", "insert_lines", "delete_lines", "insert_chars", "delete_chars", "erase_cursor", "erase_chars", "erase_cursor_to_end", "erase_home_to_cursor", "erase_current_line", "erase_screen_to_cursor",
			       "erase_cursor_to_screen", "erase_screen", "selection_reset", "selection_start", "selection_target", "selection_copy", "draw", "vte_ref", "vte_unref", "set_osc_cb", "set_mouse_cb", "set_palette", "set_custom_palette", "get_def_attr", "vte_get_flags", "get_mouse_mode", "get_mouse_event", "vte_reset", "hard_reset", "input", "set_backspace", "keyboard", "mouse", "partial" })
		nulls.push_back(S("null %s", n));
	b.add("null", "life", {}, nulls, 1).depth = 1;
	SV exp;
	if (const char *hdr = getenv("VF_HEADER")) {
		std::string text;
		char buf[4096];
		size_t n;
		if (FILE *fp = fopen(hdr, "r")) {
			while ((n = fread(buf, 1, sizeof(buf), fp))) text.append(buf, n);
			fclose(fp);
		}
		// comments out; every "name(" that starts with tsm_ and is not a type
		std::string t;
		for (size_t i = 0; i < text.size(); ++i) {
			if (!text.compare(i, 2, "/*")) {
				i = text.find("*/", i);
				if (i == std::string::npos) break;
				++i;
			} else if (!text.compare(i, 2, "//")) {
				while (i < text.size() && text[i] != '\n') ++i;
			} else {
				t += text[i];
			}
		}
		int depth = 0;
		for (size_t i = 0; i < t.size(); ++i) {
			if (t[i] == '(') {
				size_t e = i;
				while (e && isspace((unsigned char)t[e - 1])) --e;
				size_t s = e;
				while (s && (isalnum((unsigned char)t[s - 1]) || t[s - 1] == '_')) --s;
				std::string w = t.substr(s, e - s);
				if (!depth && w.compare(0, 4, "tsm_") == 0) exp.push_back("export " + w);
				++depth;
			} else if (t[i] == ')') {
				--depth;
			}
		}
	}
	if (!exp.empty()) b.add("exports", "life", {}, exp, 1).depth = 1;
	// the pty
	SV pt = { "ref 0", "unref 0", "close 0", "write 0 10", "dispatch 0 3,again 5,again", "resize 0", "signal 0", "open parent 0 5 1", "ref 1", "unref 1", "close 1", "open parent 3 5 1" };
	b.add("pty", "pty ctl=0", {}, pt, 0.2).finish = true;
	b.add("pty-many", "pty ctl=0", {}, { "ref 0", "unref 0", "ref 0 255", "ref 0 65535", "unref 0 256", "unref 0 65536", "close 0", "write 0 10", "dispatch 0 3,again 5,again", "open parent 0 5 1" }, 0.02).finish = true;
	b.add("bridge", "pty ctl=1 ptys=2", {}, { "ref 0", "unref 0", "close 0", "add 0", "remove 0", "ref 1", "unref 1", "close 1", "add 1", "remove 1", "write 0 10", "arrive 0 10", "space 0 5", "wait", "settle" }, 0.1).finish = true;
	// two terminals next to each other
	SV t0 = in({ "AB", "\\xe4\\xbd", "\\xe4\\xbd\\xa0", "\\e[31m", "\\e[6n", "\\e]0;t", "\\x07", "\\n\\n\\n", "\\e[?1049h", "\\e(0", "\\e[?1003;1006h", "\\e[2;2r", "\\e[", "\\e[12l", "\\e[?1h", "a\\xcc\\x81" }) + SV{ "resize 4 2", "key 97 97 8 97", "mouse 1 1 1 1 0 1 0", "palette 1", "custompal 1", "selstart 0 0", "seltarget 1 1", "selcopy", "sbup 1", "hardreset", "age 1", "bs 1" };
	SV duo;
	for (auto &o : t0)
		for (int k = 0; k < 2; ++k) duo.push_back(S("%d:", k) + o);
	Config &c = b.add("two", "duo cols0=5 rows0=3 cols1=3 rows1=2 sb=2 cmp=all", {}, duo, 0.25);
	c.finish = true;
	Config &d = b.add("two-started", "duo cols=4 rows=2 sb=2 cmp=all", { "0:in ab\\e[31m\\r\\n\\e[?1049hx", "1:in \\e[2;2r\\e[7mq\\n\\n\\n", "0:selstart 0 0", "1:in \\e[3" }, duo, 0.25);
	d.finish = true;
}

Plan make_plan(const std::string &id, bool thorough)
{
	Plan p;
	Builder b{ p, thorough, 0 };
	bool asan = id == "C01" || id == "C20" || id == "C16" || id == "C06" || id == "C26" || id == "C27" || id == "C28" || id == "C29" || id == "C30";
	b.budget = (asan ? 40e6 : 100e6) * (thorough ? 60 : 1);
	// (tools/mutate.py looks at many changes with small budgets)
	if (const char *s = getenv("VF_SCALE")) b.budget *= atof(s);
	static const std::map<std::string, void (*)(Builder &)> t = {
		{ "C01", c01 }, { "C02", c02 }, { "C18", c18 }, { "C20", c20 }, { "C29", c29 }, { "C30", c30 }, { "C03", c03 }, { "C04", c04 }, { "C05", c05 }, { "C07", c07 }, { "C08", c08 }, { "C09", c09 }, { "C10", c10 }, { "C11", c11 }, { "C12", c12 }, { "C13", c13 }, { "C14", c14 }, { "C15", c15 }, { "C16", c16 },
		{ "C17", c17 }, { "C19", c19 }, { "C21", c21 }, { "C22", c22 }, { "C23", c23 }, { "C24", c24 }, { "C25", c25 }, { "C26", c26 }, { "C27", c27 }, { "C28", c28 }, { "C06", c06 },
	};
	auto i = t.find(id);
	if (i == t.end()) { fprintf(stderr, "no plan for %s\n", id.c_str()); exit(3); }
	i->second(b);
	return p;
}
