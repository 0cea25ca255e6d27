// The containers: hash table, ring buffer, dynamic array, symbol table.
#include "sys.hpp"
#include "lib.h"
#include "model.hpp"
#include <algorithm>
#include <set>

namespace {

uint64_t mixh(uint64_t h, uint64_t v)
{
	h = (h ^ v) * 0xff51afd7ed558ccdull;
	return h ^ (h >> 31);
}
std::string fmt(const char *f, ...)
{
	char b[400];
	va_list a;
	va_start(a, f);
	vsnprintf(b, sizeof(b), f, a);
	va_end(a);
	return b;
}

// a system whose model is plain data
template<class T> class PlainSys : public System {
protected:
	T m;
	size_t extra_size() override { return sizeof(T); }
	void save_extra(char *p) override { memcpy(p, &m, sizeof(T)); }
	void restore_extra(const char *p) override { memcpy(&m, p, sizeof(T)); }
	bool leak(std::string &err)
	{
		if (!arena::hdr()->live) return true;
		err = fmt("%lu blocks are leaked", arena::hdr()->live);
		return false;
	}
};

// ------------------------------------------------------------- hash table

const int NE = 96;
int addr_mode, hash_mode, kind, nkeys;
// elements with real memory
unsigned long ulv[NE];
char strbuf[NE][8];
char *strv[NE];

uintptr_t addr_of(int i)
{
	if (kind == 1) return (uintptr_t)&ulv[i];
	if (kind == 2) return (uintptr_t)&strv[i];
	static const uintptr_t odd[] = { 0x60000010, 0x20000010, 0x40000010, 0x10, 0x7f0060000010, 0x7f0020000010, 0x8000000000000010, 0x8000000060000010, 0x3, 0x2, 0xfffffffffffffff0, 0x7fffffffffffffff, 0x1000, 0x1001, 0x555500001000, 0x2aaa00001000 };
	switch (addr_mode) {
	case 0: return 0x200000001000ull + 32 * (uintptr_t)i;
	case 1: return i < 16 ? odd[i] : 0x555555550000ull + 16 * (uintptr_t)i;
	case 2: return ((uintptr_t)2 << (i % 60)) | (i < 60 ? 0 : (uintptr_t)1 << 63); // one bit each, then two
	default: return ~(((uintptr_t)2 << (i % 60)) | (i < 60 ? 0 : (uintptr_t)1 << 63)); // all but one or two
	}
}
uintptr_t addrs[NE];
struct { uintptr_t a; int i; } addr_idx[512];
unsigned addr_slot(uintptr_t a) { return (unsigned)((a * 0x9e3779b97f4a7c15ull) >> 55); }
void index_addresses()
{
	for (auto &x : addr_idx) x.i = -1;
	for (int i = 0; i < NE; ++i) {
		addrs[i] = addr_of(i);
		unsigned k = addr_slot(addrs[i]);
		while (addr_idx[k].i >= 0) k = (k + 1) & 511;
		addr_idx[k] = { addrs[i], i };
	}
}
unsigned long keys_ul[] = { 0, 1, ~0ul, 1ul << 63, 255, 256, 0x100000000ul, 7 };
int key_of(int i) { return i % nkeys; }
size_t hash_of(int i)
{
	uint64_t k = (uint64_t)key_of(i);
	switch (hash_mode) {
	case 0: return 0;
	case 1: return k;
	case 2: return k << 60 | k;
	case 3: return ~k;
	case 4: return k * 0x9e3779b97f4a7c15ull;
	case 5: return k & 1;
	case 6: return 7;                                          // the last bucket of a small table: wraps
	default: return (k << 32) | 3;
	}
}
int index_of(const void *p)
{
	for (unsigned k = addr_slot((uintptr_t)p); addr_idx[k].i >= 0; k = (k + 1) & 511)
		if (addr_idx[k].a == (uintptr_t)p) return addr_idx[k].i;
	return -1;
}
int probe_key = -1;
char probe_mark;
bool ht_cmp(const void *a, const void *b)
{
	int x = a == &probe_mark ? probe_key : index_of(a), y = b == &probe_mark ? probe_key : index_of(b);
	if (x < 0 || y < 0) return false;
	return key_of(x) == key_of(y);
}
int rehash_bad;
size_t ht_rehash(const void *e, void *priv)
{
	int i = index_of(e);
	if (i < 0 || priv != &probe_mark) { rehash_bad = 1; return 0; }
	return hash_of(i);
}
struct HtModel { uint8_t n[NE]; void *ht; };
std::vector<int> seen;
int seen_bad;
void ht_visit(void *e, void *ctx)
{
	int i = index_of(e);
	if (i < 0 || ctx != &seen) seen_bad = 1;
	else seen.push_back(i);
}

class HtableSys : public PlainSys<HtModel> {
public:
	int total = 0;
	void init(const Header &h) override
	{
		addr_mode = (int)h.num("addr", 0);
		hash_mode = (int)h.num("hash", 0);
		kind = (int)h.num("kind", 0);
		nkeys = (int)h.num("keys", 3);
		if (nkeys > NE) nkeys = NE;
		for (int i = 0; i < NE; ++i) {
			ulv[i] = key_of(i) < 8 ? keys_ul[key_of(i)] : (unsigned long)key_of(i) * 1000003ul;
			snprintf(strbuf[i], sizeof(strbuf[i]), "%.*s", key_of(i) % 7, "aaabbbb");
			if (key_of(i) >= 7) snprintf(strbuf[i], sizeof(strbuf[i]), "k%d", key_of(i));
			strv[i] = strbuf[i];
		}
		index_addresses();
		memset(&m, 0, sizeof(m));
		m.ht = vf_malloc(sh_htable_sizeof());
		if (kind == 0) sh_htable_init(m.ht, ht_cmp, ht_rehash, &probe_mark);
		else if (kind == 1) sh_hul_init(m.ht);
		else sh_hstr_init(m.ht);
		rehash_bad = 0;
	}
	bool lookup(int i, void **out, bool rem)
	{
		probe_key = i;
		bool r;
		if (kind == 0) return rem ? sh_htable_remove(m.ht, &probe_mark, hash_of(i), out) : sh_htable_lookup(m.ht, &probe_mark, hash_of(i), out);
		if (kind == 1) {
			unsigned long *o = nullptr;
			r = rem ? sh_hul_remove(m.ht, ulv[i], out ? &o : nullptr) : sh_hul_lookup(m.ht, ulv[i], out ? &o : nullptr);
			if (out && r) *out = o;
			return r;
		}
		char **o = nullptr;
		// the caller may pass a precomputed hash
		size_t hs = 5381;
		for (const char *p = strv[i]; *p; ++p) hs = (hs << 5) + hs + (unsigned char)*p;
		(void)hs;
		r = rem ? sh_hstr_remove(m.ht, strv[i], nullptr, out ? &o : nullptr) : sh_hstr_lookup(m.ht, strv[i], nullptr, out ? &o : nullptr);
		if (out && r) *out = o;
		return r;
	}
	int insert(int i)
	{
		if (kind == 0) return sh_htable_insert(m.ht, (void *)addrs[i], hash_of(i));
		if (kind == 1) return sh_hul_insert(m.ht, &ulv[i]);
		return sh_hstr_insert(m.ht, &strv[i], nullptr);
	}
	int count(int key)
	{
		int c = 0;
		for (int i = key; i < NE; i += nkeys) c += m.n[i];
		return c;
	}
	void visit(bool clear)
	{
		seen.clear();
		seen_bad = 0;
		auto *f = kind == 0 ? (clear ? sh_htable_clear : sh_htable_visit) : kind == 1 ? (clear ? sh_hul_clear : sh_hul_visit) : (clear ? sh_hstr_clear : sh_hstr_visit);
		f(m.ht, ht_visit, &seen);
	}
	bool same(const char *what, std::string &err)
	{
		uint8_t c[NE] = {};
		for (int i : seen) ++c[i];
		if (seen_bad) { err = fmt("%s calls back with something that is no element", what); return false; }
		for (int i = 0; i < NE; ++i)
			if (c[i] != m.n[i]) {
				err = fmt("%s calls back %d times with element %d, which is present %d times", what, c[i], i, m.n[i]);
				return false;
			}
		return true;
	}
	bool apply(const Op &op, std::string &err) override
	{
		int a = (int)op.a[0], b = op.a.size() > 1 ? (int)op.a[1] : a;
		if (op.name == "ins" || op.name == "insmany") {
			for (int i = a; i <= b; ++i) {
				int r = insert(i);
				if (r) { err = fmt("inserting element %d fails with %d", i, r); return false; }
				++m.n[i];
			}
		} else if (op.name == "insfail") {
			arena::fail_set(1, true);
			int r = insert(a);
			uint64_t failed = arena::hdr()->failed;
			arena::fail_off();
			if (!r) {
				++m.n[a];
				if (failed) { err = "insertion succeeds although its allocation failed"; return false; }
			} else if (!failed || r != -12) {
				err = fmt("insertion returns %d without a failed allocation", r);
				return false;
			}
		} else if (op.name == "rem" || op.name == "remmany" || op.name == "remq") {
			for (int i = a; i <= b; ++i) {
				void *o = (void *)0x77;
				bool quiet = op.name == "remq";
				int have = count(key_of(i));
				bool r = lookup(i, quiet ? nullptr : &o, true);
				if (r != (have > 0)) { err = fmt("removing key %d %s although it is present %d times", key_of(i), r ? "succeeds" : "fails", have); return false; }
				if (!r) continue;
				int x;
				if (quiet) {
					// find out which one went
					visit(false);
					uint8_t c[NE] = {};
					for (int s : seen) ++c[s];
					x = -1;
					for (int k = 0; k < NE; ++k)
						if (c[k] + 1 == m.n[k]) x = k;
				} else {
					x = index_of(o);
				}
				if (x < 0 || !m.n[x] || key_of(x) != key_of(i)) { err = fmt("removing key %d returns element %d, which is not present or not equal", key_of(i), x); return false; }
				--m.n[x];
			}
		} else if (op.name == "clear") {
			if (a) {
				visit(true);
				if (!same("clearing", err)) return false;
			} else {
				auto *f = kind == 0 ? sh_htable_clear : kind == 1 ? sh_hul_clear : sh_hstr_clear;
				f(m.ht, nullptr, nullptr);
			}
			memset(m.n, 0, sizeof(m.n));
			if (arena::hdr()->live != 1) { err = "clearing does not release the table"; return false; }
		} else {
			err = "unknown operation";
			return false;
		}
		return check(err);
	}
	bool check(std::string &err)
	{
		for (int k = 0; k < nkeys; ++k) {
			void *o = (void *)0x77;
			int have = count(k);
			bool r = lookup(k, &o, false);
			if (r != (have > 0)) { err = fmt("looking up key %d %s although it is present %d times", k, r ? "succeeds" : "fails", have); return false; }
			if (r) {
				int x = index_of(o);
				if (x < 0 || !m.n[x] || key_of(x) != k) { err = fmt("looking up key %d returns element %d, which is not present or not equal", k, x); return false; }
				if (!lookup(k, nullptr, false)) { err = fmt("looking up key %d without a result pointer fails", k); return false; }
			}
		}
		visit(false);
		if (!same("visiting", err)) return false;
		if (rehash_bad) { err = "the rehash callback got something that is no element"; return false; }
		return true;
	}
	bool finish(std::string &err) override
	{
		visit(true);
		if (!same("clearing", err)) return false;
		vf_free(m.ht);
		return leak(err);
	}
	uint64_t hash() override
	{
		uint64_t h = 1;
		for (int i = 0; i < NE; ++i) h = mixh(h, m.n[i]);
		return h;
	}
};

// -------------------------------------------------------------- ring buffer

// the period is prime: no shift by a power of two or a multiple of one goes unnoticed
uint8_t pat(uint64_t i) { return (uint8_t)(i % 251 * 131 + 3); }
struct RingModel { uint64_t in, out; void *r; };

class RingSys : public PlainSys<RingModel> {
public:
	std::vector<uint8_t> tmp;
	void init(const Header &) override
	{
		memset(&m, 0, sizeof(m));
		m.r = vf_malloc(sh_ring_sizeof());
		memset(m.r, 0, sh_ring_sizeof());
		tmp.resize(1 << 17);
	}
	bool apply(const Op &op, std::string &err) override
	{
		size_t n = op.a.empty() ? 0 : (size_t)strtoull(op.w[0].c_str(), nullptr, 0);
		if (op.name == "push" || op.name == "pushfail") {
			// the source is exactly as long as promised
			uint8_t *src = (uint8_t *)vf_malloc(n);
			for (size_t i = 0; i < n; ++i) src[i] = pat(m.in + i);
			bool f = op.name == "pushfail";
			if (f) arena::fail_set(1, true);
			int r = sh_ring_push(m.r, src, n);
			uint64_t failed = f ? arena::hdr()->failed : 0;
			arena::fail_off();
			vf_free(src);
			if (r != (failed ? -12 : 0)) { err = fmt("push returns %d with %lu failed allocations", r, failed); return false; }
			if (!r) m.in += n;
		} else if (op.name == "pushhuge") {
			// cannot succeed, whatever the buffer holds
			int r = sh_ring_push(m.r, &m, n);
			if (r != -12) { err = fmt("push of %zu bytes returns %d", n, r); return false; }
		} else if (op.name == "pull") {
			sh_ring_pull(m.r, n);
			m.out += std::min<uint64_t>(n, m.in - m.out);
		} else if (op.name == "copy") {
			size_t want = std::min<uint64_t>(n, m.in - m.out);
			uint8_t *dst = (uint8_t *)vf_malloc(want);
			size_t r = sh_ring_copy(m.r, dst, n);
			bool ok = r == want;
			for (size_t i = 0; ok && i < r; ++i) ok = dst[i] == pat(m.out + i);
			vf_free(dst);
			if (!ok) { err = fmt("copy of %zu bytes gives %zu bytes or wrong ones, expected %zu", n, r, want); return false; }
		} else if (op.name == "clear") {
			sh_ring_clear(m.r);
			m.out = m.in;
			if (arena::hdr()->live != 1) { err = "clearing does not release the buffer"; return false; }
		} else if (op.name == "flush") {
			sh_ring_flush(m.r);
			m.out = m.in;
		} else {
			err = "unknown operation";
			return false;
		}
		return check(err);
	}
	bool check(std::string &err)
	{
		// positions only matter modulo the period of the pattern
		m.in -= m.out / 251 * 251;
		m.out %= 251;
		uint64_t have = m.in - m.out;
		if (sh_ring_size(m.r) != have) { err = fmt("size is %zu, expected %lu", sh_ring_size(m.r), have); return false; }
		sh_iov v[3];
		memset(v, 0x5a, sizeof(v));
		size_t n = sh_ring_peek(m.r, v);
		if (n > 2 || (n == 0) != (have == 0)) { err = fmt("peek gives %zu segments for %lu bytes", n, have); return false; }
		if (sh_ring_peek(m.r, nullptr) != n) { err = "peek without a vector gives another number of segments"; return false; }
		uint64_t at = m.out;
		for (size_t i = 0; i < n; ++i) {
			if (!v[i].len || v[i].len > m.in - at) { err = fmt("peek segment %zu has %zu bytes of %lu", i, v[i].len, m.in - at); return false; }
			const uint8_t *p = (const uint8_t *)v[i].base;
			if (!arena::inside(p) || !arena::inside(p + v[i].len - 1)) { err = "peek points outside the buffer"; return false; }
			arena::copy(tmp.data(), p, v[i].len);
			for (size_t k = 0; k < v[i].len; ++k, ++at)
				if (tmp[k] != pat(at)) { err = fmt("byte %lu of the queue is wrong", at - m.out); return false; }
		}
		if (at != m.in) { err = fmt("peek describes %lu of %lu bytes", at - m.out, have); return false; }
		return true;
	}
	bool finish(std::string &err) override
	{
		sh_ring_clear(m.r);
		vf_free(m.r);
		return leak(err);
	}
	uint64_t hash() override { return mixh(mixh(1, m.in), m.out); }
};

// ------------------------------------------------------------ dynamic array

struct ArrModel { void *a; uint32_t len, next, es; uint8_t d[4800]; };

class ArraySys : public PlainSys<ArrModel> {
public:
	void init(const Header &h) override
	{
		memset(&m, 0, sizeof(m));
		m.es = (uint32_t)h.num("es", 4);
		size_t n = (size_t)h.num("init", 0);
		int r = sh_array_new(&m.a, m.es, n);
		if (r) abort();
	}
	bool apply(const Op &op, std::string &err) override
	{
		size_t n = op.a.empty() ? 0 : (size_t)strtoull(op.w[0].c_str(), nullptr, 0);
		bool f = op.name.size() > 4 && op.name.substr(op.name.size() - 4) == "fail";
		std::string name = f ? op.name.substr(0, op.name.size() - 4) : op.name;
		if (f) arena::fail_set(1, true);
		int r = 0, want = 0;
		if (name == "push") {
			uint8_t *e = (uint8_t *)malloc(m.es);
			for (uint32_t i = 0; i < m.es; ++i) e[i] = (uint8_t)(m.next * 37 + i * 11 + 1);
			r = sh_array_push(m.a, e);
			uint64_t failed = f ? arena::hdr()->failed : 0;
			want = failed ? -12 : 0;
			if (!r && !failed) {
				memcpy(m.d + (size_t)m.len * m.es, e, m.es);
				++m.len;
			}
			++m.next;
			free(e);
		} else if (name == "pop") {
			sh_array_pop(m.a);
			if (m.len) --m.len;
		} else if (name == "zresize") {
			r = sh_array_zresize(m.a, n);
			uint64_t failed = f ? arena::hdr()->failed : 0;
			want = failed ? -12 : 0;
			if (!r && !failed) {
				for (size_t i = m.len; i < n; ++i) memset(m.d + i * m.es, 0, m.es);
				m.len = (uint32_t)n;
			}
		} else if (name == "huge") {
			r = sh_array_zresize(m.a, n);
			want = -12;
		} else if (name == "newhuge") {
			// more than the address space holds: SIZE_MAX / element size + n elements
			void *o = nullptr;
			r = sh_array_new(&o, m.es, ~(size_t)0 / m.es + n < n ? ~(size_t)0 - n : ~(size_t)0 / m.es + n);
			want = -12;
		} else if (name == "null") {
			want = -22;
			r = sh_array_push(m.a, nullptr);
			void *o = nullptr;
			sh_array_free(nullptr);
			sh_array_pop(nullptr);
			if (sh_array_push(nullptr, &m) != -22 || sh_array_zresize(nullptr, 1) != -22 || sh_array_new(&o, 0, 4) != -22 || sh_array_new(nullptr, 4, 4) != -22 || sh_array_len(nullptr) || sh_array_bsize(nullptr) || sh_array_esize(nullptr) || sh_array_data(nullptr)) {
				err = "null or zero arguments are not refused";
				return false;
			}
			arena::fail_set(1, true);
			int r1 = sh_array_new(&o, 4, 4);
			arena::fail_set(2, true);
			int r2 = sh_array_new(&o, 4, 4);
			arena::fail_off();
			if (r1 != -12 || r2 != -12) { err = "creation without memory does not fail"; return false; }
		} else {
			err = "unknown operation";
			return false;
		}
		arena::fail_off();
		if (r != want) { err = fmt("returns %d, expected %d", r, want); return false; }
		if (sh_array_len(m.a) != m.len || sh_array_bsize(m.a) != (size_t)m.len * m.es || sh_array_esize(m.a) != m.es) {
			err = fmt("length %zu, byte size %zu, element size %zu; expected %u elements of %u bytes", sh_array_len(m.a), sh_array_bsize(m.a), sh_array_esize(m.a), m.len, m.es);
			return false;
		}
		static uint8_t got[sizeof(m.d)];
		const uint8_t *d = (const uint8_t *)sh_array_data(m.a);
		size_t bytes = (size_t)m.len * m.es;
		if (arena::size_of(d) < bytes) { err = "the elements do not fit into the array's memory"; return false; }
		arena::copy(got, d, bytes);
		for (size_t i = 0; i < bytes; ++i)
			if (got[i] != m.d[i]) { err = fmt("element %zu is wrong at byte %zu", i / m.es, i % m.es); return false; }
		return true;
	}
	bool finish(std::string &err) override
	{
		sh_array_free(m.a);
		return leak(err);
	}
	uint64_t hash() override
	{
		uint64_t h = mixh(m.len, m.es);
		for (size_t i = 0; i < (size_t)m.len * m.es; ++i) h = mixh(h, m.d[i]);
		return h;
	}
};

// ------------------------------------------------------------ symbol table

const int NS = 48, ML = 12;
struct SymModel { void *t; int n, refs; struct { uint32_t id; int len; uint32_t s[ML]; } e[NS]; };

struct SymModels { int tables; SymModel t[2]; };

// one symbol table, or two (operations on the second one start with 'b')
class SymSys : public PlainSys<SymModels> {
public:
	void init(const Header &h) override
	{
		memset(&m, 0, sizeof(m));
		m.tables = (int)h.num("tables", 1);
		for (int i = 0; i < m.tables; ++i) init_table(m.t[i]);
	}
	static void init_table(SymModel &m)
	{
		if (sh_sym_new(&m.t)) abort();
		m.refs = 1;
		const uint32_t base[] = { 'a', 'b', 0x4f60, 0x301, 0, 0x10ffff };
		for (uint32_t c : base) {
			auto &e = m.e[m.n++];
			e.id = sh_sym_make(c);
			e.len = 1;
			e.s[0] = c;
		}
	}
	static int find(const SymModel &m, const uint32_t *s, int len)
	{
		for (int i = 0; i < m.n; ++i)
			if (m.e[i].len == len && !memcmp(m.e[i].s, s, (size_t)len * 4)) return i;
		return -1;
	}
	bool enabled(const Op &op) override
	{
		bool b = op.name[0] == 'b';
		return op.a.empty() || op.name[b] != 'a' || op.a[0] < m.t[b].n;
	}
	bool apply(const Op &op, std::string &err) override
	{
		bool b = op.name[0] == 'b' && m.tables > 1;
		Op o = op;
		if (b) o.name = op.name.substr(1);
		if (!apply_to(m.t[b], o, err)) return false;
		for (int i = 0; i < m.tables; ++i)
			if (!check(m.t[i], err)) {
				if (m.tables > 1) err = (i == b ? "this table: " : "the other table: ") + err;
				return false;
			}
		return true;
	}
	static bool apply_to(SymModel &m, const Op &op, std::string &err)
	{
		if (op.name == "app" || op.name == "appfail") {
			// append code point a[1] to symbol number a[0] (from the end if negative), a[2]: failing allocation
			int i = (int)op.a[0] < 0 ? m.n + (int)op.a[0] : (int)op.a[0];
			uint32_t c = (uint32_t)op.a[1];
			auto e = m.e[i];
			bool f = op.name == "appfail";
			if (f) arena::fail_set((uint64_t)op.a[2], op.a.size() > 3 && op.a[3]);
			uint32_t r = sh_sym_append(m.t, e.id, c);
			bool failed = f && arena::hdr()->failed;
			arena::fail_off();
			bool full = e.len >= (int)sh_sym_maxlen() || c > sh_sym_limit();
			if (full || failed) {
				if (r != e.id) { err = fmt("append returns %u, expected the original symbol %u", r, e.id); return false; }
			} else {
				e.s[e.len++] = c;
				int k = find(m, e.s, e.len);
				if (k >= 0) {
					if (m.e[k].id != r) { err = fmt("append returns %u for a string whose symbol is %u", r, m.e[k].id); return false; }
				} else {
					if (r <= sh_sym_limit()) { err = fmt("append returns the plain character %u for a composed string", r); return false; }
					for (int q = 0; q < m.n; ++q)
						if (m.e[q].id == r) { err = fmt("append returns symbol %u, which already stands for another string", r); return false; }
					if (m.n < NS) {
						e.id = r;
						m.e[m.n++] = e;
					}
				}
			}
		} else if (op.name == "ref") {
			sh_sym_ref(m.t);
			++m.refs;
		} else if (op.name == "unref") {
			if (m.refs < 2) return true;
			sh_sym_unref(m.t);
			--m.refs;
		} else if (op.name == "null") {
			uint32_t s = 'x';
			size_t n = 7;
			sh_sym_ref(nullptr);
			sh_sym_unref(nullptr);
			if (sh_sym_append(nullptr, 'x', 'y') != 'x' || *sh_sym_get(nullptr, &s, &n) != 'x' || n != 1 || sh_sym_width(nullptr, 'x') != 0 || sh_sym_new(nullptr) != -22 || sh_sym_make(sh_sym_limit() + 1) != 0 || sh_sym_make(0xffffffff) != 0) {
				err = "null or invalid arguments are not handled";
				return false;
			}
			// the largest code point the table takes is its own symbol
			s = sh_sym_limit();
			n = 7;
			if (sh_sym_make(s) != s || *sh_sym_get(m.t, &s, &n) != s || n != 1) { err = "the largest code point is not its own symbol"; return false; }
			// a symbol that was never made is the default character
			for (uint32_t id : { sh_sym_limit() + 1, sh_sym_limit() + 1 + 100000, 0xffffffffu }) {
				s = id;
				n = 7;
				bool known = false;
				for (int i = 0; i < m.n; ++i) known |= m.e[i].id == id;
				if (known) continue;
				const uint32_t *p = sh_sym_get(m.t, &s, &n);
				if (!p || n != 1 || *p != sh_sym_default()) { err = "an unknown symbol is not the default character"; return false; }
			}
		} else {
			err = "unknown operation";
			return false;
		}
		return true;
	}
	static bool check(const SymModel &m, std::string &err)
	{
		for (int i = 0; i < m.n; ++i) {
			uint32_t id = m.e[i].id;
			size_t n = 99;
			const uint32_t *p = sh_sym_get(m.t, &id, &n);
			bool ok = p && n == (size_t)m.e[i].len;
			for (size_t k = 0; ok && k < n; ++k) {
				uint32_t v;
				arena::copy(&v, p + k, 4);
				ok = v == m.e[i].s[k];
			}
			if (!ok) { err = fmt("symbol %u gives %zu code points or wrong ones, expected %d", m.e[i].id, n, m.e[i].len); return false; }
			if (sh_sym_get(m.t, &id, nullptr) != p) { err = "retrieving without a length gives another string"; return false; }
			unsigned w = sh_sym_width(m.t, m.e[i].id);
			if (w != m::char_width(m.e[i].s[0])) { err = fmt("symbol %u has width %u, its base character has %u", m.e[i].id, w, m::char_width(m.e[i].s[0])); return false; }
		}
		return true;
	}
	bool finish(std::string &err) override
	{
		for (int i = 0; i < m.tables; ++i)
			while (m.t[i].refs--) {
				if (!arena::hdr()->live) { err = "the table is freed before its last reference goes"; return false; }
				sh_sym_unref(m.t[i].t);
				// the other one is not affected
				for (int j = i + 1; j < m.tables; ++j)
					if (!check(m.t[j], err)) { err = "after dropping the other table: " + err; return false; }
			}
		return leak(err);
	}
	uint64_t hash() override
	{
		uint64_t h = 0;
		for (int q = 0; q < m.tables; ++q) {
			const SymModel &t = m.t[q];
			h = mixh(h + (uint64_t)t.n, (uint64_t)t.refs);
			for (int i = 0; i < t.n; ++i)
				for (int k = 0; k < t.e[i].len; ++k) h = mixh(h, t.e[i].s[k] + 0x100000000ull * (uint64_t)(k == 0));
		}
		return h;
	}
};

} // namespace

std::unique_ptr<System> make_cont(const std::string &n)
{
	if (n == "htable") return std::unique_ptr<System>(new HtableSys);
	if (n == "ring") return std::unique_ptr<System>(new RingSys);
	if (n == "array") return std::unique_ptr<System>(new ArraySys);
	if (n == "sym") return std::unique_ptr<System>(new SymSys);
	return nullptr;
}
