// A real terminal (screen + vte) next to its reference model.
#pragma once
#include "sys.hpp"
#include "lib.h"
#include "model.hpp"

struct DrawnCell {
	uint64_t id;
	uint32_t ch;
	uint32_t len;
	uint32_t width;
	tsm_screen_attr attr;
	uint64_t age;
};

struct Drawing {
	uint32_t W = 0, H = 0, next = 0;
	bool order = true;
	int ret = 0;
	std::vector<DrawnCell> c;
};

void draw_screen(struct tsm_screen *con, Drawing &d, tsm_age_t *age = nullptr);
void fill_attr(tsm_screen_attr &a, const m::Attr &x);
m::Attr from_attr(const tsm_screen_attr &a);

// the terminal of the implementation only
struct Impl {
	struct tsm_screen *con = nullptr;
	struct tsm_vte *vte = nullptr;
	std::string wr, osc, mouse, all;
	std::string bad;                  // violated callback contract
	uint32_t W = 0, H = 0;
	bool create(uint32_t w, uint32_t h, int hascb, bool withvte);
	void clear_logs() { wr.clear(); osc.clear(); mouse.clear(); bad.clear(); all.clear(); }
	// performs a terminal operation; false if it is none
	bool run(const Op &op, std::string &result);
	std::string observe();            // everything visible, as text
	uint64_t digest();                // the same, hashed
	void destroy();
};

enum {
	CMP_CURSOR = 1, CMP_SIZE = 2, CMP_SFLAGS = 4, CMP_VFLAGS = 8, CMP_MMODE = 16, CMP_SB = 32,
	CMP_CH = 64, CMP_WIDTH = 128, CMP_ATTR = 256, CMP_INV = 512, CMP_REPLY = 1024, CMP_OSC = 2048,
	CMP_MCB = 4096, CMP_RET = 8192, CMP_COPY = 16384, CMP_ID = 32768, CMP_DRAW2 = 65536, CMP_DEF = 131072, CMP_BOUNDS = 262144,
};
uint32_t parse_cmp(const std::string &s);

class TermSys : public System {
public:
	Impl I;
	m::Term M;
	uint32_t cmp = ~0u;
	uint32_t mw = 0, mh = 0, msb = 0;
	bool withvte = true, model = true, keepage = false;
	int drawret = 0;
	void init(const Header &h) override;
	void resolve(Op &op) override;
	bool apply(const Op &op, std::string &err) override;
	bool finish(std::string &err) override;
	uint64_t hash() override { return model ? M.hash() : arena::mem_hash(); }

	bool compare(std::string &err);
	// applies the operation to the model only; returns the expected result
	void run_model(const Op &op, std::string &result);
	size_t extra_size() override { return model ? M.bufsize : 0; }
	void save_extra(char *p) override { if (model) M.save(p); }
	void restore_extra(const char *p) override { if (model) M.restore(p); }
};
