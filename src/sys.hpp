// Systems under exploration, operations, jobs.
#pragma once
#include "arena.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

// One operation of a history; the text form is what replay files contain.
struct Op {
	std::string text;                 // "name arg arg ..."
	std::string name;
	std::vector<int64_t> a;           // numeric arguments
	std::vector<std::string> w;       // all arguments as words
	std::string bytes;                // unescaped first argument
	int code = -1;                    // resolved by the system
};

Op parse_op(const std::string &line);
std::string esc_bytes(const std::string &raw);
std::string unesc_bytes(const std::string &txt);
std::vector<std::string> split_ws(const std::string &s);

struct Header {
	std::string sys;
	std::map<std::string, std::string> kv;
	int64_t num(const char *k, int64_t d) const { auto i = kv.find(k); return i == kv.end() ? d : strtoll(i->second.c_str(), nullptr, 0); }
	std::string str(const char *k, const char *d) const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
};
Header parse_header(const std::string &line);

class System {
public:
	virtual ~System() {}
	virtual void init(const Header &h) = 0;             // fresh system
	virtual void resolve(Op &) {}                       // once per operation of an alphabet
	virtual bool apply(const Op &op, std::string &err) = 0; // false: violation
	virtual bool finish(std::string &) { return true; } // destroy everything, check leaks; state is gone
	virtual bool enabled(const Op &) { return true; }
	virtual bool dead() { return false; }               // the last operation leads nowhere new
	virtual size_t snap_size() { return arena::snap_size() + extra_size(); }
	virtual void save(char *p) { save_extra(p + arena::save(p)); }
	virtual void restore(const char *p) { uint64_t n = arena_bytes(p); arena::restore(p); restore_extra(p + n); }
	virtual uint64_t hash() { return arena::mem_hash(); } // distinguishes states (for counting)
	// identifies the complete state: memory of the library and of the harness.
	// States with equal keys behave alike from there on.
	virtual uint64_t key();
protected:
	virtual size_t extra_size() { return 0; }
	virtual void save_extra(char *) {}
	virtual void restore_extra(const char *) {}
	static uint64_t arena_bytes(const char *p);
};

extern uint64_t vf_nontrivial;             // non-trivial cases since the last look

std::unique_ptr<System> make_system(const std::string &name);

enum Mode { FULL, DEDUP };            // all histories; histories with equal states merged

struct Config {
	std::string name;
	std::string header;
	std::vector<std::string> prefix;
	std::vector<std::string> alphabet;
	int depth = 3;
	Mode mode = FULL;
	int fitted = -1;                   // depth the budget allows without merging
	double budget = 0;                 // transitions
	bool full = false;                 // never merge equal states
	std::vector<std::vector<std::string>> epi; // suffixes tried at the end of every history
	int epi_every = 0;                 // 1: at every node, 0: only at leaves (FULL) / new states (DEDUP)
	bool finish = false;               // destroy and check for leaks at every leaf
	bool finish_every = false;         // ... at every node
};

// A job that is not an operation tree: a finite enumeration cut into tasks.
struct Stats {
	uint64_t states, transitions, traces, nontrivial;
};
struct Slot;
struct EnumCtx {
	Slot *slot;
	Stats *st;
	// report a violation with its replay text; false if the job must stop
	std::function<void(const std::string &replay, const std::string &msg)> fail;
	std::function<bool()> stopped;
};
struct EnumJob {
	std::string name;
	uint64_t ntasks = 1;
	std::function<void(uint64_t task, EnumCtx &)> run;
	std::function<std::string(const uint64_t *cur)> describe; // replay text of the current case
	std::string bound;
};

struct Plan {
	std::string level = "model_checking", rule;
	std::vector<Config> configs;
	std::vector<EnumJob> enums;
	std::vector<std::string> assumptions;
};

Plan make_plan(const std::string &id, bool thorough);

// how the running case is published for crash and hang reports
struct Slot {
	volatile uint64_t beat;
	volatile int32_t job;             // index into configs, then enums
	volatile int32_t len;             // number of ops
	volatile int64_t task;
	volatile int32_t busy;
	volatile int32_t epi;             // -1 or index of the running suffix
	volatile int32_t epilen;
	uint16_t ops[64];
	uint64_t cur[16];
};
