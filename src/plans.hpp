#pragma once
#include "sys.hpp"
#include <cstdarg>
typedef std::vector<std::string> SV;
SV operator+(SV a, const SV &b);
std::string S(const char *f, ...);
SV in(const SV &v);
std::string fill_text(int w, int h, bool wrap);
SV filled(int w, int h);
struct Builder {
	Plan &p;
	bool thorough;
	double budget;                     // transitions
	int fit(size_t n, double weight) const;
	Config &add(const std::string &name, const std::string &header, const SV &prefix, const SV &alphabet, double weight);
	void each(const std::string &name, const std::vector<std::pair<std::string, SV>> &starts, const SV &alphabet, double weight);
};
void add_utf8_enums(Plan &p, bool thorough);
void add_symbol_enums(Plan &p, bool thorough);
void add_unicode_enums(Plan &p, bool thorough);
