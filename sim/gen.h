#pragma once
#include "sim.h"
#include <functional>
// What the generator may ask about a call: its behaviour as the first call of a fresh process.
typedef std::function<const Expected&(const CallDesc&)> AloneFn;
Plan make_plan(const std::string& prop, uint64_t seed, uint64_t index, AloneFn alone);
extern const char* const all_props[];
