// helpers shared by scenarios (oracle code runs under sim::Quiet)
#pragma once
#include "sim/sim.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
namespace scen {
using sim::u64; using sim::u32;
inline const char *nm(const char *s) { return s; }
static const u64 US = 1000ULL, MS = 1000000ULL, SEC = 1000000000ULL;
}
