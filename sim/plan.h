// A Plan is one complete simulated execution: the catchments (configurations), the environment (heap and stack
// contents, storage and allocator faults, crash point) and the exact schedule of operations.  Executing a plan is
// a pure function of the plan and of the code under test; a replay file is a plan in text form.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <cstdio>
#include <cstdlib>
#include "rng.h"

struct Soil { std::string name; double tr = 0, te = 0, alpha = 0, n = 0, ks = 0; };

struct InstCfg {
  std::vector<double> thick;      // cm
  std::vector<int> layer_soil;    // 1-based row of the soil file
  std::vector<Soil> soils;
  int max_soils = 0;              // max_valid_soil_types (0: key not written)
  double psi0 = 1000, dt_s = 300, res_s = 3600, end_h = 1e6, ponded_max = 0, wp = 15495, fc = 340.9;
  bool closedG = false, adaptive = false, sft = false, calib = false;
  std::vector<double> giuh{1.0};
  std::vector<double> soil_z;     // cm
  std::string verbosity = "none";
  long style = 0;                 // how the same configuration is written down (key order, units, noise); 0: canonical
  std::string omit = "-";         // configuration key left out ("-": none)
  std::string bad = "-";          // damage to the soil file: "norow", "cols", "word", "nofile"
};

struct Op { std::string k; int i = 0; std::vector<double> a; std::string s; };
struct IoRule { std::string path, kind; double at = 0, arg = 0; };   // storage fault

struct Plan {
  std::string prop; uint64_t seed = 0; std::string mode = "-";   // mode: scenario family within the property
  std::map<std::string, double> env;
  std::vector<InstCfg> inst;
  std::vector<IoRule> io;
  std::vector<Op> ops;
  double e(const char* k, double d = 0) const { auto it = env.find(k); return it == env.end() ? d : it->second; }
};

inline std::string snum(double v) { // shortest decimal that round-trips
  char b[40];
  for (int p = 1; p <= 17; p++) { snprintf(b, sizeof b, "%.*g", p, v); if (strtod(b, nullptr) == v) break; }
  return b;
}
std::string plan_to_text(const Plan& p);
bool plan_from_text(const std::string& t, Plan& p);
std::string cfg_text(const InstCfg& c, const std::string& soilfile, const std::string& forcing = "");
std::string soil_text(const InstCfg& c);
Plan gen_plan(const std::string& prop, uint64_t seed, bool deep);
