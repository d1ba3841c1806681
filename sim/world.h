#pragma once
#include "plan.h"
#include "hooks.h"
// Executes one Plan against the real model and checks property `prop` while the run proceeds (runs in a forked child).
void execute(const Plan& p, const std::string& prop, bool landscape);
#ifdef SIM_STD
void execute_standalone(const Plan& p);
#endif
struct Res { int outcome = 0, code = 0, site_op = 0, site_inst = 0; std::string cls, msg, out, opk; uint64_t hash = 0; int main_rc = -1, main_returned = 0, alloc_seen = 0; uint64_t steps = 0, live = 0; };
Res run_one(const Plan& p, bool land = false);
struct Verdict { bool viol = false; std::string cls, msg; uint64_t hash = 1469598103934665603ull; int op = -1; };
Verdict judge(const Plan& p);
Plan shrink(const Plan& p, const Verdict& v, int budget);
std::string slurp(const std::string& f);
