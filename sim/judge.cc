// Decides one plan: runs the variants the property needs, each in its own process image, and compares their histories.
#include "world.h"
#include <cmath>
#include <cstring>
#include <algorithm>
#include <unistd.h>
#include <ctime>
using namespace std;

typedef map<int, vector<vector<double>>> Hist;      // instance -> records
static Hist history() {
  Hist h; size_t i = 0, n = shm->ntrace;
  while (i + 3 <= n && shm->trace[i] == -7777777) { int id = (int)shm->trace[i + 1]; size_t k = (size_t)shm->trace[i + 2]; i += 3; if (i + k > n) break; h[id].push_back(vector<double>(shm->trace + i, shm->trace + i + k)); i += k; }
  return h;
}
struct Run { Res r; Hist h; };
static void mixh(Verdict& v, uint64_t x) { v.hash = (v.hash ^ x) * 0x100000001b3ull; v.hash ^= v.hash >> 29; }
static Run go(const Plan& p, Verdict& v) {
  Run x; x.r = run_one(p); x.h = history(); mixh(v, x.r.hash); mixh(v, x.r.outcome); for (char c : x.r.cls) mixh(v, (unsigned char)c); return x;
}
static bool loud(const Res& r) { return r.outcome == O_ABORT || r.outcome == O_ASSERT || r.outcome == O_EXC || (r.outcome == O_EXIT && r.code != 0); }
static string oc(const Res& r) { string s = outcome_name[r.outcome]; if (r.outcome == O_SIGNAL || r.outcome == O_EXIT) s += "(" + to_string(r.code) + ")"; return s; }
static bool inline_viol(const Plan& p, const Res& r, Verdict& v) {
  if (r.outcome == O_VIOL) { v.viol = true; v.cls = r.cls; v.msg = r.msg + " [op " + to_string(r.site_op) + ", instance " + to_string(r.site_inst) + "]"; v.op = r.site_op; return true; }
  if (r.outcome != O_OK) {
    v.viol = true; v.cls = p.prop + ":died:" + outcome_name[r.outcome]; v.op = r.site_op;
    v.msg = "run ended by " + oc(r) + " during '" + r.opk + "' [op " + to_string(r.site_op) + ", instance " + to_string(r.site_inst) + "]: " + r.msg + " | " + (r.out.size() > 300 ? r.out.substr(r.out.size() - 300) : r.out);
    return true;
  }
  return false;
}
// first difference between two record lists; tol 0 = bitwise (up to the sign of zero)
static string diff(const vector<vector<double>>& a, const vector<vector<double>>& b, double tol, size_t skip = 0) {
  char buf[300];
  for (size_t i = skip; i < a.size() && i < b.size(); i++) {
    if (a[i].size() != b[i].size()) { snprintf(buf, sizeof buf, "record %zu has %zu values against %zu", i, a[i].size(), b[i].size()); return buf; }
    for (size_t k = 0; k < a[i].size(); k++) {
      double x = a[i][k], y = b[i][k]; bool same = tol == 0 ? (x == y || (x != x && y != y)) : (fabs(x - y) <= tol * (1 + fabs(x) + fabs(y)) || (x != x && y != y));
      if (!same) { snprintf(buf, sizeof buf, "record %zu value %zu: %.17g against %.17g", i, k, x, y); return buf; }
      if (tol > 0 && x == x && y == y) meter("diff_rel", fabs(x - y) / (1 + fabs(x) + fabs(y)));
    }
  }
  if (a.size() != b.size()) { snprintf(buf, sizeof buf, "%zu records against %zu", a.size(), b.size()); return buf; }
  return "";
}
static void differ(Verdict& v, const string& cls, const string& msg) { v.viol = true; v.cls = cls; v.msg = msg; }

static Verdict judge_c08(const Plan& p) {
  Verdict v; Run a = go(p, v);
  for (size_t i = 0; i < p.inst.size(); i++) {
    Plan s = p; s.ops.clear(); for (auto& o : p.ops) if (o.i == (int)i) s.ops.push_back(o);
    if (s.ops.empty()) continue;
    Run b = go(s, v); count("probe:solo-run");
    if (a.r.outcome == O_OK && b.r.outcome == O_OK) {
      string d = diff(b.h[i], a.h[i], 0);
      if (!d.empty()) { differ(v, "C08:contaminated", "instance " + to_string(i) + " alone and among " + to_string(p.inst.size()) + " instances disagree: " + d); return v; }
    } else if (b.r.outcome == O_OK && a.r.site_inst == (int)i) { differ(v, "C08:died", "instance " + to_string(i) + " completes alone, but ends by " + oc(a.r) + " among others: " + a.r.msg); return v; }
    else if (a.r.outcome == O_OK) { differ(v, "C08:died-alone", "instance " + to_string(i) + " completes among others but ends by " + oc(b.r) + " alone: " + b.r.msg); return v; }
  }
  return v;
}
static Verdict judge_c09(const Plan& p) {
  Verdict v; Plan clean = p; clean.env["heap"] = 1; clean.env["poison"] = 0; clean.env["stack"] = 1;
  clean.ops.clear(); for (auto& o : p.ops) if (o.k != "dirt") { clean.ops.push_back(o); if (o.k == "final") clean.ops.back().a.clear(); }      // restarts get a fresh object
  Run a = go(clean, v);
  // the same catchments in a process with a past: another catchment was initialised, run and destroyed first
  Plan d = p; InstCfg ghost = p.inst[0]; Rng r(p.seed + 5); if (r.p(.5)) swap(ghost.soils.front(), ghost.soils.back()); if (r.p(.5)) for (auto& x : ghost.soils) x.te *= r.uni(.8, 1); ghost.psi0 = r.pick<double>({55, 55, 2500, 0, .3, 700}); if (r.p(.7)) ghost.thick[r.next() % ghost.thick.size()] *= r.uni(.5, 1.5); if (r.p(.5)) ghost.giuh = {.25, .25, .25, .25}; ghost.sft = false; ghost.calib = r.p(.5); int g = (int)d.inst.size(); d.inst.push_back(ghost);
  vector<Op> pre; pre.push_back({"dirt", 0, {(double)(p.seed % 1000000 + 1)}, "fault:heap-dirt"}); pre.push_back({"init", g, {}, "fault:process-history"});
  int n = r.irange(0, r.p(.2) ? 30 : 6); bool wet = r.p(.7); for (int t = 0; t < n; t++) { pre.push_back({"frc", g, {wet && r.p(.6) ? r.logu(1, 80) : 0, r.uni(0, .6)}, ""}); pre.push_back({"up", g, {}, ""}); }
  pre.push_back({"final", g, r.p(.4) ? vector<double>{2} : vector<double>{}, ""}); d.ops.insert(d.ops.begin(), pre.begin(), pre.end());      // sometimes the first instance takes over the finalised object
  Run b = go(d, v), c = go(clean, v); count("fault:dirty-memory");
  if (a.r.outcome != c.r.outcome || a.r.hash != c.r.hash) { differ(v, "C09:nondeterministic", "the same plan run twice gave different histories"); return v; }
  if (a.r.outcome != b.r.outcome) { differ(v, "C09:outcome", "clean memory: " + oc(a.r) + " " + a.r.msg + "; dirty memory and process history: " + oc(b.r) + " " + b.r.msg); return v; }
  if (a.r.outcome == O_OK) for (size_t i = 0; i < p.inst.size(); i++) { string x = diff(a.h[i], b.h[i], 0); if (!x.empty()) { differ(v, "C09:memory", "instance " + to_string(i) + " depends on what memory contained or on earlier activity in the process: " + x); return v; } }
  return v;
}
static Verdict judge_c10(const Plan& p) {
  Verdict v; Plan q = p; q.ops.clear(); for (auto& o : p.ops) if (o.k != "obs" && o.k != "bmi") q.ops.push_back(o); for (auto& c : q.inst) c.verbosity = "none";
  Run a = go(q, v), b = go(p, v);
  if (a.r.outcome != b.r.outcome) { differ(v, "C10:outcome", "unobserved: " + oc(a.r) + " " + a.r.msg + "; observed: " + oc(b.r) + " " + b.r.msg); return v; }
  if (a.r.outcome == O_OK) for (size_t i = 0; i < p.inst.size(); i++) { string x = diff(a.h[i], b.h[i], 0); if (!x.empty()) { differ(v, "C10:perturbed", "instance " + to_string(i) + " changes when it is observed (getters, verbosity " + p.inst[i].verbosity + "): " + x); return v; } }
  if (b.r.outcome != O_OK) return v;
  Plan s = q; s.env["sparse"] = 1; Run c = go(s, v); count("probe:unobserved-life");    // not looked at even once before the end of each life
  if (c.r.outcome != O_OK) { differ(v, "C10:outcome", "never looked at: " + oc(c.r) + " " + c.r.msg + "; looked at after every step: completes"); return v; }
  for (size_t i = 0; i < p.inst.size(); i++) { auto& h = a.h[i]; vector<vector<double>> e; for (size_t k = 0; k < h.size(); k++) if (h[k][0] == -42 || k + 1 == h.size() || h[k + 1][0] == -42) e.push_back(h[k]);
    string x = diff(c.h[i], e, 0); if (!x.empty()) { differ(v, "C10:perturbed", "instance " + to_string(i) + " ends differently when it is looked at after every step and when it is not: " + x); return v; } }
  return v;
}
static vector<Soil> per_layer(const InstCfg& c) { vector<Soil> v; for (int s : c.layer_soil) v.push_back(c.soils[s - 1]); return v; }
static Verdict judge_c12(const Plan& p) {
  Verdict v; Run b = go(p, v);
  Plan q = p; q.ops.clear(); InstCfg& c = q.inst[0]; string what;
  double tol = 0;
  if (p.mode == "equiv" || p.mode == "noop") {
    vector<Soil> t = per_layer(c); bool before = true;
    for (auto& o : p.ops) { if (o.k == "up" || o.k == "until") before = false;
      if (o.k == "cal" && before) { int q5 = o.s == "smcmax" ? 0 : o.s == "smcmin" ? 1 : o.s == "van_genuchten_n" ? 2 : o.s == "van_genuchten_alpha" ? 3 : o.s == "hydraulic_conductivity" ? 4 : o.s == "field_capacity" ? 5 : 6;
        if (q5 == 5) c.fc = o.a[1]; else if (q5 == 6) c.ponded_max = o.a[1];
        else for (size_t l = 0; l < t.size(); l++) { if (o.a[0] >= 0 && (int)o.a[0] != (int)l) continue; double x = o.a[0] >= 0 ? o.a[1] : o.a[min(o.a.size() - 1, l + 1)]; (q5 == 0 ? t[l].te : q5 == 1 ? t[l].tr : q5 == 2 ? t[l].n : q5 == 3 ? t[l].alpha : t[l].ks) = x; } }
      else if (o.k != "cal") q.ops.push_back(o); }
    c.soils = t; for (size_t l = 0; l < t.size(); l++) c.layer_soil[l] = (int)l + 1; c.max_soils = 0; c.calib = false; what = "configured directly with the calibrated values"; tol = 1e-7;
  } else if (p.mode == "late") { // sets after the first Update change nothing
    bool seen = false; for (auto& o : p.ops) { if (o.k == "cal" && seen) continue; if (o.k == "up" || o.k == "until") seen = true; if (o.k == "init") seen = false; q.ops.push_back(o); } what = "without the late calibration messages";
  } else { for (auto& o : p.ops) if (o.k != "cal") q.ops.push_back(o); what = "without the calibration messages (calibration disabled)"; }
  Run a = go(q, v); count("probe:c12-" + p.mode);
  if (a.r.outcome != b.r.outcome) { differ(v, "C12:outcome-" + p.mode, "calibrated run: " + oc(b.r) + " " + b.r.msg + "; " + what + ": " + oc(a.r) + " " + a.r.msg); return v; }
  auto nosum = [](vector<vector<double>>& h) { h.erase(remove_if(h.begin(), h.end(), [](const vector<double>& r) { return !r.empty() && r[0] == -42; }), h.end()); };
  if (tol > 0) { nosum(a.h[0]); nosum(b.h[0]); }       // the summaries rightly differ: only one of the two runs was recalibrated
  if (a.r.outcome == O_OK) { string x = diff(a.h[0], b.h[0], tol, 1); if (!x.empty()) differ(v, "C12:" + p.mode, "the calibrated run differs from the run " + what + ": " + x); }
  return v;
}
static Verdict judge_c13(const Plan& p) {
  Verdict v; Run b = go(p, v);
  if (p.mode == "latest") { inline_viol(p, b.r, v); return v; }
  if (b.r.outcome == O_VIOL) { inline_viol(p, b.r, v); return v; }
  Plan q = p; InstCfg& c = q.inst[0]; c.soils = per_layer(p.inst[0]); c.sft = false; c.soil_z.clear(); c.max_soils = 0;
  for (size_t l = 0; l < c.thick.size(); l++) { c.layer_soil[l] = (int)l + 1; if (p.e(("cold" + to_string(l)).c_str()) > 0) c.soils[l].ks = 0.05 * c.soils[l].ks; }
  Run a = go(q, v); count("probe:c13-" + p.mode); double tol = p.mode == "warm" ? 0 : 1e-9;
  if (a.r.outcome != b.r.outcome) { differ(v, "C13:outcome-" + p.mode, "coupled: " + oc(b.r) + " " + b.r.msg + "; uncoupled with scaled conductivity: " + oc(a.r) + " " + a.r.msg); return v; }
  if (a.r.outcome == O_OK) { string x = diff(a.h[0], b.h[0], tol, 1); if (!x.empty()) differ(v, "C13:" + p.mode, "the coupled run differs from the uncoupled run with correspondingly scaled conductivities: " + x); }
  return v;
}
static Verdict judge_c14(const Plan& p) {
  Verdict v; Run b = go(p, v); count("probe:c14-" + p.mode);
  if (p.mode == "omit" || p.mode == "bad") {
    bool rightplace = b.r.opk == "init" && b.r.site_inst == 0;
    if (b.r.outcome == O_OK || b.r.outcome == O_VIOL) differ(v, "C14:silent-" + p.mode, p.mode == "omit" ? "a configuration without '" + p.inst[0].omit + "' was accepted" : "a soil file with damage '" + p.inst[0].bad + "' was accepted" + (b.r.outcome == O_VIOL ? ": " + b.r.msg : ""));
    else if (!loud(b.r) || !rightplace) differ(v, "C14:crash-" + p.mode, (p.mode == "omit" ? "a configuration without '" + p.inst[0].omit : "a soil file with damage '" + p.inst[0].bad) + "' ended in " + oc(b.r) + " during '" + b.r.opk + "' instead of a diagnosis by Initialize");
    else count("fault:" + p.mode);
    return v;
  }
  Plan q = p; q.io.clear(); q.env.erase("allocfail"); for (auto& c : q.inst) c.style = 0;
  if (p.mode == "name") { int i = 0; for (auto& s : q.inst[0].soils) s.name = "S" + to_string(++i); }
  Run a = go(q, v);
  if (a.r.outcome != O_OK) { inline_viol(p, a.r, v); return v; }
  if (p.mode == "name") {     // a soil's name carries no meaning; one too long to hold may be refused
    size_t len = 0; for (size_t i = 0; i < p.inst[0].soils.size(); i++) len = max(len, p.inst[0].soils[i].name.size());
    if (len > 24 && loud(b.r) && b.r.opk == "init") { count("fault:bad"); return v; }
    if (inline_viol(p, b.r, v)) return v; string x = diff(a.h[0], b.h[0], 0); if (!x.empty()) differ(v, "C14:name", "soils under longer names give a different run: " + x); return v; }
  if (p.mode == "perm") {     // the same soils in other rows of the file
    if (inline_viol(p, b.r, v)) return v; Plan w = q; InstCfg& c = w.inst[0]; Rng r(p.seed + 3); vector<int> at; for (size_t i = 0; i < c.soils.size(); i++) at.push_back(i); for (size_t i = at.size(); i > 1; i--) swap(at[i - 1], at[r.next() % i]);
    vector<Soil> t(c.soils.size()); for (size_t i = 0; i < at.size(); i++) t[at[i]] = c.soils[i]; for (auto& l : c.layer_soil) l = at[l - 1] + 1; c.soils = t; c.max_soils = 0; c.end_h *= 2;
    Run d = go(w, v); if (inline_viol(w, d.r, v)) return v; string x = diff(a.h[0], d.h[0], 0); if (!x.empty()) differ(v, "C14:perm", "the same soils listed in another order give a different run: " + x); return v; }
  if (p.mode == "style") { if (inline_viol(p, b.r, v)) return v; string x = diff(a.h[0], b.h[0], 0); if (!x.empty()) differ(v, "C14:style", "the same configuration written differently gives a different run: " + x); return v; }
  // storage or allocator fault: refused loudly, or without effect
  if (b.r.outcome == O_OK || b.r.outcome == O_VIOL) { string x = b.r.outcome == O_VIOL ? b.r.msg : diff(a.h[0], b.h[0], 0); if (!x.empty()) differ(v, "C14:silent-" + p.mode, "a fault (" + p.mode + ") went unnoticed and changed the run: " + x); return v; }
  if (p.mode != "alloc" && !loud(b.r)) { differ(v, "C14:crash-" + p.mode, "a storage fault (" + p.mode + ") ended in " + oc(b.r) + " during '" + b.r.opk + "' instead of a diagnosis"); return v; }
  if (p.mode == "alloc" && b.r.outcome == O_BUDGET) differ(v, "C14:hang-alloc", "an allocation failure made the model loop");
  return v;
}
// C23: the same rates delivered once per interval of n sub-steps, or n times for intervals of one sub-step each
static Verdict judge_c23(const Plan& p) {
  Verdict v; Run a = go(p, v); const InstCfg& c = p.inst[0]; int n = (int)floor(c.res_s / c.dt_s + .5);
  Plan q = p; q.inst[0].res_s = c.dt_s; q.ops.clear();
  for (auto& o : p.ops) { int k = o.k == "up" ? n : 1; for (int j = 0; j < k; j++) q.ops.push_back(o); }
  Run b = go(q, v); count("probe:c23-pair");
  if (a.r.outcome == O_VIOL || b.r.outcome == O_VIOL) { inline_viol(p, a.r.outcome == O_VIOL ? a.r : b.r, v); return v; }
  if (a.r.outcome != b.r.outcome) { differ(v, "C23:outcome", "intervals of " + to_string(n) + " sub-steps: " + oc(a.r) + " " + a.r.msg + "; intervals of one sub-step: " + oc(b.r) + " " + b.r.msg); return v; }
  if (a.r.outcome != O_OK) return v;
  auto &x = a.h[0], &y = b.h[0]; size_t j = 0, i = 0; char buf[300];
  for (auto& o : p.ops) {
    if (o.k == "init") { if (i < x.size() && j < y.size()) { i++; j++; } continue; }
    if (o.k == "final" && i < x.size() && j < y.size() && x[i][0] == -42 && y[j][0] == -42) { i++; j++; continue; }
    if (o.k != "up") continue;
    if (i >= x.size() || j + n > y.size()) break;
    static const int FLUX[] = {0, 1, 2, 3, 7, 8}; static const char* const FN[] = {"precipitation", "potential ET", "actual ET", "runoff", "infiltration", "percolation"};
    for (int f = 0; f < 6; f++) { double s = 0; for (int k = 0; k < n; k++) s += y[j + k][FLUX[f]]; double d = fabs(s - x[i][FLUX[f]]); meter("c23_flux", d); if (!(d <= 1e-8)) { snprintf(buf, sizeof buf, "interval %zu: %s %.12g m in one interval of %d sub-steps, %.12g m in as many intervals of one", i, FN[f], x[i][FLUX[f]], n, s); differ(v, "C23:flux", buf); return v; } }
    j += n; vector<double> u(x[i].begin() + 12, x[i].end()), w(y[j - 1].begin() + 12, y[j - 1].end()); i++;
    string e = diff({u}, {w}, 1e-9); if (!e.empty()) { differ(v, "C23:state", "after interval " + to_string(i - 1) + " of " + to_string(n) + " sub-steps and after as many intervals of one sub-step the state differs: " + e); return v; }
    double sx = x[i - 1][5], sy = y[j - 1][5]; if (fabs(sx - sy) > 1e-8) { snprintf(buf, sizeof buf, "interval %zu: storage %.12g against %.12g m", i - 1, sx, sy); differ(v, "C23:state", buf); return v; }
  }
  return v;
}
#ifdef SIM_STD
string forcing_text(const Plan& p);
static vector<string> lines(const string& t) { vector<string> v; stringstream s(t); string l; while (getline(s, l)) v.push_back(l); return v; }
static vector<string> cells(const string& t, char c = ',') { vector<string> v; stringstream s(t); string l; while (getline(s, l, c)) v.push_back(l); return v; }
// the two result files against the same catchment driven step by step through the library interface
static string compare_files(const Plan& p, const string& var, const string& lay, const vector<vector<double>>& rec, size_t n, size_t& fr0) {
  static const char* const NAME[11] = {"precipitation","potential_evapotranspiration","actual_evapotranspiration","surface_runoff","giuh_runoff","soil_storage","total_discharge","infiltration","percolation","groundwater_to_stream_recharge","mass_balance"};
  char b[300]; vector<string> L = lines(var), F = lines(forcing_text(p)); F.erase(remove(F.begin(), F.end(), string()), F.end()); vector<string> h = L.empty() ? vector<string>() : cells(L[0]); int col[11];
  if (h.size() != 12 || h[0] != "Time") return "data_variables.csv does not start with the header";
  for (int i = 0; i < 11; i++) { col[i] = -1; for (size_t k = 1; k < h.size(); k++) if (h[k] == NAME[i]) col[i] = (int)k; if (col[i] < 0) return string("data_variables.csv has no column ") + NAME[i]; }
  if (L.size() != n + 1) { snprintf(b, sizeof b, "data_variables.csv has %zu result rows, the period holds %zu forcing intervals", L.size() - 1, n); return b; }
  if (rec.size() < n + 1) return "";     // the reference run is shorter (it ended early); nothing to compare against
  for (size_t j = 0; j < n; j++) {
    vector<string> c = cells(L[j + 1]); string lab = cells(F[j + 1])[0];
    if (c.size() != 12) { snprintf(b, sizeof b, "row %zu of data_variables.csv has %zu cells", j + 1, c.size()); return b; }
    if (c[0] != lab) return "row " + to_string(j + 1) + " is labelled '" + c[0] + "', the forcing row is '" + lab + "'";
    for (int i = 0; i < 11; i++) { double x = strtod(c[col[i]].c_str(), 0), y = rec[j + 1][i]; meter("csv_err", fabs(x - y)); if (!(fabs(x - y) <= 1e-14 * (1 + fabs(y)))) { snprintf(b, sizeof b, "row %zu: %s = %.17g, the library run on the same input gives %.17g", j + 1, NAME[i], x, y); return b; } }
  }
  vector<string> Y = lines(lay);
  if (Y.size() != 2 * n) { snprintf(b, sizeof b, "data_layers.csv has %zu lines for %zu intervals", Y.size(), n); return b; }
  for (size_t j = 0; j < n; j++) {
    string lab = cells(F[j + 1])[0]; int st = -1;
    if (sscanf(Y[2 * j].c_str(), "# Timestep = %d,", &st) != 1 || st != (int)j || Y[2 * j].find(lab) == string::npos) return "data_layers.csv block " + to_string(j) + " is headed '" + Y[2 * j] + "'";
    string t = Y[2 * j + 1]; if (t.size() < 2 || t[0] != '[' || t.back() != ']') return "data_layers.csv block " + to_string(j) + " is not a front list";
    vector<string> f = cells(t.substr(1, t.size() - 2), '|'); const vector<double>& r = rec[j + 1]; size_t nf = (size_t)r[12], base = 14 + 2 * nf;
    if (f.size() != nf) { snprintf(b, sizeof b, "data_layers.csv block %zu lists %zu fronts, the state has %zu", j, f.size(), nf); return b; }
    for (size_t k = 0; k < nf && base + 4 * k + 3 < r.size(); k++) { double d, th, ps; int ly, fn; if (sscanf(f[k].c_str(), "(%lf,%lf,%d,%d,%lf)", &d, &th, &ly, &fn, &ps) != 5) return "unreadable front in block " + to_string(j);
      if (fabs(d - 10 * r[base + 4 * k]) > 1e-6 * (1 + d) || fabs(th - r[base + 4 * k + 1]) > 1e-6 || fabs(ps - 10 * r[base + 4 * k + 2]) > 1e-6 * (1 + fabs(ps)) || ly != (int)r[base + 4 * k + 3] || fn != (int)k + 1) { snprintf(b, sizeof b, "data_layers.csv block %zu front %zu is %s, the state is depth %.9g cm theta %.9g psi %.9g cm layer %d", j, k + 1, f[k].c_str(), r[base + 4 * k], r[base + 4 * k + 1], r[base + 4 * k + 2], (int)r[base + 4 * k + 3]); return b; } }
  }
  (void)fr0; return "";
}
static bool prefix(const string& a, const string& whole) { return a.size() <= whole.size() && !whole.compare(0, a.size(), a); }
static Verdict judge_c17(const Plan& p) {
  Verdict v; count("probe:c17-" + p.mode);
  size_t n = (size_t)floor(p.inst[0].end_h * 3600 / p.inst[0].res_s + 1e-6);
  Plan c = p; c.env["standalone"] = 1; c.io.clear(); for (auto k : {"crash", "cell", "fewrows"}) c.env.erase(k);
  Run a = go(c, v); string V = slurp("data_variables.csv"), Y = slurp("data_layers.csv");
  Plan q = c; q.env.erase("standalone"); q.inst[0].style = 0; q.ops.clear(); q.ops.push_back({"init", 0, {}, ""}); { size_t k = 0; for (auto& o : p.ops) { if (o.k == "up" && k++ >= n) break; q.ops.push_back(o); } }
  Run ref = go(q, v);
  bool ok = a.r.outcome == O_OK && a.r.main_rc == 0;
  size_t have = 0; for (auto& o : p.ops) have += o.k == "frc";
  if (have < n) { if (ok) differ(v, "C17:short-forcing", "the program finished although the forcing ends before the simulation period"); return v; }   // only in shrunk plans
  if (!ok) {
    if (ref.r.outcome == O_OK) differ(v, "C17:died", "the standalone run ended by " + oc(a.r) + " (return " + to_string(a.r.main_rc) + ") " + a.r.msg + " | " + (a.r.out.size() > 200 ? a.r.out.substr(a.r.out.size() - 200) : a.r.out));
    return v;
  }
  if (ref.r.outcome != O_OK) { differ(v, "C17:died-library", "the standalone program completes, the library run on the same input ends by " + oc(ref.r) + " " + ref.r.msg); return v; }
  size_t z = 0; string e = compare_files(c, V, Y, ref.h[0], n, z); if (!e.empty()) { differ(v, "C17:content", e); return v; }
  if (p.mode == "clean") return v;
  Plan f = p; f.env["standalone"] = 1; f.env["need"] = (double)n;
  if (p.mode == "crash") f.env["crash"] = floor(p.e("crashfrac") * a.r.steps);
  for (auto& r : f.io) { size_t sz = r.path == "data_variables.csv" ? V.size() : r.path == "data_layers.csv" ? Y.size() : forcing_text(c).size(); if (r.kind == "torn" || r.kind == "enospc" || r.kind == "weio" || r.kind == "weio1" || r.kind == "eio") r.at = floor(p.e("frac") * sz); }
  Run b = go(f, v); string V2 = slurp("data_variables.csv"), Y2 = slurp("data_layers.csv");
  if (p.mode == "crash" && b.r.outcome == O_CRASH) count("fault:process-killed");
  if (b.r.outcome == O_OK && f.env.count("fewrows")) count("fault:short-forcing"); if (f.env.count("cell")) count("fault:missing-cell"); if (f.env.count("fewrows")) count("fault:forcing-truncated");
  if (p.mode == "crash" || p.mode == "torn") {
    if (!prefix(V2, V)) { differ(v, "C17:not-prefix", "after a crash data_variables.csv is not a prefix of the undisturbed result"); return v; }
    if (!prefix(Y2, Y)) { differ(v, "C17:not-prefix", "after a crash data_layers.csv is not a prefix of the undisturbed result"); return v; }
    Plan g = c; g.env["keep"] = 1; Run d = go(g, v);
    if (d.r.outcome != O_OK || slurp("data_variables.csv") != V || slurp("data_layers.csv") != Y) differ(v, "C17:rerun", "a rerun after the crash does not reproduce the undisturbed result files");
    else count("probe:rerun-after-crash");
    return v;
  }
  bool quiet = b.r.outcome == O_OK && b.r.main_rc == 0, same = V2 == V && Y2 == Y;
  bool said = loud(b.r) || (b.r.outcome == O_OK && b.r.main_rc != 0);
  if (quiet && !same) { differ(v, "C17:silent", "the program reported success although a fault (" + (f.io.empty() ? string(f.env.count("cell") ? "missing forcing cell" : "missing forcing rows") : f.io[0].path + " " + f.io[0].kind) + ") left wrong or incomplete result files"); return v; }
  if (!quiet && !said) { differ(v, "C17:crash", "a fault (" + (f.io.empty() ? string("forcing content") : f.io[0].path + " " + f.io[0].kind) + ") ended in " + oc(b.r) + " instead of a diagnosis"); return v; }
  if (!f.io.empty() && (f.io[0].kind == "short" || f.io[0].kind == "wshort" || f.io[0].kind == "eintr") && !(quiet && same)) differ(v, "C17:transparent", "partial transfers (" + f.io[0].path + " " + f.io[0].kind + ") changed the outcome: " + oc(b.r) + " " + b.r.msg);
  return v;
}
#endif
// C02 on the knife's edge: the rain of one step is set so that what is left after infiltration fills the pond to the last bit
static void judge_edge(const Plan& p, Run& a, Verdict& v) {
  for (size_t i = 0; i < p.inst.size(); i++) {
    const InstCfg& c = p.inst[i]; if (c.ponded_max <= 0 || c.adaptive || c.res_s != c.dt_s || c.calib) continue;
    auto& h = a.h[i]; size_t k = 0; int last = -1, tries = 0;
    for (size_t j = 0; j < p.ops.size() && tries < 2; j++) {
      const Op& o = p.ops[j]; if (o.i != (int)i) continue;
      if (o.k == "init") { if (k++) break; }
      else if (o.k == "until" || o.k == "final") break;
      else if (o.k == "up") {
        if (k >= h.size()) break;
        if (last >= 0 && h[k - 1][13] > 1e-3 && h[k][3] > 1e-7 && h[k][7] > 1e-7) {
          tries++;
          auto level = [&](double T, int d, const char* what) {   // the rain that leaves T cm on the surface, give or take d roundings
            double x = (T + 100 * h[k][7] - h[k - 1][13]) / (c.res_s / 3600) * 10; if (x <= 0) return true;
            Plan q = p; q.ops.resize(min(p.ops.size(), j + 1 + (d ? 0 : 12))); q.ops[last].a[0] = x * (1 + d * 1.2e-16); Run b = go(q, v); count(what); return !inline_viol(q, b.r, v); };
          for (int d = -9; d <= 9; d++) if (!level(c.ponded_max, d, "probe:pond-filled-exactly")) return;
          for (double e : {2e-8, 7e-7, 1e-5, 3e-4, 5e-3}) if (!level(c.ponded_max - e, 0, "probe:pond-nearly-full") || !level(c.ponded_max + e, 0, "probe:pond-just-over") || !level(e, 0, "probe:pond-nearly-empty")) return;
        }
        k++; last = -1;
      } else last = o.k == "frc" ? (int)j : o.k == "obs" ? last : -1;
    }
  }
}
Verdict judge(const Plan& p) {
  if (p.prop == "C08") return judge_c08(p);
  if (p.prop == "C09") return judge_c09(p);
  if (p.prop == "C10") return judge_c10(p);
  if (p.prop == "C12") return judge_c12(p);
  if (p.prop == "C13") return judge_c13(p);
  if (p.prop == "C14") return judge_c14(p);
  if (p.prop == "C23") return judge_c23(p);
#ifdef SIM_STD
  if (p.prop == "C17") return judge_c17(p);
#endif
  Verdict v; Run a = go(p, v);
  if (p.e("standalone") > 0) { count("probe:c15-standalone"); if (a.r.outcome == O_SIGNAL) differ(v, "C15:standalone", "the standalone program ended by " + oc(a.r) + " " + a.r.msg); return v; }
  if (p.mode == "refuse") {
    if (a.r.outcome == O_VIOL) inline_viol(p, a.r, v);
    else if (a.r.outcome != O_OK && !(loud(a.r) && a.r.opk == "refuse")) inline_viol(p, a.r, v);
    else count("probe:refused");
    return v;
  }
  if (inline_viol(p, a.r, v)) return v;
  if (p.mode == "edge") { judge_edge(p, a, v); return v; }
  if (p.prop == "C07" && a.r.outcome == O_OK) for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].k == "until" && !p.ops[i].a.empty() && p.ops[i].a[0] > 1) {
    Plan q = p; q.ops.assign(p.ops.begin(), p.ops.begin() + i); for (int k = 0; k < (int)p.ops[i].a[0]; k++) q.ops.push_back({"up", p.ops[i].i, {}, ""});
    Run b = go(q, v); auto &x = a.h[p.ops[i].i], &y = b.h[p.ops[i].i];
    if (b.r.outcome != O_OK) { inline_viol(q, b.r, v); return v; }
    if (!x.empty() && !y.empty() && x.size() < y.size() + 1) { string e = diff({x.back()}, {y.back()}, 0); if (!e.empty()) differ(v, "C07:until-state", "one UpdateUntil over several intervals and the same number of Updates reach different states: " + e); }
    break;
  }
  return v;
}

// ------------------------------------------------------------------ minimisation
Plan shrink(const Plan& p0, const Verdict& v0, int budget) {
  Plan best = p0; int used = 0; timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);      // bounded effort: a slow failure stays larger
  auto ok = [&](const Plan& q) { clock_gettime(CLOCK_MONOTONIC, &t1); if (used >= budget || t1.tv_sec - t0.tv_sec > 60) return false; used++; Verdict v = judge(q); return v.viol && v.cls == v0.cls; };
  auto attempt = [&](Plan q) { if (ok(q)) { best = q; return true; } return false; };
  if (v0.op >= 0 && v0.op + 1 < (int)best.ops.size() && p0.prop != "C17") { Plan q = best; q.ops.resize(v0.op + 1); attempt(q); }
  for (size_t i = 0; i < best.inst.size() && best.inst.size() > 1; i++) { Plan q = best; q.ops.clear(); for (auto& o : best.ops) if (o.i != (int)i) q.ops.push_back(o); if (q.ops.size() < best.ops.size()) attempt(q); }
  for (size_t chunk = best.ops.size() / 2; chunk >= 1 && used < budget; chunk /= 2) {
    for (size_t at = 0; at < best.ops.size() && used < budget;) {
      if (best.ops[at].k == "init" && chunk == 1) { at++; continue; }
      Plan q = best; size_t e = min(best.ops.size(), at + chunk); q.ops.erase(q.ops.begin() + at, q.ops.begin() + e);
      if (!attempt(q)) at += chunk;
    }
    if (chunk == 1) break;
  }
  // drop unused trailing instances, then simplify the environment and the configurations
  while (best.inst.size() > 1) { bool used_i = false; for (auto& o : best.ops) if (o.i == (int)best.inst.size() - 1) used_i = true; if (used_i) break; Plan q = best; q.inst.pop_back(); if (!attempt(q)) break; }
  for (auto k : {"heap", "stack"}) { Plan q = best; if (q.e(k, 1) != 1) { q.env[k] = 1; attempt(q); } } { Plan q = best; if (q.e("poison")) { q.env["poison"] = 0; attempt(q); } }
  for (size_t i = 0; i < best.io.size();) { Plan q = best; q.io.erase(q.io.begin() + i); if (!attempt(q)) i++; }
  for (size_t i = 0; i < best.inst.size() && used < budget; i++) {
    auto mut = [&](auto f) { Plan q = best; f(q.inst[i]); attempt(q); };
    if (best.inst[i].giuh.size() > 1) mut([](InstCfg& c) { c.giuh = {1.0}; });
    if (best.inst[i].closedG) mut([](InstCfg& c) { c.closedG = false; });
    if (best.inst[i].adaptive) mut([](InstCfg& c) { c.adaptive = false; });
    if (best.inst[i].ponded_max > 0) mut([](InstCfg& c) { c.ponded_max = 0; });
    if (best.inst[i].calib && p0.prop != "C12") mut([](InstCfg& c) { c.calib = false; });
    if (best.inst[i].style) mut([](InstCfg& c) { c.style = 0; });
    if (best.inst[i].dt_s != 300 && best.inst[i].res_s >= 300 && (p0.prop != "C23" || fmod(best.inst[i].res_s, 300) == 0)) mut([](InstCfg& c) { c.dt_s = 300; });
    while (best.inst[i].thick.size() > 1 && !best.inst[i].sft) { size_t n = best.inst[i].thick.size(); mut([](InstCfg& c) { c.thick.pop_back(); c.layer_soil.pop_back(); }); if (best.inst[i].thick.size() == n) break; }
  }
  return best;
}
