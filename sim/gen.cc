#include "plan.h"
#include <algorithm>
using namespace std;
static const Soil CAT[] = {
 {"Clay",.1,.46,.01,1.25,.612},{"Clay-loam",.08,.44,.02,1.42,.3348},{"Loam",.06,.4,.01,1.47,.504},{"Loamy-sand",.05,.39,.03,1.75,4.32},{"Sand",.05,.38,.04,3.18,26.64},
 {"Sandy-clay",.12,.39,.03,1.21,.468},{"Sandy-clay loam",.06,.38,.02,1.33,.54},{"Sandy-loam",.04,.39,.03,1.45,1.584},{"Silt",.05,.49,.01,1.68,1.836},{"Silty-clay",.11,.48,.02,1.32,.432},
 {"Silty-clay loam",.09,.48,.01,1.52,.468},{"Silt-loam",.07,.44,.01,1.66,.756},{"P-1",.0648,.4513,.0031297,1.6858,.45},{"P-2",.0831,.4773,.0083272,1.299,.07},{"P-3",.0668,.4617,.0037454,1.6151,.45},
 {"B-1",.0649,.4481,.009567,1.3579,.07},{"B-2",.0672,.4760,.005288,1.5276,.02},{"B-3",.0823,.4782,.004467,1.4585,.2},
 {"hSand",.045,.43,.145,2.68,29.7},{"hLoamy-sand",.057,.41,.124,2.28,14.5917},{"hSandy-loam",.065,.41,.075,1.89,4.42083},{"hSilt-loam",.067,.45,.02,1.41,.45},{"hSilt",.034,.46,.016,1.37,.25},
 {"hLoam",.078,.43,.036,1.56,1.04},{"hSandy-clay-loam",.1,.39,.059,1.48,1.31},{"hSilty-clay-loam",.089,.43,.01,1.23,.07},{"hClay-loam",.095,.41,.019,1.31,.26},{"hSandy-clay",.1,.38,.027,1.23,.12},
 {"hSilty-clay",.07,.36,.005,1.09,.02},{"hClay",.068,.38,.008,1.09,.2}};
static const int NCAT = sizeof CAT / sizeof *CAT;
static double rnd(double v, int digits) { char b[40]; snprintf(b, sizeof b, "%.*g", digits, v); return atof(b); }

static Soil gen_soil(Rng& r, int regime) {
  Soil s;
  if (regime == 0) s = CAT[r.irange(0, NCAT - 1)];
  else if (regime == 1) { s = CAT[r.irange(0, NCAT - 1)]; s.tr *= r.uni(.8, 1.2); s.te *= r.uni(.9, 1.15); s.alpha *= r.uni(.7, 1.4); s.n = 1 + (s.n - 1) * r.uni(.8, 1.25); s.ks *= r.logu(.3, 3); s.name = "V" + to_string(r.irange(1, 99)); }
  else { s.tr = r.uni(.01, .15); s.te = r.uni(.3, .8); s.alpha = r.logu(.001, .3); s.n = r.uni(1.01, 3); s.ks = r.logu(.001, 100); s.name = "R" + to_string(r.irange(1, 99)); }
  s.tr = rnd(s.tr, 5); s.te = rnd(s.te, 5); s.alpha = rnd(s.alpha, 6); s.n = rnd(s.n, 5); s.ks = rnd(s.ks, 5);
  return s;
}
struct Weather {
  int kind; Rng r; double pet; int left = 0; double inten = 0; double wet, dry; bool sticky = false;
  Weather(Rng& p) : r(p.fork(7)) { kind = r.irange(0, 6); pet = r.p(.15) ? 0 : r.uni(.05, 1.2); wet = r.uni(1, 12); dry = r.uni(2, 60); }
  pair<double, double> step(int t) {
    double P = 0, E = pet * max(0.0, sin((t % 24) / 24.0 * 2 * 3.14159265 - 1.5) + .3);
    if (r.p(sticky ? .004 : .02)) kind = r.irange(0, 6);
    switch (kind) {
      case 0: break;                                                    // drought
      case 1: if (left <= 0) { bool w = inten <= 0; left = 1 + (int)(-log(1 - r.u()) * (w ? wet : dry)); inten = w ? r.logu(.2, 60) : 0; } left--; P = inten * (inten > 0 ? r.uni(.5, 1.5) : 1); break;
      case 2: P = r.p(.5) ? r.logu(.01, 2) : 0; break;                  // drizzle
      case 3: P = (t & 1) ? r.logu(.1, 40) : 0; break;                  // alternating pulses
      case 4: P = r.logu(5, 150); break;                                // deluge
      case 5: P = r.p(.1) ? r.logu(1, 100) : 0; E = pet; break;         // flash storms
      case 6: P = r.logu(.001, 10); break;
    }
    if (P > 0 && r.p(.03)) P = 10;                                      // the boundary between light and heavy rain
    if (P > 0 && r.p(.004)) P = r.pick<double>({1e-5, 1e-3, 250, 400});   // the rarest of weather
    if (E > 0 && r.p(.004)) E = r.pick<double>({1e-5, 1e-3, 3, 6});
    if (P > 0) P = rnd(P, 4); E = E > 0 ? rnd(E, 4) : 0;
    return {P, E};
  }
};

struct Opt {
  int imin = 1, imax = 1, smin = 20, smax = 120; double sft = .15, calib = .15, invalid = 0, fault = .12, restart = .05, obs = .03, bmi = 0, nodiv = 0, halfmin = 0, final_p = .8, until = .03, dirt = .02, wetpond = 0, highpet = 0, singlestep = 0, resvar = 0, untilk = 0, thin = .1, soak = .05, contrast = .1, damp = .06;
  vector<int> regimes{0, 0, 1, 1, 2}; int verb = 0;
};
static InstCfg gen_cfg(Rng& r, int regime, const Opt& o) {
  InstCfg c; int L = r.irange(1, 4); if (r.p(.4)) L = 3; if (r.p(.05)) L = r.irange(5, 7);
  int R = L + r.irange(0, 5);
  for (int i = 0; i < R; i++) c.soils.push_back(gen_soil(r, regime));
  vector<int> rows; for (int i = 1; i <= R; i++) rows.push_back(i);
  for (size_t i = rows.size(); i > 1; i--) swap(rows[i - 1], rows[r.next() % i]);
  for (int l = 0; l < L; l++) { c.layer_soil.push_back(rows[l]); c.thick.push_back(rnd(r.p(.2) ? r.uni(3, 15) : r.uni(15, 140), 4)); }
  if (r.p(o.thin)) for (auto& t : c.thick) t = rnd(r.uni(2, 12), 4);      // a column that fills and drains quickly
  if (L > 1 && r.p(.15)) c.layer_soil[r.irange(1, L - 1)] = c.layer_soil[0];   // shared soil type
  if (regime == 2 && L > 1 && r.p(o.contrast)) for (int l = 0; l < L; l++) { Soil& q = c.soils[c.layer_soil[l] - 1]; if (l + 1 < L) { q.alpha = rnd(r.uni(.05, .3), 5); q.n = rnd(r.uni(1.05, 1.4), 5); } else { q.alpha = rnd(r.uni(.001, .004), 5); q.n = rnd(r.uni(2, 3), 5); } }   // coarse steps over a nearly flat retention curve
  c.psi0 = rnd(r.p(.3) ? r.pick<double>({10, 100, 2000, 3000}) : r.logu(10, 3000), 4);
  if (r.p(o.damp)) c.psi0 = r.p(.3) ? 0 : rnd(r.p(.5) ? r.uni(0, 10) : r.logu(1e-3, 10), 3);          // a column that starts (nearly) full
  c.dt_s = r.pick<double>({300, 300, 300, 60, 600, 900, 1800, 3600});
  c.res_s = r.pick<double>({3600, 3600, 3600, 1800, 900, 600, 300});
  if (r.p(o.resvar)) c.res_s = r.pick<double>({3600, 1800, 1200, 900, 720, 600, 450, 400, 360, 300, 240, 180, 120});
  if (o.halfmin && r.p(o.halfmin)) { c.res_s = r.pick<double>({450, 450, 150, 90, 3600}); c.dt_s = r.pick<double>({30, 90, 150, 450}); }
  if (r.p(o.nodiv)) c.dt_s = r.pick<double>({250, 700, 1000, 420, 333, 2400, 480, 7200, 5400, 59, 299, 1799, 3599});
  if (c.dt_s > c.res_s && !r.p(o.nodiv * .5)) c.dt_s = c.res_s;
  if (r.p(o.singlestep)) c.dt_s = c.res_s;
  c.end_h = r.pick<double>({240, 1000, 8760, 24});
  c.ponded_max = r.p(.4 - .3 * o.wetpond) ? 0 : rnd(r.uni(0, 5), 3);
  if (r.p(.1)) c.ponded_max = r.pick<double>({.1, .5, 1, 2});
  else if (r.p(.05)) c.ponded_max = r.pick<double>({5e-7, 1e-5, 1e-4, 1e-3, .01, 20, 60});
  c.fc = r.p(.5) ? 340.9 : rnd(r.uni(10.3, 516.6), 5); if (r.p(.25)) c.wp = rnd(r.uni(5000, 20000), 5);
  c.closedG = r.p(.3); c.adaptive = r.p(.4);
  int n = r.irange(1, 6); double s = 0; c.giuh.clear(); for (int i = 0; i < n; i++) { c.giuh.push_back(r.uni(.02, 1)); s += c.giuh.back(); }
  if (n > 1 && r.p(.3)) { int keep = r.irange(0, n - 1); for (int i = 0; i < n; i++) if (i != keep && r.p(.5)) { s -= c.giuh[i]; c.giuh[i] = 0; } }   // ordinates may be zero
  { int big = (int)(max_element(c.giuh.begin(), c.giuh.end()) - c.giuh.begin()); double acc = 0; for (int i = 0; i < n; i++) if (i != big) { c.giuh[i] = rnd(c.giuh[i] / s, 3); acc += c.giuh[i]; } c.giuh[big] = rnd(1 - acc, 6); }
  { Rng g = Rng(r).fork(3); if (g.p(.06)) { int m = g.irange(10, 30); c.giuh.assign(m, 0); double acc = 0; for (int i = 0; i < m; i++) { c.giuh[i] = rnd(g.uni(.2, 1) / m, 2); acc += c.giuh[i]; } c.giuh[m / 3] = rnd(c.giuh[m / 3] + 1 - acc, 6); } }    // a slow catchment
  if (r.p(.3)) c.max_soils = r.irange(*max_element(c.layer_soil.begin(), c.layer_soil.end()), 15);
  if (r.p(o.sft)) {
    c.sft = true; double b = 0, cb = 0;                       // at least one temperature cell in each layer
    for (int l = 0; l < L; l++) { cb += c.thick[l]; int k = r.irange(1, 3); for (int j = 0; j < k; j++) { double z = b + (cb - b) * (j + 1) / k; if (j + 1 < k || r.p(.5)) z -= (cb - b) / k * r.uni(.05, .4); c.soil_z.push_back(rnd(z, 6)); } b = cb; }
    double bound = 0; size_t q = 0; bool ok = true;            // cells must fall inside their layers after rounding
    for (int l = 0; l < L; l++) { bound += c.thick[l]; size_t q0 = q; while (q < c.soil_z.size() && c.soil_z[q] <= bound) q++; if (q == q0) ok = false; }
    if (!ok) { c.sft = false; c.soil_z.clear(); }
  }
  c.calib = r.p(o.calib);
  if (o.verb) c.verbosity = r.pick<string>({"none", "low", "high"});
  if (r.p(o.invalid)) { int cap = c.max_soils ? min(c.max_soils, 15) : 15; c.layer_soil[r.irange(0, L - 1)] = cap + r.irange(1, 4); }
  return c;
}
static vector<double> gen_T(Rng& r, const InstCfg& c, int kind) {
  vector<double> v; double base = kind == 0 ? r.uni(274, 300) : kind == 1 ? r.uni(255, 272.5) : r.uni(272.7, 273.4);
  for (size_t i = 0; i < c.soil_z.size(); i++) v.push_back(rnd(kind == 3 ? r.uni(265, 281) : base + (kind == 0 ? 1 : r.uni(-.3, .3)), 7));
  if (r.p(.1)) for (auto& x : v) x = 273.15;
  return v;
}
// admissible calibrated values for one layer
static Soil gen_calib(Rng& r, const Soil& s, int regime) { Soil t = gen_soil(r, regime); if (r.p(.4)) { t = s; t.ks = rnd(s.ks * r.logu(.3, 3), 5); t.te = rnd(min(.8, s.te * r.uni(.95, 1.1)), 5); } return t; }
static void calib_ops(Rng& r, vector<Op>& v, int i, const InstCfg& c, int regime, bool full) {
  size_t L = c.thick.size(); vector<Soil> t;
  for (size_t l = 0; l < L; l++) t.push_back(gen_calib(r, c.soils[c.layer_soil[l] - 1], regime));
  static const char* N[5] = {"smcmax","smcmin","van_genuchten_n","van_genuchten_alpha","hydraulic_conductivity"};
  bool per = r.p(.3), all = full || r.p(.6);
  if (all) for (int q = 0; q < 5; q++) {
    vector<double> a; for (size_t l = 0; l < L; l++) a.push_back(q == 0 ? t[l].te : q == 1 ? t[l].tr : q == 2 ? t[l].n : q == 3 ? t[l].alpha : t[l].ks);
    if (per) for (size_t l = 0; l < L; l++) v.push_back({"cal", i, {(double)l, a[l]}, N[q]}); else { a.insert(a.begin(), -1); v.push_back({"cal", i, a, N[q]}); }
  } else { int l = r.irange(0, (int)L - 1); v.push_back({"cal", i, {(double)l, t[l].ks}, N[4]}); }
  if (full || r.p(.5)) v.push_back({"cal", i, {-1, rnd(r.uni(10.3, 516.6), 5)}, "field_capacity"});
  if (full || r.p(.5)) v.push_back({"cal", i, {-1, r.p(.3) ? 0 : r.p(.05) ? r.pick<double>({1e-4, .01, 40}) : rnd(r.uni(0, 5), 3)}, "ponded_depth_max"});
}
static vector<Op> program(Rng& r, int i, const InstCfg& c, int regime, const Opt& o, bool allow_cal = true) {
  vector<Op> v; Weather w(r); if (o.highpet > 0 && r.p(o.highpet)) w.pet = r.uni(.3, 1.5); if (o.wetpond > 0 && r.p(o.wetpond)) w.kind = r.pick<int>({1, 3, 4, 5});
  if (r.p(o.soak)) { w.kind = r.pick<int>({4, 6}); w.sticky = true; w.pet = r.uni(.1, 1.5); }      // a column kept full while it evaporates
  int n = r.irange(o.smin, o.smax); int tk = r.irange(0, 3); bool T1 = false; double lp = 0, le = 0; bool first = true;
  double fault = r.p(.75) ? o.fault : 0;
  auto life = [&]() { v.push_back({"init", i, {}, ""}); if (allow_cal && c.calib && r.p(.85)) calib_ops(r, v, i, c, regime, false); T1 = false; first = true; };
  life();
  for (int t = 0; t < n; t++) {
    auto f = w.step(t); double route = r.p(.7) ? 0 : r.irange(1, 3);
    if (!first && r.p(fault)) {
      switch (r.irange(0, 5)) {
        case 0: v.push_back({"note", i, {}, "fault:forcing-lost"}); break;
        case 1: v.push_back({"frc", i, {f.first, f.second, route}, "fault:forcing-duplicated"}); v.push_back({"frc", i, {f.first, f.second, route}, ""}); break;
        case 2: v.push_back({"frc", i, {f.first, f.second, route}, ""}); v.push_back({"frc", i, {lp, le, route}, "fault:forcing-reordered"}); break;
        case 3: v.push_back({"spike", i, {r.pick<double>({-999, 1e12, -1, NAN}), r.pick<double>({-999, 1e9, 0}), route}, "fault:forcing-garbled"}); v.push_back({"frc", i, {f.first, f.second, route}, ""}); break;
        case 4: v.push_back({"onlyP", i, {f.first}, "fault:forcing-partial"}); break;
        case 5: v.push_back({"onlyE", i, {f.second}, "fault:forcing-partial"}); break;
      }
    } else v.push_back({"frc", i, {f.first, f.second, route}, ""});
    lp = f.first; le = f.second; first = false;
    if (c.sft) { if (r.p(.05)) tk = r.irange(0, 3);
      if (!T1 || !r.p(.4)) { string rt = r.p(.7) ? "" : r.p(.5) ? "idx" : "ptr"; v.push_back({"T", i, gen_T(r, c, tk), rt}); if (r.p(fault * .3)) { v.push_back({"note", i, {}, "fault:temperature-superseded"}); v.push_back({"T", i, gen_T(r, c, r.irange(0, 3)), rt}); } } else if (fault > 0) v.push_back({"note", i, {}, "fault:temperature-lost"});
      T1 = true; }
    if (r.p(o.obs)) v.push_back({"obs", i, {(double)r.irange(1, 1000000)}, ""});
    if (r.p(o.bmi)) v.push_back({"bmi", i, {(double)r.irange(1, 1000000)}, ""});
    if (r.p(o.dirt)) v.push_back({"dirt", i, {(double)r.irange(1, 1000000)}, "fault:heap-dirt"});
    if (r.p(o.until)) v.push_back({"until", i, {r.p(o.untilk) ? r.irange(2, 4) : 1.0, r.p(.4) ? (r.p(.5) ? r.uni(0, .9) : 1 - r.pick<double>({3e-5, 1e-4, 1e-3, .01})) : 0}, ""}); else v.push_back({"up", i, {}, ""});
    if (r.p(o.bmi)) v.push_back({"bmi", i, {(double)r.irange(1, 1000000)}, ""});
    if (allow_cal && r.p(o.calib * .05)) calib_ops(r, v, i, c, regime, false);
    if (o.restart > 0 && r.p(o.restart / 20)) { v.push_back({"final", i, r.p(.35) ? vector<double>{1} : vector<double>{}, "fault:restart"}); life(); }
  }
  if (r.p(o.final_p)) v.push_back({"final", i, {}, ""});
  return v;
}
// seeded interleaving with stalls: a stalled instance runs nothing for a while, then catches up in a burst
static void weave(Rng& r, Plan& p, vector<vector<Op>>& pr) {
  vector<size_t> pc(pr.size(), 0); vector<int> stall(pr.size(), 0); size_t left = 0; for (auto& x : pr) left += x.size();
  int burst = 0, cur = 0;
  while (left) {
    if (burst <= 0 || pc[cur] >= pr[cur].size()) {
      vector<int> c; for (size_t i = 0; i < pr.size(); i++) if (pc[i] < pr[i].size() && stall[i] <= 0) c.push_back(i);
      for (auto& s : stall) if (s > 0) s--;
      if (c.empty()) { fill(stall.begin(), stall.end(), 0); continue; }
      cur = c[r.next() % c.size()]; burst = r.p(.7) ? 1 : r.irange(2, 12);
      if (pr.size() > 1 && r.p(.02)) { stall[cur] = r.irange(10, 80); p.ops.push_back({"note", cur, {}, "fault:instance-stalled"}); burst = 0; continue; }
    }
    p.ops.push_back(pr[cur][pc[cur]++]); left--; burst--;
  }
}
static int hk(const string& s) { return (s[0] * 100 + atoi(s.c_str() + 1)); }
static void worldify(Rng& r, Plan& p, const Opt& o) {
  int regime = r.pick(o.regimes); if (getenv("REGIME")) regime = atoi(getenv("REGIME"));
  p.env["regime"] = regime;
  int n = r.irange(o.imin, o.imax); vector<vector<Op>> pr;
  for (int i = 0; i < n; i++) { p.inst.push_back(gen_cfg(r, regime, o)); bool inv = false; for (int s : p.inst[i].layer_soil) if (s > (int)p.inst[i].soils.size()) inv = true; pr.push_back(program(r, i, p.inst[i], regime, o, !inv)); }
  weave(r, p, pr);
}
Plan gen_plan(const string& prop, uint64_t seed, bool deep) {
  Rng r(seed * 1000003ull + hk(prop) * 7919ull);
  Plan p; p.prop = prop; p.seed = seed; Opt o;
#if defined SIM_STD && defined SIM_ASAN
  if (prop == "C15") {      // the standalone program under the sanitizers: sound, damaged and short forcing
    p = gen_plan("C17", seed, deep); p.prop = prop; p.mode = "standalone"; p.io.clear(); p.env.erase("crashfrac"); p.env.erase("bufsz"); p.env["standalone"] = 1; p.env["need"] = p.e("rows"); p.env.erase("cell"); p.env.erase("fewrows");
    Rng g(seed * 47 + 3); if (g.p(.25)) p.env[g.p(.5) ? "cell" : "fewrows"] = 1; return p;
  }
#endif
  if (deep) o.smax = 400;
  p.env["heap"] = r.pick<double>({1, 1, 2, 3, 4, 5, 7}); p.env["poison"] = r.pick<double>({0, 0, 2, 3}); p.env["stack"] = r.pick<double>({1, 2, 3, 5});
  if (prop == "C01") { o.imax = 2; o.calib = .25; o.nodiv = .1; o.wetpond = .3; }
  else if (prop == "C02") { o.wetpond = .6; o.singlestep = .35; o.imax = 2; }
  else if (prop == "C03") { o.resvar = .7; o.wetpond = .8; o.restart = .6; o.imax = 2; o.smax = min(o.smax, 150); }
  else if (prop == "C04") { o.highpet = .7; o.singlestep = .4; o.imax = 2; o.calib = .2; }
  else if (prop == "C05") { o.imax = 2; }
  else if (prop == "C06") { o.imax = 2; o.singlestep = .3; o.restart = .3; o.calib = .25; }
  else if (prop == "C07") {
    o.nodiv = .5; o.resvar = .4; o.until = .15; o.untilk = .2; o.imax = 2; o.smax = min(o.smax, 80); o.fault = .3;
    if (r.p(.1)) { p.mode = "refuse"; o.smin = 0; o.smax = 3; o.until = 0; worldify(r, p, o); p.ops.clear();
      p.ops.push_back({"init", 0, {}, ""}); if (r.p(.6)) p.ops.push_back({r.p(.5) ? "onlyP" : "onlyE", 0, {r.uni(0, 5)}, "fault:forcing-partial"}); else p.ops.push_back({"note", 0, {}, "fault:forcing-lost"}); p.ops.push_back({"upx", 0, {}, ""}); return p; }
  }
  else if (prop == "C08") { o.imin = 2; o.imax = 4; o.smin = 8; o.smax = deep ? 120 : 40; o.sft = .3; o.calib = .3; o.invalid = .1; o.restart = .6; o.bmi = .02; }
  else if (prop == "C09") { o.imax = 2; o.smin = 5; o.smax = deep ? 120 : 50; o.sft = .25; o.calib = .25; o.invalid = .05; o.restart = .4; p.env["heap"] = r.irange(2, 7); p.env["poison"] = r.p(.4) ? 0 : r.irange(2, 7); p.env["stack"] = r.irange(2, 6); o.thin = .4; o.wetpond = .4; o.final_p = .9; }
  else if (prop == "C10") { o.imax = 2; o.smin = 5; o.smax = deep ? 60 : 25; o.obs = .5; o.bmi = .1; o.verb = 1; o.sft = .25; o.calib = .25; }
  else if (prop == "C11") { o.imax = 2; o.smin = 3; o.smax = 40; o.bmi = .5; o.sft = .4; o.calib = .4; o.restart = .3; }
  else if (prop == "C12") {
    p.mode = r.pick<string>({"equiv", "equiv", "equiv", "late", "off", "noop"}); o.smin = 5; o.smax = deep ? 100 : 40; o.calib = 1; o.restart = 0; o.until = 0; o.regimes = {0, 0, 1};
    int regime = r.pick(o.regimes); p.env["regime"] = regime; p.inst.push_back(gen_cfg(r, regime, o)); InstCfg& c = p.inst[0]; c.calib = p.mode != "off";
    vector<Op> pr = program(r, 0, c, regime, o, false), cal; calib_ops(r, cal, 0, c, regime, p.mode == "equiv" ? r.p(.7) : false);
    if (p.mode == "noop") cal.clear();
    size_t at = 1; 
    if (p.mode == "late") { size_t k = 0; for (; k < pr.size(); k++) if (pr[k].k == "up") break; at = k + 1 + r.next() % (pr.size() - k); if (r.p(.5)) { vector<Op> c2; calib_ops(r, c2, 0, c, regime, false); pr.insert(pr.begin() + 1, c2.begin(), c2.end()); at += c2.size(); } for (auto& x : cal) x.s += ""; p.env["late_at"] = at; p.env["late_n"] = cal.size(); }
    if (p.mode == "off") at = 1 + r.next() % pr.size();
    pr.insert(pr.begin() + min(at, pr.size()), cal.begin(), cal.end());
    p.ops = pr; return p;
  }
  else if (prop == "C13") {
    p.mode = r.pick<string>({"warm", "cold", "cold", "cold", "latest", "latest"}); o.smin = 5; o.smax = deep ? 120 : 50; o.sft = 1; o.calib = 0; o.restart = .2; o.until = 0; o.wetpond = .4;
    int regime = r.pick<int>({0, 0, 1, 1, 2}); p.env["regime"] = regime; InstCfg c; do c = gen_cfg(r, regime, o); while (!c.sft); p.inst.push_back(c);
    vector<Op> pr = program(r, 0, c, regime, o, false);
    if (p.mode != "latest") {     // fixed warm/cold pattern over the layers, delivered in ever-changing messages
      vector<int> cold; double cb = 0; size_t q = 0; vector<int> cell; bool uni = r.p(.5), u = r.p(.8);
      for (size_t l = 0; l < c.thick.size(); l++) { cold.push_back(p.mode == "warm" ? 0 : uni ? u : r.p(.5)); cb += c.thick[l]; while (q < c.soil_z.size() && c.soil_z[q] <= cb) { cell.push_back(cold[l]); q++; } }
      while (cell.size() < c.soil_z.size()) cell.push_back(cold.back());
      for (size_t l = 0; l < cold.size(); l++) p.env["cold" + to_string(l)] = cold[l];
      for (auto& op : pr) if (op.k == "T") for (size_t k = 0; k < op.a.size(); k++) op.a[k] = cell[k] ? rnd(r.uni(250, 272.8), 6) : (r.p(.2) ? 273.15 : rnd(r.uni(273.2, 300), 6));
    }
    p.ops = pr; return p;
  }
  else if (prop == "C23") {      // sub-steps that make whole intervals of their own
    o.smin = 4; o.smax = deep ? 80 : 30; o.calib = .15; o.sft = .25; o.wetpond = .4; o.restart = .2; o.until = 0; int regime = r.pick<int>({0, 0, 1, 1, 2}); p.env["regime"] = regime;
    InstCfg c = gen_cfg(r, regime, o); c.adaptive = false; static const double D[][2] = {{3600, 300}, {3600, 600}, {3600, 1800}, {3600, 900}, {1800, 300}, {1800, 600}, {1800, 900}, {900, 300}, {600, 300}, {900, 180}, {3600, 1200}, {720, 360}, {600, 60}, {3600, 60}, {3600, 120}, {3600, 180}, {1800, 60}, {3600, 240}, {1800, 120}}; const double* d = D[r.next() % 19]; c.res_s = d[0]; c.dt_s = d[1];
    p.inst.push_back(c); p.ops = program(r, 0, c, regime, o, true); return p;
  }
  else if (prop == "C14") {
    p.mode = r.pick<string>({"style", "style", "style", "perm", "omit", "bad", "eio", "openerr", "alloc", "alloc"}); o.smin = 2; o.smax = 12; o.sft = .3; o.calib = .2; o.final_p = 1; o.restart = 0; o.until = 0; o.halfmin = .3;
    worldify(r, p, o); InstCfg& c = p.inst[0]; string f = r.p(.5) ? "cfg0.txt" : "soil0.dat";
    if (p.mode == "perm") { Rng g(seed * 43 + 1); if (g.p(.4)) { p.mode = "name"; for (auto& s : c.soils) { int n = g.irange(1, g.p(.3) ? 60 : 24); s.name = ""; for (int k = 0; k < n; k++) s.name += "abcdefghijklmnopqrstuvwxyzABCDEFGH0123456789_-.()"[g.next() % 49]; } } }
    if (p.mode == "style") { c.style = r.irange(1, 1 << 30); if (r.p(.7)) p.io.push_back({"cfg0.txt", r.p(.7) ? "short" : "eintr", (double)r.irange(1, 40), 0}); if (r.p(.7)) p.io.push_back({"soil0.dat", "short", (double)r.irange(1, 40), 0}); }
    if (p.mode == "omit") { vector<string> k{"layer_thickness","initial_psi","timestep","endtime","forcing_resolution","layer_soil_type","wilting_point_psi","field_capacity_psi","soil_params_file","giuh_ordinates"}; if (c.sft) k.push_back("soil_z"); c.omit = r.pick(k); if (r.p(.5)) c.style = r.irange(1, 1 << 30); }
    if (p.mode == "bad") { c.bad = r.pick<string>({"norow", "cols", "word", "nofile", "flag", "flag", "unit", "unit", "value", "fewtypes"}); if (c.bad == "fewtypes" && c.thick.size() < 2) c.bad = "unit"; { Rng g(seed * 47 + 5); if (c.sft && g.p(.5)) c.bad = "fewcells"; } if (r.p(.4)) c.style = r.irange(1, 1 << 30); c.max_soils = 0; }
    if (p.mode == "eio") p.io.push_back({f, "eio", (double)r.irange(0, f[0] == 'c' ? (int)cfg_text(c, "soil0.dat").size() : (int)soil_text(c).size()), 0});
    if (p.mode == "openerr") p.io.push_back({f, "openerr", 1, r.pick<double>({2, 13, 24})});   // ENOENT EACCES EMFILE
    if (p.mode == "alloc") p.env["allocfail"] = r.p(.5) ? r.irange(1, 60) : r.irange(1, 600);
    return p;
  }
  else if (prop == "C15") { o.imax = 3; o.sft = .3; o.calib = .3; o.invalid = .1; o.restart = .8; o.bmi = .05; o.obs = .1; o.final_p = 1; o.smax = deep ? 300 : 100; o.resvar = .3; o.nodiv = .1; }
  else if (prop == "C16") { o.regimes = {0, 1, 2, 2, 2}; o.imax = 1; o.smax = deep ? 800 : 300; o.sft = .3; o.calib = .3; o.nodiv = .2; o.fault = .2; o.thin = .35; o.wetpond = .3; o.soak = .4; o.contrast = .4; }
  else if (prop == "C17") {
    p.mode = r.pick<string>({"clean", "clean", "crash", "crash", "torn", "disk", "disk", "disk", "forcing", "forcing"}); p.env["regime"] = r.pick<double>({0, 0, 1, 2}); Opt q; q.sft = 0; q.calib = .2; q.resvar = .4; q.nodiv = .15; q.invalid = .05;
    InstCfg c = gen_cfg(r, (int)p.env["regime"], q); c.adaptive = r.p(.5); int n = r.irange(1, deep ? 80 : 40); c.end_h = n * c.res_s / 3600; 
    if (r.p(.2)) c.end_h += c.res_s / 3600 * r.pick<double>({.25, .5});     // the end does not fall on an interval
    if (r.p(.5)) c.style = r.irange(1, 1 << 30);
    p.inst.push_back(c); Weather w(r); int extra = r.p(.4) ? r.irange(1, 5) : 0;
    for (int t = 0; t < n + extra; t++) { auto f = w.step(t); p.ops.push_back({"frc", 0, {f.first, f.second}, ""}); p.ops.push_back({"up", 0, {}, ""}); }
    p.env["rows"] = n + extra; p.env["newline"] = r.p(.8);
    { Rng g(seed * 41 + 5); if (g.p(.5)) p.env["fstyle"] = g.irange(1, 31); }     // how the forcing file is written
    if (r.p(.5)) p.env["bufsz"] = r.pick<double>({64, 256, 1000, 4096, 65536});
    string of = r.p(.5) ? "data_variables.csv" : "data_layers.csv"; p.env["frac"] = r.u();
    if (p.mode == "crash") p.env["crashfrac"] = r.u();
    if (p.mode == "torn") p.io.push_back({of, "torn", 0, 0});
    if (p.mode == "disk") { string k = r.pick<string>({"enospc", "weio", "weio1", "weio1", "closeerr", "openerr", "wshort"}); p.io.push_back({of, k, k == "openerr" ? 1.0 : k == "wshort" ? (double)r.irange(1, 500) : 0, k == "openerr" ? r.pick<double>({13, 24, 28}) : 0}); }
    if (p.mode == "forcing") { string k = r.pick<string>({"eio", "short", "openerr", "cell", "cell", "cell", "eintr", "fewrows"}); if (k == "cell" || k == "fewrows") p.env[k] = k == "cell" ? r.irange(1, 4) : 1; else p.io.push_back({"forcing.csv", k, k == "openerr" ? 1.0 : k == "short" ? (double)r.irange(1, 60) : 0, k == "openerr" ? 2.0 : 0}); }
    return p;
  }
  else if (prop == "C25") { o.damp = .08; o.singlestep = .1; o.resvar = .4; o.imax = 2; o.wetpond = .5; o.sft = .2; o.thin = .3; o.soak = 0; o.contrast = .2; o.nodiv = .15; o.regimes = {0, 0, 1, 1, 2}; o.until = .02; o.smax = min(o.smax, 80); }
  else if (prop == "C24") { o.damp = .06; o.singlestep = .85; o.resvar = .3; o.imax = 2; o.wetpond = .5; o.sft = .2; o.thin = .4; o.soak = 0; o.contrast = .2; o.regimes = {0, 0, 1, 1, 2}; o.until = .02; }
  else if (prop == "C19" || prop == "C22") { o.singlestep = .6; o.resvar = .3; o.imax = 2; o.wetpond = .4; o.sft = .25; o.regimes = {0, 0, 1, 1, 2}; o.until = .02; }
  else if (prop == "C18") { o.imax = 2; o.invalid = 1; o.smin = 3; o.smax = 40; o.resvar = .5; o.sft = .2; o.bmi = .05; o.restart = .3; o.calib = .2; if (r.p(.05)) p.env["mixed"] = 1;
    if (Rng(seed * 37 + 11).p(.03)) { p.mode = "refuse"; o.smin = 0; o.smax = 3; o.until = 0; worldify(r, p, o); p.ops.clear(); p.ops.push_back({"init", 0, {}, ""}); if (r.p(.5)) p.ops.push_back({"onlyE", 0, {r.uni(0, 5)}, "fault:forcing-partial"}); else p.ops.push_back({"note", 0, {}, "fault:forcing-lost"}); p.ops.push_back({"upx", 0, {}, ""}); return p; } }
  if (prop == "C02" && Rng(seed * 31 + 7).p(.08)) { p.mode = "edge"; o.singlestep = 1; o.wetpond = 1; o.smax = min(o.smax, 60); o.fault = 0; o.until = 0; }
  static const string LONG = " C01 C03 C05 C06 C07 C16 C25 C18 ";
  if (LONG.find(" " + prop + " ") != string::npos && Rng(seed * 37 + 11).p(.008)) { o.smin = 1200; o.smax = deep ? 8000 : 2500; o.imax = 1; }     // months of simulated time
  worldify(r, p, o);
  if (prop == "C08" && r.p(.4)) {       // one more catchment, that never comes up
    int g = (int)p.inst.size(); p.inst.push_back(gen_cfg(r, (int)p.env["regime"], o)); int n = r.irange(1, 3);
    for (int k = 0; k < n; k++) p.ops.insert(p.ops.begin() + r.next() % (p.ops.size() + 1), Op{"refused", g, {(double)r.irange(0, 7), r.p(.3) ? (double)r.irange(1, 60) : 0}, ""});
  }
  return p;
}
