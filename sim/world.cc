#include "world.h"
#include <cmath>
#include <cstring>
#include <algorithm>
#include <memory>
#include <stdexcept>
#include <unistd.h>
#include "bmi/bmi.hxx"
#include "include/bmi_lgar.hxx"
using namespace std;

#ifdef SIM_STD
static BmiLGAR* bmi_model_create() { return new BmiLGAR(); }
static void bmi_model_destroy(BmiLGAR* b) { delete b; }
#else
extern "C" { BmiLGAR* bmi_model_create(); void bmi_model_destroy(BmiLGAR*); }
#endif

enum { Q_P, Q_PET, Q_AET, Q_RUNOFF, Q_GIUH, Q_STORE, Q_Q, Q_INF, Q_PERC, Q_GW, Q_MB, NOUT };
static const char* const OUT[NOUT] = {"precipitation","potential_evapotranspiration","actual_evapotranspiration","surface_runoff","giuh_runoff",
  "soil_storage","total_discharge","infiltration","percolation","groundwater_to_stream_recharge","mass_balance"};
static const char* const CAL[7] = {"smcmax","smcmin","van_genuchten_n","van_genuchten_alpha","hydraulic_conductivity","field_capacity","ponded_depth_max"};

struct Fr { double d, th, psi, K, dz; int lay, num; bool bot; };
struct Snap { double o[NOUT]; double time = 0, ponded = 0; int nwf = 0; vector<double> pth, pz; vector<Fr> fr; double store = 0; };

struct Inst {
  InstCfg cfg; BmiLGAR *b = nullptr, *kept = nullptr; bool live = false, invalid = false; int updates = 0, id = 0;
  double P = -1, PET = -1, lastP = 0; vector<double> T, fac; bool Tset = false;
  bool calib_armed = false; vector<Soil> csoil; double c_fc = 0, c_pond = 0;  // what the host has set through the calibration variables
  vector<Soil> soil;                     // effective soil of each layer, per the reference
  double pond_max = 0, fc = 0;
  vector<double> ord, queue;             // reference unit hydrograph
  Snap prev, cur;
  double cumP = 0, cumPET = 0, cumAET = 0, cumR = 0, cumG = 0, cumPerc = 0, cumInf = 0, cumQ = 0, start = 0, calib_total = 0, passP = 0;
  vector<double> cum;                    // layer bottoms, cum[0] = 0
  map<string, void*> ptr;                // pointers handed out earlier
  long resid0 = 0; int resid_n = 0; double nsub = 0;
};

static string PR; static bool LAND = false; static int OPI = 0, INI = 0, REG = 0; static const Plan* PLAN;
static bool on(const char* p) { return LAND || PR == p; }
#define VIOL(prop, cls, ...) do { if (on(prop)) { if (LAND) { count("land:" prop ":" cls); } else { shm->site_op = OPI; shm->site_inst = INI; finish(O_VIOL, 0, prop ":" cls, __VA_ARGS__); } } } while (0)

static double theta_h(double h, const Soil& s) { double m = 1 - 1 / s.n; return 1.0 / pow(1 + pow(s.alpha * h, s.n), m) * (s.te - s.tr) + s.tr; }
static double h_theta(double th, const Soil& s) { double m = 1 - 1 / s.n, se = (th - s.tr) / (s.te - s.tr); return 1.0 / s.alpha * pow(pow(se, -1.0 / m) - 1.0, 1.0 / s.n); }

static void getd(Inst& I, const char* n, double* v) { InModel g; I.b->GetValue(n, v); }

static double integral(const Inst& I, const vector<Fr>& fr) {
  double s = 0;
  for (size_t i = 0; i < fr.size(); i++) {
    const Fr& f = fr[i]; double base = (f.lay >= 1 && f.lay < (int)I.cum.size()) ? I.cum[f.lay - 1] : 0;
    double below = (i + 1 < fr.size() && fr[i + 1].lay == f.lay) ? fr[i + 1].th : 0;
    s += (f.d - base) * (f.th - below);
  }
  return s;
}
static void snap(Inst& I, Snap& s) {
  for (int i = 0; i < NOUT; i++) { s.o[i] = NAN; getd(I, OUT[i], &s.o[i]); }
  { InModel g; s.time = I.b->GetCurrentTime(); I.b->GetValue("soil_num_wetting_fronts", &s.nwf); }
  int n = s.nwf; if (n < 0 || n > 100000) n = 0;
  int nb1, nb2; { InModel g; nb1 = I.b->GetVarNbytes("soil_moisture_wetting_fronts"); nb2 = I.b->GetVarNbytes("soil_depth_wetting_fronts"); }
  s.pth.assign(max(n, nb1 / 8) + 1, NAN); s.pz.assign(max(n, nb2 / 8) + 1, NAN);
  { InModel g; I.b->GetValue("soil_moisture_wetting_fronts", s.pth.data()); I.b->GetValue("soil_depth_wetting_fronts", s.pz.data()); }
  s.pth.resize(nb1 / 8); s.pz.resize(nb2 / 8);
  model_state* m = I.b->get_model();
  s.ponded = m->lgar_mass_balance.volon_timestep_cm;
  s.fr.clear(); int guard = 0;
  for (wetting_front* f = m->head; f && guard < 5000; f = f->next, guard++)
    s.fr.push_back({f->depth_cm, f->theta, f->psi_cm, f->K_cm_per_h, f->dzdt_cm_per_h, f->layer_num, f->front_num, f->to_bottom});
  s.store = integral(I, s.fr);
}

// trace records: [-7777777, instance, length, values...]
static void rec(Inst& I, const vector<double>& v) { tr(-7777777); tr(I.id); tr((double)v.size()); for (double x : v) tr(x); }
static bool SPARSE = false;      // nobody looks at an instance before the end of its life
static vector<double> others(Inst& I);
static void trace_snap(Inst& I, const Snap& s) {
  vector<double> v(s.o, s.o + NOUT); v.push_back(s.time); v.push_back(s.nwf); v.push_back(s.ponded);
  v.insert(v.end(), s.pth.begin(), s.pth.end()); v.insert(v.end(), s.pz.begin(), s.pz.end());
  for (auto& f : s.fr) { v.push_back(f.d); v.push_back(f.th); v.push_back(f.psi); v.push_back(f.lay); }
  if (PR == "C08" || PR == "C09") { auto x = others(I); v.insert(v.end(), x.begin(), x.end()); }
  rec(I, v);
}

static void refsetup(Inst& I) {
  InstCfg& c = I.cfg;
  I.cum.assign(1, 0.0); for (double t : c.thick) I.cum.push_back(I.cum.back() + t);
  I.soil.clear(); for (int s : c.layer_soil) I.soil.push_back(s >= 1 && s <= (int)c.soils.size() ? c.soils[s - 1] : Soil());
  int cap = c.max_soils ? min(c.max_soils, 15) : 15;
  I.invalid = false; for (size_t l = 0; l < c.thick.size() && l < c.layer_soil.size(); l++) if (c.layer_soil[l] > cap) I.invalid = true;
  I.pond_max = c.ponded_max; I.fc = c.fc;
  I.csoil = I.soil; I.c_fc = I.fc; I.c_pond = I.pond_max; I.calib_armed = c.calib;
  double steps_per_h = 3600.0 / c.res_s; int factor = max(1, (int)floor(steps_per_h + 1e-6));
  I.ord.clear();
  for (double g : c.giuh) for (int j = 0; j < factor; j++) I.ord.push_back(g / factor);
  I.queue.assign(I.ord.size() + 1, 0.0);
  I.P = I.PET = -1; I.lastP = 0; I.updates = 0; I.T.clear(); I.fac.assign(c.thick.size(), 1.0); I.ptr.clear(); I.resid_n = 0; I.nsub = 0;
  I.cumP = I.cumPET = I.cumAET = I.cumR = I.cumG = I.cumPerc = I.cumInf = I.cumQ = I.calib_total = I.passP = 0;
}

static void check_profile(Inst& I, const Snap& s, const char* when) {
  size_t n = s.fr.size(); int L = I.cfg.thick.size();
  if (n == 0) { VIOL("C05", "empty", "no wetting fronts %s", when); return; }
  double prevd = 0; int prevl = 1;
  for (size_t i = 0; i < n; i++) {
    const Fr& f = s.fr[i];
    if (!(std::isfinite(f.d) && std::isfinite(f.th) && std::isfinite(f.psi))) VIOL("C05", "not-finite", "front %zu: depth %g theta %g psi %g (%s)", i + 1, f.d, f.th, f.psi, when);
    if (f.num != (int)i + 1) VIOL("C05", "numbering", "front at position %zu carries number %d (%s)", i + 1, f.num, when);
    if (f.lay < 1 || f.lay > L) { VIOL("C05", "layer-range", "front %zu in layer %d of %d (%s)", i + 1, f.lay, L, when); continue; }
    if (f.lay < prevl || f.lay > prevl + 1) VIOL("C05", "layer-order", "front %zu jumps from layer %d to %d (%s)", i + 1, prevl, f.lay, when);
    if (i == 0 && f.lay != 1) VIOL("C05", "top-layer", "topmost front is in layer %d (%s)", f.lay, when);
    const Soil& so = I.soil[f.lay - 1];
    meter("theta_above_e", f.th - so.te); meter("theta_below_r", so.tr - f.th);
    if (f.th > so.te + 1e-9) VIOL("C05", "theta-high", "front %zu theta %.12g > theta_e %.12g (%s)", i + 1, f.th, so.te, when);
    if (f.th < so.tr - 1e-9) VIOL("C05", "theta-low", "front %zu theta %.12g < theta_r %.12g (%s)", i + 1, f.th, so.tr, when);
    if (f.psi < -1e-9) VIOL("C05", "psi-neg", "front %zu psi %.12g", i + 1, f.psi);
    double dd = prevd - f.d; meter("depth_disorder", dd);
    if (dd > 1e-9) VIOL("C05", "depth-order", "front %zu depth %.12g above previous %.12g (%s)", i + 1, f.d, prevd, when);
    if (f.d <= 0) VIOL("C05", "depth-neg", "front %zu depth %.12g (%s)", i + 1, f.d, when);
    meter("above_layer", I.cum[f.lay - 1] - f.d); meter("below_layer", f.d - I.cum[f.lay]);
    if (f.d < I.cum[f.lay - 1] - 1e-9 || f.d > I.cum[f.lay] + 1e-9) VIOL("C05", "outside-layer", "front %zu depth %.12g outside its layer %d [%.12g,%.12g] (%s)", i + 1, f.d, f.lay, I.cum[f.lay - 1], I.cum[f.lay], when);
    bool last_in_layer = i + 1 == n || s.fr[i + 1].lay != f.lay;
    if (last_in_layer) {
      meter("bottom_gap", fabs(f.d - I.cum[f.lay]));
      if (fabs(f.d - I.cum[f.lay]) > 1e-9) VIOL("C05", "layer-gap", "deepest front of layer %d at %.12g, layer bottom %.12g (%s)", f.lay, f.d, I.cum[f.lay], when);
      if (!f.bot) VIOL("C05", "to-bottom-flag", "deepest front of layer %d not flagged as touching the bottom (%s)", f.lay, when);
    } else {
      if (f.bot) VIOL("C05", "to-bottom-flag2", "front %zu flagged as touching the bottom but it is not the deepest of its layer (%s)", i + 1, when);
      meter("dry_over_wet", s.fr[i + 1].th - f.th);
      if (s.fr[i + 1].th - f.th > 1e-9) VIOL("C05", "dry-over-wet", "front %zu theta %.12g drier than the one below %.12g (%s)", i + 1, f.th, s.fr[i + 1].th, when);
    }
    if (i + 1 < n && s.fr[i + 1].lay != f.lay) { double j = fabs(f.psi - s.fr[i + 1].psi) / (1 + fabs(f.psi)); meter("psi_jump_rel", j);      // near saturation many heads round to one moisture
      if (j > 1e-4 && fabs(theta_h(f.psi, I.soil[s.fr[i + 1].lay - 1]) - s.fr[i + 1].th) > 1e-12) VIOL("C05", "psi-jump", "capillary head jumps from %.12g to %.12g across the bottom of layer %d (%s)", f.psi, s.fr[i + 1].psi, f.lay, when); }
    double inc = fabs(theta_h(f.psi, so) - f.th); meter("theta_psi_incons", inc);
    if (inc > 1e-6) VIOL("C05", "retention", "front %zu theta %.12g but the retention curve at psi %.12g gives %.12g (%s)", i + 1, f.th, f.psi, theta_h(f.psi, so), when);
    prevd = f.d; prevl = f.lay;
  }
  for (size_t i = 0; i < n; i++) { const Fr& f = s.fr[i]; if (f.lay < 1 || f.lay > L) continue; const Soil& so = I.soil[f.lay - 1];
    double Se = (f.th - so.tr) / (so.te - so.tr), m = 1 - 1 / so.n, ks = so.ks * (I.cfg.sft && I.updates ? I.fac[f.lay - 1] : 1.0);
    auto KS = [&](double x) { x = min(1.0, x); return ks * sqrt(x) * pow(1 - pow(1 - pow(x, 1 / m), m), 2); };
    double K = KS(Se), e = fabs(K - f.K) / (ks + 1e-300); if (e > 1e-6) e = max(0.0, max(KS(Se - 4e-15) - f.K, f.K - KS(Se + 4e-15))) / (ks + 1e-300);   // near saturation K hangs on the last digits of the moisture
    if (f.bot) continue;      // a front resting on its layer's bottom does not move; its conductivity is not in use
    meter("K_err", e);
    if (e > 1e-6) { VIOL("C05", "conductivity", "front %zu at theta %.12g carries conductivity %.9g cm/h, its soil gives %.9g (%s)", i + 1, f.th, f.K, K, when);
      VIOL("C13", "conductivity", "front %zu at theta %.12g carries conductivity %.9g cm/h, its soil at the current temperature gives %.9g (%s)", i + 1, f.th, f.K, K, when); } }
  if (s.fr.back().lay != L) VIOL("C05", "missing-layers", "profile ends in layer %d of %d (%s)", s.fr.back().lay, L, when);
}

static void sig_of(const Inst& I, const Snap& s) {
  uint64_t h = 1469598103934665603ull; auto mix = [&](uint64_t v) { h = (h ^ v) * 1099511628211ull; };
  mix(I.cfg.thick.size()); mix(s.fr.size());
  for (auto& f : s.fr) { mix(f.lay * 4 + f.bot * 2 + 1); double te = I.soil[max(1, min(f.lay, (int)I.soil.size())) - 1].te; mix(f.th > te - 1e-9); }
  mix(s.ponded > 0); mix(I.P > 0); mix(I.PET > 0); mix(s.o[Q_PERC] != 0); mix(s.o[Q_RUNOFF] > 0); mix(s.o[Q_AET] > 0); mix(I.cfg.adaptive); mix(I.cfg.closedG); mix(I.cfg.sft);
  sigbit(h);
}

static int substeps(const Inst& I, double ponded_before) {     // documented sub-stepping rule
  double res = I.cfg.res_s, dt = I.cfg.dt_s;
  if (I.cfg.adaptive) { double s = res; if (I.P > 10 || ponded_before > 0) s = dt; else if (I.P > 0) s = 2 * dt; dt = min(s, res); }
  return (int)ceil(res / dt * (1 - 1e-9) - 1e-9);
}

static void ref_frozen(Inst& I) {     // Wang et al. eq. 6 on the layer-mean temperature, kept within [0.05, 1]
  size_t c = 0;
  for (size_t l = 0; l < I.cfg.thick.size(); l++) {
    double s = 0; int k = 0;
    while (c < I.cfg.soil_z.size() && I.cfg.soil_z[c] <= I.cum[l + 1]) { s += I.T[c]; c++; k++; }
    double f = exp(-10 * (273.15 - s / k)); I.fac[l] = max(0.05, min(1.0, f));
  }
}


// a moisture step too small to resolve a velocity from
static bool fr_skip(const vector<Fr>& fr, size_t i) { return fr[i].th - fr[i + 1].th < 1e-7; }

// ------------------------------------------------------------------ layered Green-Ampt reference (C19)
// Conductivity is singular at saturation: one unit in the last place of the moisture can be a per-mille of K.  NOISE moves the
// effective saturation by that much, so that a result within the law's own rounding range is not mistaken for a wrong one.
static double NOISE = 0; static const double NOISES[7] = {0, 3e-16, -3e-16, 1e-15, -1e-15, 4e-15, -4e-15};
static double K_se(double se, double ks, const Soil& s) { if (NOISE != 0) se = min(1.0, se + NOISE); double m = 1 - 1 / s.n; return ks * sqrt(se) * pow(1 - pow(1 - pow(se, 1 / m), m), 2); }
static double se_h(double h, const Soil& s) { return h < 1e-10 ? 1.0 : 1.0 / pow(1 + pow(s.alpha * h, s.n), 1 - 1 / s.n); }
// capillary drive between the moisture of a front (hi) and the one below it (lo); thr: the integration's step-control threshold
static bool AMBIG = false;      // an integration step was decided within rounding of its threshold
static double Gref(const Inst& I, const Soil& s, double lo, double hi, double thr) {
  double sl = (lo - s.tr) / (s.te - s.tr), sh = (hi - s.tr) / (s.te - s.tr);
  if (I.cfg.closedG) {
    double m = 1 - 1 / s.n, p = 1 + 2 / m, lam = 2 / (p - 3), pb = (p + 3) * (147.8 + 8.1 * p + .092 * p * p) / (2 * s.alpha * p * (p - 1) * (55.6 + 7.4 * p + p * p));
    double H = pb * (2 + 3 * lam) / (1 + 3 * lam), e = 3 + 1 / lam, a = pow(sh, e), b = pow(sl, e), g = H * (a - b) / (1 - b); return std::isfinite(g) ? g : H;
  }
  if (NOISE != 0) hi = min(s.te, hi + NOISE * s.te);
  double hi_ = h_theta(lo, s), hf = h_theta(hi, s), dh = (hi_ - hf) / 120 * .01, g = 0, k1 = K_se(sl, 1, s), h2 = hf + dh;
  while (h2 < hi_) { double k2 = K_se(se_h(h2, s), 1, s); double q = (k1 - k2) / k2; if (fabs(q - thr) < 1e-6 * thr) AMBIG = true; dh *= q > thr ? .5 : 10; g += (k1 + k2) * dh / 2; k1 = k2; h2 += dh; }
  return fabs(g);
}
static double KSAT(const Inst& I, int l) { return I.soil[l - 1].ks * (I.cfg.sft ? I.fac[l - 1] : 1.0); }
static double vel(const Inst& I, const vector<Fr>& fr, size_t i, double hp, double thr) {
  const Fr& f = fr[i]; int l = f.lay; const Soil& s = I.soil[l - 1]; double ks = KSAT(I, l), dth = f.th - fr[i + 1].th, v = 0;
  if (dth > 0) {
    double G = Gref(I, s, fr[i + 1].th, f.th, thr), grav;
    if (l == 1) grav = f.K;
    else { double den = (f.d - I.cum[l - 1]) / f.K; for (int j = 1; j < l; j++) { const Soil& t = I.soil[j - 1]; den += (I.cum[j] - I.cum[j - 1]) / K_se((theta_h(f.psi, t) - t.tr) / (t.te - t.tr), KSAT(I, j), t); } grav = f.d / den; }
    v = (ks * (G + hp) / f.d + grav) / dth;
  }
  if (v == 0) v = 1e-9; return min(v, 1e4);
}

// water carried by one front: what it holds above the state below it, extended to the surface at its capillary head
static double front_water(const Inst& I, const vector<Fr>& fr, size_t i) {
  const Fr& f = fr[i]; double m = (f.d - I.cum[f.lay - 1]) * (f.th - fr[i + 1].th);
  for (int j = 1; j < f.lay; j++) m += (I.cum[j] - I.cum[j - 1]) * (theta_h(f.psi, I.soil[j - 1]) - theta_h(fr[i + 1].psi, I.soil[j - 1]));
  return m;
}

// ------------------------------------------------------------------ reference of one sub-step with its structural changes (C24)
// Moves every front by velocity x time, thins it by its own water, then lets fronts that met merge, fronts that reached a layer
// bottom enter the next layer and a front that reached the column's bottom drain.  false: a case the rules leave open (saturation,
// reversed order, an event decided by rounding), nothing to compare.
static bool SATDEEP = false;     // a front over several layers filled up: the model may then drop ET
static bool ref_step(const Inst& I, vector<Fr> f, double gain, double dt, vector<Fr>& out, double& perc, int ev[6], double supply, double thr, double* inf = nullptr, double* adj = nullptr) {
  const double EPS = 1e-7; int L = (int)I.cfg.thick.size(); double bottom = I.cum[L]; auto S = [&](int l) -> const Soil& { return I.soil[l - 1]; };
  for (auto& x : f) x.num = 0; vector<Fr> o = f; size_t n = f.size(), fd = 0; while (fd + 1 < n && f[fd].lay != f[fd + 1].lay) fd++;
  auto full = [&](const Fr& x) { return x.th == S(x.lay).te; };
  auto sane = [&](const Fr& x) { return full(x) ? x.psi == 0 : x.th < S(x.lay).te && x.th > S(x.lay).tr + 1e-7 && x.psi > 1e-8 && x.psi < 1e6; };
  for (auto& x : f) if (!sane(x)) return false;
  for (size_t i = n; i-- > 0;) {
    Fr& x = f[i];
    if (x.bot && i + 1 < n) { x.psi = f[i + 1].psi; x.th = theta_h(x.psi, S(x.lay)); continue; }
    if (i + 1 == n && n != (size_t)L) continue;                     // the state below all moving fronts
    if (!x.bot) { if (x.dz <= 0) return false; x.d += x.dz * dt; if (x.lay == 1) { if (x.d > bottom * (1 + 1e-7)) x.num = -1; x.d = min(x.d, bottom); } }
    double g = i == fd ? gain : 0;
    auto below = [&](const vector<Fr>& v, size_t j, int l) { return j + 1 < n ? (l == v[j].lay ? v[j + 1].th : theta_h(v[j + 1].psi, S(l))) : 0.0; };
    double w = (o[i].d - I.cum[x.lay - 1]) * (o[i].th - below(o, i, x.lay)); for (int j = 1; j < x.lay; j++) w += I.cfg.thick[j - 1] * (theta_h(o[i].psi, S(j)) - below(o, i, j));
    w += g;
    if (x.lay == 1 && !x.bot) { x.th = w / x.d + f[i + 1].th; if (!(x.th > S(1).tr + 1e-7)) return false; if (x.th > S(1).te + 1e-9 || full(o[i]) && fabs(x.th - S(1).te) < 1e-15) { x.th = S(1).te; x.psi = 0; } else x.psi = h_theta(x.th, S(1)); }
    else {
      auto W = [&](double psi) { double m = (x.d - I.cum[x.lay - 1]) * (theta_h(psi, S(x.lay)) - below(f, i, x.lay)); for (int j = 1; j < x.lay; j++) m += I.cfg.thick[j - 1] * (theta_h(psi, S(j)) - below(f, i, j)); return m; };
      double a = log(1e-9), b = log(1e7); if (W(exp(b)) > w) return false;
      if (W(0) < w - 1e-9 && !x.bot) { SATDEEP = true; x.psi = 0; x.th = S(x.lay).te; continue; }
      if (fabs(W(0) - w) < 1e-11 && o[i].psi == 0) { x.psi = 0; x.th = S(x.lay).te; continue; }
      if (W(exp(a)) < w) return false;
      for (int k = 0; k < 100; k++) { double m = .5 * (a + b); (W(exp(m)) > w ? a : b) = m; }
      x.psi = exp(.5 * (a + b)); x.th = theta_h(x.psi, S(x.lay));
    }
    if (!sane(x)) return false;
  }
  auto close = [&](double a, double b) { return fabs(a - b) < EPS * (1 + fabs(b)); };
  bool open = false; double dropped = 0;
  // a front drier than the one below it in its layer is given up; the water this adds to the column is taken back from ET
  auto dry = [&]() { for (size_t i = 0; i + 1 < f.size(); i++) if (f[i].lay == f[i + 1].lay && fabs(f[i].th - f[i + 1].th) < 1e-5) { open = true; return; }
    for (size_t i = 0; i + 1 < f.size(); i++) if (f[i].lay == f[i + 1].lay && f[i].th < f[i + 1].th) {
      double before = integral(I, f); int k = f[i].lay; f.erase(f.begin() + i);
      for (size_t j = 0; j < f.size() && f[j].lay < k; j++) { f[j].psi = f[i].psi; f[j].th = theta_h(f[j].psi, S(f[j].lay)); }
      dropped += fabs(integral(I, f) - before); ev[5]++; } };
  auto cross = [&]() { for (size_t i = 0; i + 1 < f.size(); i++) { Fr &x = f[i], &y = f[i + 1]; if (x.lay >= L || x.bot || !y.bot || y.lay != x.lay) continue; double z = I.cum[x.lay]; if (close(x.d, z)) open = true; if (!(x.d > z)) continue; if (!(x.th > y.th + 1e-5)) { open = true; return; }
      double over = (x.d - z) * (x.th - y.th), th = theta_h(x.psi, S(x.lay + 1)), step = th - f[i + 2].th; if (step < 1e-4) { open = true; return; }
      x.d = z; y.lay = x.lay + 1; y.psi = x.psi; y.th = th; y.d = z + over / step; x.bot = true; y.bot = false; ev[1]++; if (!sane(y)) open = true; } };
  auto merge = [&]() { for (size_t i = 0; i + 1 < f.size(); i++) { Fr &x = f[i], &y = f[i + 1]; if (x.lay != y.lay || y.bot) continue; if (close(x.d, y.d)) open = true; if (!(x.d > y.d)) continue; const Fr& z = f[i + 2]; if (x.th - z.th < 1e-4) { open = true; return; }
      x.d = (x.d * (x.th - y.th) + y.d * (y.th - z.th)) / (x.th - z.th); f.erase(f.begin() + i + 1); ev[0]++; i = (size_t)-1; } };
  auto past = [&]() { for (auto& x : f) if (x.d > I.cum[x.lay]) return true; return false; };
  cross(); if (open) return false;
  fd = 0; while (fd + 1 < f.size() && f[fd].lay != f[fd + 1].lay) fd++;
  if (full(f[fd])) {                                                  // a saturated active front takes what it cannot hold deeper
    double lack = integral(I, o) + gain - integral(I, f); bool rest = fabs(lack) < 1e-11;
    if (!rest) { if (fd + 1 >= f.size() || f[fd].bot || f[fd].th - f[fd + 1].th < 1e-3) return false;
    f[fd].d += lack / (f[fd].th - f[fd + 1].th); if (!(f[fd].d > I.cum[f[fd].lay - 1] + 1e-9)) return false; } ev[4]++;
  }
  dry(); if (open) return false; merge(); if (open) return false; cross(); if (!open) dry(); if (open) return false; merge(); if (open) return false;
  for (int k = 0; k < L && past(); k++) { cross(); if (!open) dry(); if (open) return false; merge(); if (open) return false; }
  perc = 0;
  for (size_t k = f.size(); k > 0; k--) { size_t m = f.size(); if (m < 2) break; Fr &x = f[m - 2], &y = f[m - 1]; if (x.bot || x.lay != y.lay) break; if (close(x.d, bottom) && !(x.num == -1 && x.d == bottom)) return false; if (!(x.d >= bottom)) break; perc += (x.th - y.th) * (x.d - y.d); y.th = x.th; y.psi = x.psi; f.erase(f.begin() + (m - 2)); ev[2]++; }
  dry(); if (open) return false; if (dropped > 0) { if (!adj || fabs(dropped - 1e-7) < 1e-9) return false; *adj = dropped > 1e-7 ? dropped : 0; }
  if (supply > 0) {                                                  // a new front, which may at once have overtaken another
    double dth = S(1).te - f[0].th, tau = dt * KSAT(I, 1) / dth; if (dth < 1e-10) return false;
    double G = Gref(I, S(1), f[0].th, S(1).te, thr), dry = min(I.cum[1], .5 * (tau + sqrt(tau * tau + 4 * tau * G)));
    Fr x = f[0]; x.lay = 1; x.bot = false; x.d = dry; x.th = dry * dth > supply ? f[0].th + supply / dry : S(1).te; x.psi = x.th >= S(1).te ? 0 : h_theta(x.th, S(1));
    if (!(x.th > f[0].th) || fabs(dry * dth - supply) < 1e-10) return false;
    if (inf) *inf = min(supply, dry * dth);
    f.insert(f.begin(), x); ev[3]++;
    if (close(x.d, f[1].d) && !(x.d == I.cum[1] && f[1].d == I.cum[1] && .5 * (tau + sqrt(tau * tau + 4 * tau * G)) > I.cum[1] * (1 + 1e-7))) return false;
    if (x.d > f[1].d) { merge(); if (open) return false; cross(); if (open) return false; }
  }
  out = f; return true;
}
// ------------------------------------------------------------------ reference of a whole forcing interval (C25)
// Sub-steps as the rule prescribes, each of them ET, creation or infiltration, ponding and runoff, movement, new velocities.
struct RefRun { vector<Fr> f; double pond = 0, prevP = 0, inf = 0, run = 0, aet = 0, perc = 0; int ev[6] = {0, 0, 0, 0, 0, 0}; };
static bool ref_interval(const Inst& I, RefRun& r, int ns, double P, double PET) {
  double dt = I.cfg.res_s / 3600.0 / ns, p = P / ns; int L = (int)I.cfg.thick.size(); AMBIG = SATDEEP = false;
  double cap = 0; for (int j = 1; j <= L; j++) cap += I.soil[j - 1].te * (I.cum[j] - I.cum[j - 1]);
  const Soil& t = I.soil[0]; double ps = h_theta(.5 * (theta_h(I.fc, t) + theta_h(I.cfg.wp, t)), t);
  for (int c = 0; c < ns; c++) {
    double aet = PET > 0 ? PET / ns / (1 + pow(r.f[0].psi / ps, 3)) : 0, hp = 0, in = 0, out = 0, perc = 0, adj = 0, supply; vector<Fr> q;
    if (r.pond <= 1e-12) r.pond = 0;
    supply = p + r.pond;
    if (r.prevP == 0 && p > 0 && r.f[0].th + 1e-12 < t.te && r.pond == 0) {
      if (!ref_step(I, r.f, -aet, dt, q, perc, r.ev, p, .02, &in, &adj)) return false;
      double rest = p - in; if (I.pond_max > 0 && fabs(rest - I.pond_max) < 1e-9) return false;
      if (rest < I.pond_max) r.pond = rest; else { out = rest - I.pond_max; hp = r.pond = I.pond_max; }
    } else {
      if (supply > 0) {
        size_t k = 0; while (k + 1 < r.f.size() && r.f[k].lay != r.f[k + 1].lay) k++;
        const Fr& f = r.f[k]; int l = f.lay; double ks = KSAT(I, l), fp; bool bare = (int)r.f.size() == L;
        bool sat = l == L && bare && f.th == t.te; if (c > 0 && l == L && bare && fabs(f.th - t.te) < 1e-9 && aet < cap - integral(I, r.f) + 1e-9) return false;
        double G = bare ? 0 : Gref(I, I.soil[l - 1], r.f[k + 1].th, I.soil[l - 1].te, .02);
        if (l == 1) fp = ks * (1 + (G + r.pond) / f.d);
        else { double den = (f.d - I.cum[l - 1]) / ks; for (int j = 1; j < l; j++) den += (I.cum[j] - I.cum[j - 1]) / KSAT(I, j); fp = f.d / den + (G + r.pond) * ks / f.d; }
        if (sat) fp = min(fp, aet / dt);
        in = min(supply, min(fp * dt, cap - integral(I, r.f)));
        double rest = supply - in;
        if (rest > I.pond_max) { out = rest - I.pond_max; rest = I.pond_max; }
        hp = r.pond = rest;
      }
      if (!ref_step(I, r.f, in - aet, dt, q, perc, r.ev, 0, .02, nullptr, &adj)) return false;
    }
    if (SATDEEP && aet > 0) return false;
    r.inf += in; r.run += out; r.aet += aet - adj; r.perc += perc; r.prevP = p; r.f = q;
    for (auto& x : r.f) { const Soil& s = I.soil[x.lay - 1]; x.K = K_se((x.th - s.tr) / (s.te - s.tr), KSAT(I, x.lay), s); }
    for (size_t i = 0; i < r.f.size(); i++) r.f[i].dz = i + 1 == r.f.size() || r.f[i].bot ? 0 : vel(I, r.f, i, hp, .02);
  }
  return !AMBIG;
}
static double ref_dist(const RefRun& r, const vector<Fr>& f, double pond, double inf, double run, double aet, double perc, string& w) {
  double worst = 0; char b[320]; auto tell = [&](double e, const char* n, double got, double want) { if (e > worst) { worst = e; snprintf(b, sizeof b, "%s %.12g, the laws applied to the state before the interval give %.12g", n, got, want); w = b; } };
  if (f.size() != r.f.size()) { tell(1e9, "number of fronts", f.size(), r.f.size()); return worst; }
  for (size_t i = 0; i < f.size(); i++) { string n = "front " + to_string(i + 1); if (f[i].lay != r.f[i].lay) tell(1e8, (n + " in layer").c_str(), f[i].lay, r.f[i].lay); tell(fabs(f[i].d - r.f[i].d) / (1 + r.f[i].d), (n + " depth").c_str(), f[i].d, r.f[i].d); tell(fabs(f[i].th - r.f[i].th), (n + " moisture").c_str(), f[i].th, r.f[i].th); }
  tell(fabs(inf - r.inf), "infiltration", inf, r.inf); tell(fabs(run - r.run), "runoff", run, r.run); tell(fabs(aet - r.aet), "evapotranspiration", aet, r.aet); tell(fabs(perc - r.perc), "percolation", perc, r.perc); tell(fabs(pond - r.pond), "ponding", pond, r.pond);
  return worst;
}
static void check_interval(Inst& I, const double* o, double P, double PET, double prevP) {
  Snap &p = I.prev, &c = I.cur; int ns = substeps(I, p.ponded); if (p.fr.empty() || c.fr.empty()) return;
  for (auto& f : c.fr) if (f.lay < 1 || f.lay > (int)I.cfg.thick.size()) return;
  RefRun r; r.f = p.fr; r.pond = p.ponded; r.prevP = prevP;
  if (!ref_interval(I, r, ns, P, PET)) { count("probe:interval-open"); return; }
  string w; double e = ref_dist(r, c.fr, c.ponded, o[Q_INF], o[Q_RUNOFF], o[Q_AET], o[Q_PERC], w);
  if (e > 1e-8) {       // how much does rounding of the state before matter?
    for (double z : NOISES) {
      RefRun s; string x; s.f = p.fr; s.pond = p.ponded; s.prevP = prevP; if (z == 0) for (auto& f : s.f) { const Soil& so = I.soil[f.lay - 1]; f.dz *= 1 + 1e-10; if (!f.bot) f.d *= 1 - 1e-9; if (f.psi > 0) { f.psi *= 1 + 1e-9; f.th = theta_h(f.psi, so); } }
      NOISE = z; bool ok = ref_interval(I, s, ns, P, PET); NOISE = 0;
      if (!ok || ref_dist(r, s.f, s.pond, s.inf, s.run, s.aet, s.perc, x) > 1e-7) { count("probe:interval-ill-conditioned"); return; }
    }
  }
  count("probe:interval-law"); if (ns > 1) count("probe:interval-many-substeps"); if (I.cfg.adaptive) count("probe:interval-adaptive"); if (r.run > 0) count("probe:interval-runoff"); if (r.ev[0]) count("probe:interval-merge"); if (r.ev[1]) count("probe:interval-crossing"); if (r.ev[2]) count("probe:interval-drainage"); if (r.ev[3]) count("probe:interval-creation"); if (r.ev[4]) count("probe:interval-saturated");
  meter("interval_law_err", e);
  if (!(e <= 5e-6)) VIOL("C25", "interval", "%s (%d sub-steps)", w.c_str(), ns);
}
static const double THR[3] = {.02, .02 * (1 + 1e-7), .02 * (1 - 1e-7)};
static void check_greenampt(Inst& I, bool calibrated, const double* o, double P, double PET, double prevP) {
  Snap &p = I.prev, &c = I.cur; int L = I.cfg.thick.size(); double dt = I.cfg.res_s / 3600.0;
  for (auto& f : c.fr) if (f.lay < 1 || f.lay > L) return;
  if (p.fr.empty() || c.fr.empty()) return;
  bool one = substeps(I, p.ponded) == 1;
  double pond0 = p.ponded > 1e-12 ? p.ponded : 0, gap = I.soil[0].te - p.fr[0].th; bool sat = gap <= 1e-12, unsure = calibrated || fabs(gap - 1e-12) < 1e-11;
  bool create = prevP == 0 && P > 0 && !sat && pond0 == 0;
  double hps[2] = {c.ponded, c.ponded}; int nh = 1;
  if (one && (create || unsure)) { hps[0] = c.ponded < I.pond_max ? 0 : I.pond_max; if (unsure) { hps[1] = c.ponded; nh = 2; } }
  for (size_t i = 0; i + 1 < c.fr.size(); i++) {
    const Fr& f = c.fr[i];
    if (f.bot) { if (f.dz != 0) VIOL("C19", "resting", "front %zu rests on its layer's bottom but carries velocity %.9g cm/h", i + 1, f.dz); continue; }
    if (fr_skip(c.fr, i)) { count("probe:velocity-unresolved"); continue; }
    double best = 1e300, w = 0; for (int h = 0; h < nh && best > 1e-6; h++) for (int t = 0; t < 3 && best > 1e-6; t++) { double v = vel(I, c.fr, i, hps[h], THR[t]), e = fabs(v - f.dz) / (fabs(v) + 1e-9); if (e < best) { best = e; w = v; } }
    if (best > 1e-6) { double lo = w, hi = w; for (double z : NOISES) for (int h = 0; h < nh; h++) for (double t : THR) { NOISE = z; double v = vel(I, c.fr, i, hps[h], t); NOISE = 0; lo = min(lo, v); hi = max(hi, v); }
      double e = max(0.0, max(lo - f.dz, f.dz - hi)) / (fabs(w) + 1e-9); if (e < best) { best = e; count("probe:velocity-noise"); } }
    meter(f.lay == 1 ? "vel_err" : "vel_err_deep", best); count(f.lay == 1 ? "probe:velocity-top" : "probe:velocity-deep"); if (c.ponded > 0) count("probe:velocity-ponded");
    if (!(best <= 1e-5)) VIOL("C19", "velocity", "front %zu in layer %d at %.9g cm, moisture %.9g over %.9g: moves at %.9g cm/h, the Green-Ampt law gives %.9g cm/h", i + 1, f.lay, f.d, f.th, c.fr[i + 1].th, f.dz, w);
  }
  if (!one || calibrated) return;
  // fronts move by velocity x time (single sub-step), as long as nothing merges, crosses or fills up
  if (!unsure) {
    size_t k = create ? 1 : 0, n = p.fr.size(); bool still = c.fr.size() == n + k; vector<double> q(n);
    for (size_t i = 0; i < n; i++) q[i] = p.fr[i].d + (p.fr[i].bot ? 0 : p.fr[i].dz * dt);
    for (size_t i = 0; i < n && still; i++) { if (c.fr[i + k].lay != p.fr[i].lay) still = false; if (!p.fr[i].bot && !(q[i] < q[i + 1] - 1e-6)) still = false; if (c.fr[i + k].th > I.soil[c.fr[i + k].lay - 1].te - 1e-6 && !p.fr[i].bot) still = false; }
    if (still) {
      size_t fd = 0; while (fd + 1 < n && p.fr[fd].lay != p.fr[fd + 1].lay) fd++;
      bool room = true; for (auto& f : c.fr) if (f.th < I.soil[f.lay - 1].tr + 1e-3) room = false;
      if (room) for (size_t i = 0; i + 1 < n; i++) if (!p.fr[i].bot) { double a = front_water(I, p.fr, i), b = front_water(I, c.fr, i + k), g = i == fd ? (create ? 0 : o[Q_INF]) - o[Q_AET] : 0, e = fabs(a + g - b);
        meter(p.fr[i].lay == 1 ? "front_water_err" : "front_water_err_deep", e); count(i == fd ? "probe:own-water-active" : p.fr[i].lay == 1 ? "probe:own-water" : "probe:own-water-deep");
        if (!(e <= 1e-7)) VIOL("C22", "front-water", "front %zu in layer %d held %.10g cm, %s %.10g cm, and now holds %.10g cm", i + 1, p.fr[i].lay, a, i == fd ? "as the active front gained" : "and takes part in neither infiltration nor ET: gain", g, b); }
    }
    if (still) for (size_t i = 0; i < n; i++) if (!p.fr[i].bot) { double e = fabs(c.fr[i + k].d - q[i]) / (1 + q[i]); meter("move_err", e); count("probe:moved"); if (!(e <= 1e-9)) VIOL("C19", "movement", "front %zu moved from %.12g to %.12g cm, velocity %.9g cm/h over %.9g h leads to %.12g cm", i + 1, p.fr[i].d, c.fr[i + k].d, p.fr[i].dz, dt, q[i]); }
  }
  if (!unsure && on("C24")) {
    double aet = 0; if (PET > 0) { const Soil& t = I.soil[0]; double ps = h_theta(.5 * (theta_h(I.fc, t) + theta_h(I.cfg.wp, t)), t); aet = PET / (1 + pow(p.fr[0].psi / ps, 3)); }
    vector<Fr> q; double perc = 0; int ev[6]; bool ok = false; double best = 1e300; string bad, cls;
    for (double t : THR) {
      for (int& e : ev) e = 0;
      double adj = 0; if (!ref_step(I, p.fr, (create ? 0 : o[Q_INF]) - aet, dt, q, perc, ev, create ? P : 0, t, nullptr, &adj)) { best = 0; ok = false; count("probe:law-open"); break; }
      if (!(fabs(aet - adj - o[Q_AET]) <= 1e-9)) { best = 0; ok = false; count("probe:law-aet-adjusted"); break; }
      ok = true; const char* what = ev[0] ? "merging" : ev[1] ? "crossing into the next layer" : ev[2] ? "draining at the bottom" : ev[3] ? "creation of a front" : ev[4] ? "filling" : "moving"; char b[320]; double worst = 0; string w, k;
      auto tell = [&](double e, const char* c_) { if (e > worst) { worst = e; w = b; k = c_; } };
      if (q.size() != c.fr.size()) { snprintf(b, sizeof b, "%zu fronts after %s, the rules leave %zu", c.fr.size(), what, q.size()); tell(1e9, "fronts"); }
      else {
        { double e = fabs(perc - o[Q_PERC]) / (1 + perc) * 10; snprintf(b, sizeof b, "percolation %.12g cm, the front that reached the bottom releases %.12g cm", o[Q_PERC], perc); tell(e, "drainage"); }
        for (size_t i = 0; i < q.size(); i++) { const Fr& x = c.fr[i]; double e = x.lay != q[i].lay ? 1e9 : max(fabs(x.d - q[i].d) / (1 + q[i].d), fabs(x.th - q[i].th)); if (e > worst) {
          snprintf(b, sizeof b, "after %s front %zu is at %.10g cm with moisture %.10g in layer %d, the rules give %.10g cm, %.10g, layer %d", what, i + 1, x.d, x.th, x.lay, q[i].d, q[i].th, q[i].lay); tell(e, ev[0] ? "merge" : ev[1] ? "crossing" : ev[2] ? "bottom" : ev[3] ? "creation" : "plain"); } }
      }
      if (worst < best) { best = worst; bad = w; cls = k; }
      if (best <= 1e-9 || !create) break;
    }
    if (ok) {
      count("probe:substep-law"); if (ev[0]) count("probe:law-merge"); if (ev[1]) count("probe:law-crossing"); if (ev[2]) count("probe:law-drainage"); if (ev[3]) count("probe:law-creation"); if (ev[4]) count("probe:law-saturated"); if (ev[0] + ev[1] + ev[2] + ev[3] > 1) count("probe:law-several-events");
      meter("substep_law_err", best);
      if (!(best <= 1e-6)) {
        if (cls == "merge") VIOL("C24", "merge", "%s", bad.c_str()); else if (cls == "crossing") VIOL("C24", "crossing", "%s", bad.c_str()); else if (cls == "bottom") VIOL("C24", "bottom", "%s", bad.c_str()); else if (cls == "drainage") VIOL("C24", "drainage", "%s", bad.c_str());
        else if (cls == "fronts") VIOL("C24", "fronts", "%s", bad.c_str()); else if (cls == "creation") VIOL("C24", "creation", "%s", bad.c_str()); else VIOL("C24", "plain", "%s", bad.c_str());
      }
    }
  }
  if (unsure) return;
  double supply = P + pond0;
  if (supply <= 0) return;
  if (create) {            // a new front: its depth and content follow the dry-depth rule
    if (c.fr.size() < 2 || c.fr[0].bot || c.fr[1].lay != 1 || c.fr.size() != p.fr.size() + 1 || fr_skip(c.fr, 0)) return;
    double th1 = c.fr[1].th, dth = I.soil[0].te - th1, best = 1e300, dry = 0; if (dth < 1e-6) return;
    double tau = dt * KSAT(I, 1) / dth;
    for (double z : NOISES) for (double t : THR) if (best > 1e-7) { NOISE = z; double G = Gref(I, I.soil[0], th1, I.soil[0].te, t); NOISE = 0; double d = min(I.cum[1], .5 * (tau + sqrt(tau * tau + 4 * tau * G))), e = fabs(d - c.fr[0].d) / d; if (e < best) { best = e; dry = d; } }
    double in = min(supply, dry * dth), e2 = fabs(in - o[Q_INF]); meter("dry_depth_err", best); meter("created_inf_err", e2); count("probe:front-created-law");
    if (!(best <= 1e-6)) VIOL("C19", "new-front-depth", "new front at %.12g cm, the dry-depth rule gives %.12g cm", c.fr[0].d, dry);
    if (!(e2 <= 1e-6 * (1 + in))) VIOL("C19", "new-front-infiltration", "infiltration %.12g cm into a new front, it can take %.12g of the %.12g cm supplied", o[Q_INF], dry * dth, supply);
    return;
  }
  size_t k = 0; while (k + 1 < p.fr.size() && p.fr[k].lay != p.fr[k + 1].lay) k++;
  const Fr& f = p.fr[k]; int l = f.lay; double ks = KSAT(I, l), hp = max(P + p.ponded - P, 0.0), mass = p.store, cap = 0; bool bare = (int)p.fr.size() == L;
  for (int j = 1; j <= L; j++) cap += I.soil[j - 1].te * (I.cum[j] - I.cum[j - 1]);
  double aet = 0; if (PET > 0) { const Soil& t = I.soil[0]; double ps = h_theta(.5 * (theta_h(I.fc, t) + theta_h(I.cfg.wp, t)), t); aet = PET / (1 + pow(p.fr[0].psi / ps, 3)); }
  double best = 1e300, want = 0;
  bool full0 = l == L && bare && fabs(f.th - I.soil[0].te) < 1e-9;     // decided by an exact comparison: accept either side near it
  for (int a = full0 && fabs(f.th - I.soil[0].te) == 0 ? 1 : 0; a <= (full0 ? 1 : 0); a++) for (double z : NOISES) for (double t : THR) if (best > 1e-8) {
    NOISE = z; double G = bare ? 0 : Gref(I, I.soil[l - 1], p.fr[k + 1].th, I.soil[l - 1].te, t), fp; NOISE = 0;
    if (l == 1) fp = ks * (1 + (G + hp) / f.d);
    else { double den = (f.d - I.cum[l - 1]) / ks; for (int j = 1; j < l; j++) den += (I.cum[j] - I.cum[j - 1]) / KSAT(I, j); fp = f.d / den + (G + hp) * ks / f.d; }
    if (a) fp = min(fp, aet / dt);
    fp = min(fp, (cap - mass) / dt);
    double in = min(supply, fp * dt), e = fabs(in - o[Q_INF]); if (e < best) { best = e; want = in; }
  }
  meter("inf_err", best / (1 + want)); count(want < supply - 1e-9 ? "probe:capacity-limited" : "probe:supply-limited");
  if (!(best <= 1e-6 * (1 + want))) VIOL("C19", "infiltration", "infiltration %.12g cm of %.12g cm supplied, the Green-Ampt capacity of the profile allows %.12g cm", o[Q_INF], supply, want);
}

static void check_update(Inst& I, int k) {            // k forcing intervals were simulated by this call
  Snap &p = I.prev, &c = I.cur;
  double dt = I.cfg.res_s / 3600.0;
  double P = I.P * 0.1 * dt, PET = I.PET * 0.1 * dt;     // cm that the forcing prescribes for this interval
  double o[NOUT]; for (int i = 0; i < NOUT; i++) o[i] = c.o[i] * 100.0;  // m -> cm
  for (int i = 0; i < NOUT; i++) if (!std::isfinite(o[i])) VIOL("C06", "not-finite", "%s is %g", OUT[i], o[i]);
  double tolv = 1e-9 * (1 + P + PET);
  bool r2 = REG == 2;
  meter("time_err", fabs(c.time - p.time - k * I.cfg.res_s));
  if (fabs(c.time - p.time - k * I.cfg.res_s) > 1e-7 + 1e-10 * c.time) VIOL("C07", "clock", "Update advanced %.9g s, forcing interval is %.9g s", c.time - p.time, k * I.cfg.res_s);
  double drift = fabs(c.time - (I.updates) * I.cfg.res_s); meter("time_drift", drift);
  if (drift > 1e-6 + 1e-9 * c.time) VIOL("C07", "clock-drift", "after %d intervals of %.9g s the clock reads %.9g s", I.updates, I.cfg.res_s, c.time);
  meter("precip_err", fabs(o[Q_P] - P)); meter("pet_err", fabs(o[Q_PET] - PET));
  if (fabs(o[Q_P] - P) > tolv) VIOL("C07", "precip", "precipitation reported %.12g cm, forcing %.12g mm/h over %.9g h is %.12g cm", o[Q_P], I.P, dt, P);
  if (fabs(o[Q_PET] - PET) > tolv) VIOL("C07", "pet", "PET reported %.12g cm, forcing prescribes %.12g cm", o[Q_PET], PET);
  // what calibration did to the store, per the reference: capillary heads kept, moistures from the new curves
  double dcal = 0; bool calibrated = false;
  if (I.calib_armed) {
    calibrated = true; I.calib_armed = false;
    vector<Fr> f = p.fr; I.soil = I.csoil; I.fc = I.c_fc; I.pond_max = I.c_pond;
    for (auto& x : f) if (x.lay >= 1 && x.lay <= (int)I.soil.size()) x.th = theta_h(x.psi, I.soil[x.lay - 1]);
    dcal = integral(I, f) - p.store; I.calib_total += dcal;
    if (dcal != 0) count("probe:calibrated");
  }
  double err = (p.store + p.ponded + o[Q_P] + dcal) - (o[Q_RUNOFF] + o[Q_AET] + o[Q_PERC] + c.store + c.ponded);
  meter(r2 ? "mass_err_r2" : "mass_err", fabs(err)); meter("mb_reported", fabs(o[Q_MB]));
  int ns = substeps(I, p.ponded) * k; I.nsub += ns;     // the model's own tolerance is 1e-4 cm per sub-step; deliberately extreme soils get it, ordinary ones much less
  if (!(fabs(err) <= (r2 ? 1e-4 + 1e-5 * ns : 1e-6 + 1e-7 * ns))) VIOL("C01", "step", "water balance open by %.6e cm in one interval: store %.10g->%.10g ponded %.10g->%.10g rain %.10g runoff %.10g aet %.10g perc %.10g calib %.10g", err, p.store, c.store, p.ponded, c.ponded, o[Q_P], o[Q_RUNOFF], o[Q_AET], o[Q_PERC], dcal);
  I.cumP += P; I.cumPET += PET; I.cumR += o[Q_RUNOFF]; I.cumAET += o[Q_AET]; I.cumPerc += o[Q_PERC]; I.cumG += o[Q_GIUH]; I.cumInf += o[Q_INF]; I.cumQ += o[Q_Q];
  double cerr = I.start + I.calib_total + I.cumP - I.cumR - I.cumAET - I.cumPerc - c.store - c.ponded; meter(r2 ? "cum_mass_err_r2" : "cum_mass_err", fabs(cerr));
  if (!(fabs(cerr) <= (r2 ? 4e-4 + 1e-5 * I.nsub : 1e-5 + 1e-7 * I.nsub))) VIOL("C01", "cumulative", "water balance open by %.6e cm since initialisation (%d intervals)", cerr, I.updates);
  meter("neg_perc", -o[Q_PERC]); meter("neg_store", -c.store);
  if (o[Q_PERC] < -(r2 ? 1e-4 + 1e-5 * ns : 1e-6 + 1e-7 * ns)) VIOL("C01", "neg-percolation", "percolation %.12g cm", o[Q_PERC]);
  if (!(c.store > 0)) VIOL("C01", "neg-storage", "soil storage %.12g cm", c.store);
  // C02 surface partition
  double serr = p.ponded + o[Q_P] - (o[Q_INF] + o[Q_RUNOFF] + c.ponded);
  meter("surf_err", fabs(serr));
  if (!(fabs(serr) <= 1e-9 * (1 + P))) VIOL("C02", "partition", "surface water open by %.6e cm: ponded %.10g + rain %.10g vs infiltration %.10g + runoff %.10g + ponded %.10g", serr, p.ponded, o[Q_P], o[Q_INF], o[Q_RUNOFF], c.ponded);
  meter("neg_runoff", -o[Q_RUNOFF]); meter("neg_inf", -o[Q_INF]); meter("neg_ponded", -c.ponded);
  meter("pond_over", c.ponded - I.pond_max);
  if (o[Q_RUNOFF] < -1e-9) VIOL("C02", "neg-runoff", "runoff %.12g", o[Q_RUNOFF]);
  if (o[Q_INF] < -1e-9) VIOL("C02", "neg-infiltration", "infiltration %.12g", o[Q_INF]);
  if (c.ponded < -1e-9) VIOL("C02", "neg-ponded", "ponded %.12g", c.ponded);
  if (c.ponded > I.pond_max + 1e-9) VIOL("C02", "ponded-over", "ponded %.12g > maximum %.12g", c.ponded, I.pond_max);
  if (o[Q_RUNOFF] > 1e-9 && P + p.ponded <= I.pond_max - 1e-9) VIOL("C02", "early-runoff", "runoff %.12g while rain+ponded %.12g <= max %.12g", o[Q_RUNOFF], P + p.ponded, I.pond_max);
  if (ns == k && k == 1 && o[Q_RUNOFF] > 1e-9) { count("probe:runoff-one-substep"); meter("runoff_gap", I.pond_max - c.ponded); if (c.ponded < I.pond_max - 1e-9) VIOL("C02", "runoff-below-max", "runoff %.12g while only %.12g of %.12g cm are ponded", o[Q_RUNOFF], c.ponded, I.pond_max); }
  if (P == 0 && p.ponded == 0 && (fabs(o[Q_INF]) > 1e-9 || fabs(o[Q_RUNOFF]) > 1e-9 || c.ponded > 1e-9)) VIOL("C02", "from-nothing", "no rain and dry surface, yet infiltration %.12g runoff %.12g ponded %.12g", o[Q_INF], o[Q_RUNOFF], c.ponded);
  { double hr = o[Q_RUNOFF] - (P + p.ponded); meter("runoff_over_supply", hr); }
  // C03 GIUH
  size_t N = I.ord.size();
  for (size_t i = 0; i < N; i++) I.queue[i] += I.ord[i] * o[Q_RUNOFF];
  double want = I.queue[0]; for (size_t i = 0; i + 1 < N; i++) I.queue[i] = I.queue[i + 1]; I.queue[N - 1] = 0;
  meter("giuh_err", fabs(want - o[Q_GIUH]));
  if (!(fabs(want - o[Q_GIUH]) <= 1e-9 * (1 + fabs(want)))) VIOL("C03", "routing", "routed runoff %.12g cm, unit hydrograph of the runoff history gives %.12g cm", o[Q_GIUH], want);
  if (!(fabs(o[Q_Q] - o[Q_GIUH] - o[Q_GW]) <= 1e-9)) VIOL("C03", "discharge", "total discharge %.12g != routed %.12g + groundwater %.12g", o[Q_Q], o[Q_GIUH], o[Q_GW]);
  { double inq = 0; for (double q : I.queue) inq += q; double d = I.cumR - I.cumG - inq; meter("giuh_cum_err", fabs(d));
    if (!(fabs(d) <= 1e-7 * (1 + I.cumR))) VIOL("C03", "delivery", "runoff generated %.12g cm, delivered %.12g cm, still under way %.12g cm", I.cumR, I.cumG, inq); }
  // C04 AET
  meter("aet_neg", -o[Q_AET]); meter(r2 ? "aet_over_r2" : "aet_over", o[Q_AET] - o[Q_PET]); if (I.PET == 0) meter("aet_nopet", fabs(o[Q_AET]));
  // within 1 cm of saturation the last bit of a moisture is a head that moves measurable water between layers; the model closes its balance with ET
  double etol = 1e-7; for (auto* s : {&p, &c}) for (auto& f : s->fr) if (f.psi < 1) etol = 1e-5;
  if (o[Q_AET] < -etol) VIOL("C04", "negative", "actual ET %.12g cm", o[Q_AET]);
  if (o[Q_AET] > PET + etol) VIOL("C04", "over-pet", "actual ET %.12g cm exceeds potential ET %.12g cm", o[Q_AET], PET);
  if (I.PET == 0 && fabs(o[Q_AET]) > etol) VIOL("C04", "without-pet", "actual ET %.12g cm with zero potential ET", o[Q_AET]);
  if (PET > 0 && !p.fr.empty()) {
    const Soil& t = I.soil[0]; double mid = .5 * (theta_h(I.fc, t) + theta_h(I.cfg.wp, t)), psi50 = h_theta(mid, t);
    double room = 1; for (auto& f : c.fr) if (f.lay >= 1 && f.lay <= (int)I.soil.size()) room = min(room, f.th - I.soil[f.lay - 1].tr);
    bool free_ = P == 0 && p.ponded == 0 && p.fr.size() == c.fr.size() && room > 1e-3 && etol < 1e-6;   // neither rain, merging fronts nor exhaustion interferes
    // rain on a wet surface makes no new front and leaves ET alone as well; a column filling up gives ET away
    bool freep = (P == 0 || p.ponded > 0) && p.fr.size() == c.fr.size() && room > 1e-3 && (etol < 1e-6 || (P == 0 && p.ponded == 0));
    auto aet = [&](double psi) { return PET / (1 + pow(psi / psi50, 3)); };
    if (substeps(I, p.ponded) == 1) {
      double d = aet(p.fr[0].psi), rel = fabs(o[Q_AET] - d) / (PET + 1e-12); meter(r2 ? "aet_formula_rel_r2" : "aet_formula_rel", rel); count("probe:aet-formula");
      if (rel > 1e-3) count("probe:aet-limited");
      if (freep) { meter("aet_law", rel); if (p.ponded > 0) count("probe:aet-law-ponded");
        if (fabs(o[Q_AET] - d) > 1e-6 * (PET + 1e-12) + (etol < 1e-6 ? 0 : etol)) VIOL("C04", "law", "actual ET %.12g cm, the top front's head %.9g cm under the stress law gives %.12g cm", o[Q_AET], p.fr[0].psi, d); }
      meter("aet_above_formula", o[Q_AET] - d);
      if (o[Q_AET] > d + etol) VIOL("C04", "above-law", "actual ET %.12g cm exceeds the %.12g cm the stress law allows at the top front's head %.9g cm", o[Q_AET], d, p.fr[0].psi);
    } else if (free_ && !calibrated) {
      double x = aet(p.fr[0].psi), y = aet(c.fr[0].psi), lo = min(x, y), hi = max(x, y); count("probe:aet-range");
      meter("aet_range_hi", (o[Q_AET] - hi) / PET); meter("aet_range_lo", (lo - o[Q_AET]) / PET);
      if (o[Q_AET] > hi + 1e-6 * PET || o[Q_AET] < lo - 1e-6 * PET) VIOL("C04", "law", "actual ET %.12g cm outside [%.12g, %.12g] cm, the stress law's values over the interval", o[Q_AET], lo, hi);
    }
  }
  // C06 outputs vs state
  if (c.nwf != (int)c.fr.size()) VIOL("C06", "front-count", "published %d fronts, state has %zu", c.nwf, c.fr.size());
  if (c.pth.size() != c.fr.size() || c.pz.size() != c.fr.size()) VIOL("C06", "array-size", "published arrays hold %zu/%zu, state has %zu", c.pth.size(), c.pz.size(), c.fr.size());
  else for (size_t i = 0; i < c.fr.size(); i++)
    if (!(fabs(c.pth[i] - c.fr[i].th) <= 1e-12) || !(fabs(c.pz[i] * 100 - c.fr[i].d) <= 1e-9)) VIOL("C06", "array-values", "front %zu published (%.12g m, %.12g), state (%.12g cm, %.12g)", i + 1, c.pz[i], c.pth[i], c.fr[i].d, c.fr[i].th);
  meter("storage_err", fabs(o[Q_STORE] - c.store));
  if (!(fabs(o[Q_STORE] - c.store) <= 1e-8 * (1 + c.store))) VIOL("C06", "storage", "published storage %.12g cm, profile integral %.12g cm", o[Q_STORE], c.store);
  if (fabs(o[Q_MB]) > 1.001e-4) VIOL("C06", "mass-balance-size", "published mass balance error %.6e cm", o[Q_MB]);
  if (substeps(I, p.ponded) == 1) { double d = fabs(o[Q_MB] - err); meter("mb_vs_err", d); if (!(d <= 1e-8 * (1 + c.store))) VIOL("C06", "mass-balance", "published mass balance error %.6e cm, recomputed %.6e cm", o[Q_MB], err); }
  check_profile(I, c, "after Update");
  // C12: capillary heads survive calibration; parameters in force are the calibrated ones
  if (I.cfg.sft) {
    model_state* m = I.b->get_model();
    for (size_t l = 0; l < I.fac.size(); l++) {
      double f = m->lgar_bmi_params.frozen_factor[l + 1]; meter("frozen_err", fabs(f - I.fac[l]));
      if (!(fabs(f - I.fac[l]) <= 1e-6)) VIOL("C13", "factor", "layer %zu conductivity factor %.9g, temperatures delivered last give %.9g", l + 1, f, I.fac[l]);
    }
  }
  check_greenampt(I, calibrated, o, P, PET, I.lastP); if (on("C25") && !calibrated && k == 1) check_interval(I, o, P, PET, I.lastP);
  I.lastP = I.P;
  sig_of(I, c);
  (void)calibrated;
  if (c.ponded > 0) count("probe:ponded"); if (o[Q_RUNOFF] > 0) count("probe:runoff"); if (o[Q_PERC] > 0) count("probe:percolation");
  if (o[Q_AET] > 0) count("probe:aet"); if (c.fr.size() > I.cfg.thick.size() + 2) count("probe:many-fronts");
  if (c.fr.size() < p.fr.size()) count("probe:front-merged"); if (c.fr.size() > p.fr.size()) count("probe:front-created");
  if (I.cfg.sft) { for (double f : I.fac) if (f < 1) { count("probe:frozen-layer"); break; } }
  { for (size_t i = 0; i < c.fr.size(); i++) if (c.fr[i].lay > 1 && !c.fr[i].bot) { count("probe:front-in-lower-layer"); break; } }
  if (c.fr[0].th >= I.soil[0].te - 1e-9) count("probe:saturated-top");
  meter("fronts", c.fr.size());
}

static void check_passthrough(Inst& I) {     // C18
  Snap &p = I.prev, &c = I.cur; double P = I.P * 0.001 * I.cfg.res_s / 3600.0; double tol = 1e-9 * (1 + P);
  count("probe:pass-through"); I.passP += P * 100;
  if (!(fabs(c.o[Q_Q] - P) <= tol)) VIOL("C18", "discharge", "total discharge %.12g m, rain over the interval is %.12g m", c.o[Q_Q], P);
  if (!(fabs(c.o[Q_P] - P) <= tol)) VIOL("C18", "precip", "precipitation %.12g m, rain over the interval is %.12g m", c.o[Q_P], P);
  if (!(fabs(c.o[Q_RUNOFF] - P) <= tol)) VIOL("C18", "runoff", "runoff %.12g m, rain over the interval is %.12g m", c.o[Q_RUNOFF], P);
  for (int i : {Q_AET, Q_INF, Q_PERC, Q_GW, Q_MB}) if (!(fabs(c.o[i]) <= 1e-12)) VIOL("C18", "soil-flux", "%s is %.12g m for a column without valid soil", OUT[i], c.o[i]);
  for (int i = 0; i < NOUT; i++) if (!std::isfinite(c.o[i])) VIOL("C18", "not-finite", "%s is %g", OUT[i], c.o[i]);
  if (fabs(c.time - p.time - I.cfg.res_s) > 1e-6 * I.cfg.res_s) VIOL("C18", "clock", "Update advanced %.9g s, forcing interval is %.9g s", c.time - p.time, I.cfg.res_s);
  sigbit(77 + (I.P > 0) * 2 + I.cfg.thick.size() * 8);
}

// ------------------------------------------------------------------ BMI contract (C11)
static vector<string> all_names(Inst& I) {
  vector<string> v, a, b; { InModel g; a = I.b->GetInputVarNames(); b = I.b->GetOutputVarNames(); }
  v = a; v.insert(v.end(), b.begin(), b.end()); for (auto c : CAL) v.push_back(c); return v;
}
static int refgrid(const string& n) {
  if (n == "soil_num_wetting_fronts") return 0;
  if (n == "soil_depth_layers" || n == "smcmax" || n == "smcmin" || n == "van_genuchten_n" || n == "van_genuchten_alpha" || n == "hydraulic_conductivity") return 2;
  if (n == "soil_moisture_wetting_fronts" || n == "soil_depth_wetting_fronts") return 3;
  if (n == "soil_temperature_profile") return 4;
  return 1;
}
static vector<unsigned char> raw(Inst& I, const string& n) {
  int nb; { InModel g; nb = I.b->GetVarNbytes(n); }
  if (nb < 0 || nb > 1 << 20) { VIOL("C11", "nbytes", "%s reports %d bytes", n.c_str(), nb); nb = 0; }
  vector<unsigned char> buf(nb + 64, 0xC3); { InModel g; I.b->GetValue(n, buf.data()); }
  for (size_t i = nb; i < buf.size(); i++) if (buf[i] != 0xC3) VIOL("C11", "overrun", "GetValue(%s) wrote past the %d bytes it announces", n.c_str(), nb);
  buf.resize(nb); return buf;
}
// every other variable the interface offers: inputs, parameters, layer depths
static vector<double> others(Inst& I) {
  vector<double> v; for (auto& n : all_names(I)) { if (refgrid(n) == 0 || refgrid(n) == 3) continue; bool out = false; for (int i = 0; i < NOUT; i++) out |= n == OUT[i]; if (out) continue; auto b = raw(I, n); vector<double> d(b.size() / 8); memcpy(d.data(), b.data(), d.size() * 8); v.insert(v.end(), d.begin(), d.end()); }
  return v;
}
static void contract(Inst& I, uint64_t seed) {
  Rng r(seed); count("probe:contract");
  vector<string> names = all_names(I); model_state* m = I.b->get_model();
  { InModel g;
    int ni = I.b->GetInputItemCount(), no = I.b->GetOutputItemCount(); vector<string> in = I.b->GetInputVarNames(), out = I.b->GetOutputVarNames();
    if (ni != (int)in.size() || no != (int)out.size()) VIOL("C11", "counts", "item counts %d/%d, names %zu/%zu", ni, no, in.size(), out.size());
    static const char* must[] = {"precipitation_rate","potential_evapotranspiration_rate","soil_temperature_profile"};
    for (auto x : must) if (find(in.begin(), in.end(), x) == in.end()) VIOL("C11", "missing-name", "input %s is not announced", x);
    for (auto* l : {&in, &out}) for (auto& x : *l) if (I.b->GetVarLocation(x) != "node") VIOL("C11", "location", "%s is announced but located at '%s'", x.c_str(), I.b->GetVarLocation(x).c_str());
    for (int i = 0; i < NOUT; i++) if (find(out.begin(), out.end(), OUT[i]) == out.end()) VIOL("C11", "missing-name", "output %s is not announced", OUT[i]);
    double t0 = I.b->GetStartTime(), te = I.b->GetEndTime(), ts = I.b->GetTimeStep(); string tu = I.b->GetTimeUnits();
    if (t0 != 0) VIOL("C11", "start-time", "start time %g", t0);
    if (fabs(te - I.cfg.end_h * 3600) > 1e-6 * (1 + te)) VIOL("C11", "end-time", "end time %.9g s, configured %.9g s", te, I.cfg.end_h * 3600);
    if (fabs(ts - I.cfg.res_s) > 1e-6 * I.cfg.res_s) VIOL("C11", "time-step", "time step %.9g s, configured %.9g s", ts, I.cfg.res_s);
    if (tu != "s") VIOL("C11", "time-units", "time units '%s'", tu.c_str());
  }
  int L = I.cfg.thick.size(), nz = I.cfg.sft ? (int)I.cfg.soil_z.size() : 1, nf = (int)I.cur.fr.size();
  map<string, vector<unsigned char>> before;
  for (auto& n : names) {
    int grid, isz, gs, nb, rank; string ty, units; void* ptr;
    { InModel g; grid = I.b->GetVarGrid(n); ty = I.b->GetVarType(n); isz = I.b->GetVarItemsize(n); gs = I.b->GetGridSize(grid); nb = I.b->GetVarNbytes(n); rank = I.b->GetGridRank(grid); ptr = I.b->GetValuePtr(n); units = I.b->GetVarUnits(n); }
    int rg = refgrid(n), size = rg == 0 || rg == 1 ? 1 : rg == 2 ? L : rg == 3 ? nf : nz;
    if (grid < 0 || rank != 1) VIOL("C11", "grid", "%s: grid %d rank %d", n.c_str(), grid, rank);
    if (ty != (rg == 0 ? "int" : "double") || isz != (rg == 0 ? 4 : 8)) VIOL("C11", "type", "%s: type %s, item size %d", n.c_str(), ty.c_str(), isz);
    if (gs != size) VIOL("C11", "grid-size", "%s: grid size %d, expected %d", n.c_str(), gs, size);
    if (nb != isz * size) VIOL("C11", "nbytes", "%s: %d bytes, expected %d", n.c_str(), nb, isz * size);
    if (!ptr) VIOL("C11", "null-pointer", "%s has no storage", n.c_str());
    if (rg == 1 && (n == "precipitation_rate" || n == "potential_evapotranspiration_rate") && units != "mm h^-1") VIOL("C11", "units", "%s in '%s'", n.c_str(), units.c_str());
    bool isout = false; for (int i = 0; i < NOUT; i++) isout |= n == OUT[i];
    if ((n == "soil_moisture_wetting_fronts" || n == "soil_num_wetting_fronts") && units != "none") VIOL("C11", "units", "%s in '%s'", n.c_str(), units.c_str());
    if ((isout || n == "soil_depth_wetting_fronts" || n == "soil_depth_layers") && units != "m") VIOL("C11", "units", "%s in '%s'", n.c_str(), units.c_str());
    if (n == "soil_temperature_profile" && units != "K") VIOL("C11", "units", "%s in '%s'", n.c_str(), units.c_str());
    if (rg >= 0) { int sh[3] = {-55, -55, -55}; { InModel g; I.b->GetGridShape(grid, sh); } if (sh[1] != -55 || sh[2] != -55 || sh[0] != size) VIOL("C11", "grid-shape", "%s: shape of a rank-1 grid of %d came back as {%d,%d,%d} (-55: untouched)", n.c_str(), size, sh[0], sh[1], sh[2]); }
    if (rg >= 0) { double o[4] = {-55, -55, -55, -55}; { InModel g; I.b->GetGridOrigin(grid, o); } double a = o[0]; o[0] = -55; { InModel g; I.b->GetGridSpacing(grid, o); } if (!isfinite(a) || !isfinite(o[0]) || o[1] != -55 || o[2] != -55 || o[3] != -55) VIOL("C11", "grid-origin", "%s: origin or spacing of a rank-1 grid not finite or longer than its rank", n.c_str()); }
    before[n] = raw(I, n);
    if (!before[n].empty() && memcmp(ptr, before[n].data(), before[n].size())) VIOL("C11", "ptr-vs-value", "GetValuePtr(%s) and GetValue disagree", n.c_str());
    if (rg != 3) { if (I.ptr.count(n) && I.ptr[n] != ptr) VIOL("C11", "ptr-moved", "the pointer handed out for %s moved", n.c_str()); I.ptr[n] = ptr; }
    if (size > 0) { // indexed reads
      int k = r.irange(1, 4); vector<int> ix(k); for (auto& x : ix) x = r.irange(0, size - 1); vector<unsigned char> d(k * isz + 32, 0x5A);
      { InModel g; I.b->GetValueAtIndices(n, d.data(), ix.data(), k); }
      for (int j = 0; j < k; j++) if (memcmp(&d[j * isz], &before[n][ix[j] * isz], isz)) VIOL("C11", "indexed-get", "GetValueAtIndices(%s)[%d] differs from GetValue", n.c_str(), ix[j]);
      for (size_t j = k * isz; j < d.size(); j++) if (d[j] != 0x5A) VIOL("C11", "indexed-overrun", "GetValueAtIndices(%s) wrote past %d items", n.c_str(), k);
    }
  }
  // values announced for parameters are those in force for the host
  auto dv = [&](const string& n) { vector<double> v(before[n].size() / 8); memcpy(v.data(), before[n].data(), v.size() * 8); return v; };
  if (!I.invalid) for (int l = 0; l < L; l++) {
    const Soil& s = I.csoil[l]; double e[5] = {s.te, s.tr, s.n, s.alpha, s.ks};
    for (int q = 0; q < 5; q++) { auto v = dv(CAL[q]); if ((int)v.size() == L && fabs(v[l] - e[q]) > 1e-12 * (1 + fabs(e[q]))) VIOL("C11", "parameter", "%s of layer %d reads %.12g, configured or last set %.12g", CAL[q], l + 1, v[l], e[q]); }
  }
  { auto v = dv("field_capacity"); if (v.size() == 1 && fabs(v[0] - I.c_fc) > 1e-9) VIOL("C11", "parameter", "field_capacity reads %.12g, expected %.12g", v[0], I.c_fc); }
  { auto v = dv("ponded_depth_max"); if (v.size() == 1 && fabs(v[0] - I.c_pond) > 1e-9) VIOL("C11", "parameter", "ponded_depth_max reads %.12g, expected %.12g", v[0], I.c_pond); }
  if (I.P >= 0) { auto v = dv("precipitation_rate"); if (v.size() == 1 && v[0] != I.P) VIOL("C11", "input", "precipitation_rate reads %.12g, last set %.12g", v[0], I.P); }
  if (I.PET >= 0) { auto v = dv("potential_evapotranspiration_rate"); if (v.size() == 1 && v[0] != I.PET) VIOL("C11", "input", "potential_evapotranspiration_rate reads %.12g, last set %.12g", v[0], I.PET); }
  if (I.cfg.sft && !I.T.empty()) { auto v = dv("soil_temperature_profile"); if (v != I.T) VIOL("C11", "input", "soil_temperature_profile does not read back as last set"); }
  // soil_depth_layers: depth of the bottom of each layer, in the announced unit
  { auto v = dv("soil_depth_layers"); string u; { InModel g; u = I.b->GetVarUnits("soil_depth_layers"); } double k = u == "m" ? 0.01 : 1;
    for (int l = 0; l < L && (int)v.size() == L; l++) if (fabs(v[l] - k * I.cum[l + 1]) > 1e-9) VIOL("C11", "layer-depths", "soil_depth_layers[%d] = %.12g %s, the layer ends at %.12g cm", l, v[l], u.c_str(), I.cum[l + 1]); }
  // writes: only the named item changes, reads back bitwise; then restored
  vector<string> w = {"precipitation_rate","potential_evapotranspiration_rate","soil_temperature_profile"}; for (auto c : CAL) w.push_back(c);
  string n = w[r.next() % w.size()]; int size = (int)before[n].size() / 8;
  if (size > 0) {
    vector<double> nv(size), old(size); memcpy(old.data(), before[n].data(), size * 8); for (auto& x : nv) x = r.uni(0.1, 400);
    bool idx = r.p(.5); vector<double> expect = nv;
    if (idx) { int k = r.irange(1, size + 2); vector<int> ix; vector<double> vv; expect = old; for (int j = 0; j < k; j++) { ix.push_back(r.irange(0, size - 1)); vv.push_back(j < size ? nv[j] : r.uni(.1, 400)); expect[ix.back()] = vv.back(); } InModel g; I.b->SetValueAtIndices(n, ix.data(), k, vv.data()); }
    else { InModel g; I.b->SetValue(n, nv.data()); }
    for (auto& q : names) { auto now = raw(I, q);
      if (q == n) { if (now.size() != (size_t)size * 8 || memcmp(now.data(), expect.data(), size * 8)) VIOL("C11", "set-get", "%s does not read back what %s stored", n.c_str(), idx ? "SetValueAtIndices" : "SetValue"); }
      else if (now != before[q]) VIOL("C11", "set-aliases", "setting %s changed %s", n.c_str(), q.c_str()); }
    { InModel g; I.b->SetValue(n, old.data()); }
  }
  // unknown names are refused and change nothing
  static const char* bogus[] = {"no_such_variable", "", "Precipitation_rate", "soil_moisture", "precipitation_rate ", "smcmax2"};
  string bn = bogus[r.next() % 6]; double z[4] = {1, 2, 3, 4}; int i0 = 0;
  for (int q = 0; q < 5; q++) {
    bool threw = false;
    try { InModel g; if (q == 0) I.b->GetValue(bn, z); else if (q == 1) I.b->SetValue(bn, z); else if (q == 2) I.b->GetValuePtr(bn); else if (q == 3) I.b->GetValueAtIndices(bn, z, &i0, 1); else I.b->SetValueAtIndices(bn, &i0, 1, z); } catch (std::exception&) { threw = true; }
    if (!threw) VIOL("C11", "unknown-name", "access number %d to unknown variable '%s' was not refused", q, bn.c_str());
  }
  for (auto& q : names) if (raw(I, q) != before[q]) VIOL("C11", "changed", "%s changed during read-only and refused calls", q.c_str());
  if (m != I.b->get_model()) VIOL("C11", "model-moved", "model state pointer changed");
}
static void observe(Inst& I, uint64_t seed) {
  Rng r(seed); vector<string> names = all_names(I); int n = r.irange(1, 12); vector<unsigned char> buf(1 << 16);
  InModel g;
  for (int i = 0; i < n; i++) {
    string v = names[r.next() % names.size()];
    switch (r.irange(0, 9)) {
      case 0: case 1: I.b->GetValue(v, buf.data()); break;
      case 2: I.b->GetValuePtr(v); break;
      case 3: { int ix = 0; if (I.b->GetVarNbytes(v) > 0) I.b->GetValueAtIndices(v, buf.data(), &ix, 1); break; }
      case 4: I.b->GetVarUnits(v); I.b->GetVarType(v); I.b->GetVarLocation(v); break;
      case 5: I.b->GetVarNbytes(v); I.b->GetVarGrid(v); break;
      case 6: I.b->GetCurrentTime(); I.b->GetEndTime(); I.b->GetStartTime(); I.b->GetTimeStep(); break;
      case 7: { int sh[3]; double o[8]; for (int k = 0; k < 5; k++) { I.b->GetGridShape(k, sh); I.b->GetGridRank(k); I.b->GetGridSize(k); I.b->GetGridType(k); } I.b->GetGridOrigin(0, o); I.b->GetGridSpacing(0, o); break; }
      case 8: I.b->GetComponentName(); I.b->GetInputVarNames(); I.b->GetOutputVarNames(); break;
      case 9: I.b->global_mass_balance(); break;
    }
  }
  count("probe:observed");
}

static void check_summary(Inst& I, const string& t) {
  auto num = [&](const char* label, double* v) { size_t p = t.rfind(label); if (p == string::npos) return false; p = t.find('=', p); if (p == string::npos) return false; *v = strtod(t.c_str() + p + 1, nullptr); return true; };
  double inq = 0; for (double q : I.queue) inq += q;
  struct { const char* l; double v; } e[] = {{"Initial water in soil", I.start}, {"Total precipitation", I.cumP}, {"Total infiltration", I.cumInf}, {"Final water in soil", I.cur.store}, {"Surface ponded water", I.cur.ponded},
    {"Surface runoff", I.cumR}, {"GIUH runoff", I.cumG}, {"GIUH water (in array)", inq}, {"Total percolation", I.cumPerc}, {"Total AET", I.cumAET}, {"Total PET", I.cumPET}, {"Total discharge (Q)", I.cumQ}, {"Vol change (calibration)", I.calib_total}};
  double v; int found = 0;
  if (I.invalid) {   // a column without valid soil: the rain of every interval is its discharge
    for (const char* l : {"Total precipitation", "Surface runoff", "Total discharge (Q)"}) if (num(l, &v)) { found++; if (!(fabs(v - I.passP) <= 1e-6 * (1 + I.passP))) VIOL("C18", "summary", "final summary reports '%s' = %.10g cm, the run passed on %.10g cm", l, v, I.passP); }
    for (const char* l : {"Total infiltration", "Total percolation", "Total AET", "Surface ponded water"}) if (num(l, &v) && !(fabs(v) <= 1e-9)) VIOL("C18", "summary", "final summary of a column without valid soil reports '%s' = %.10g cm", l, v);
    if (num("Global balance", &v) && !(fabs(v) <= 1e-6)) VIOL("C18", "summary", "final summary of a column without valid soil reports a global balance error of %.6e cm", v);
    if (found) count("probe:summary"); return;
  }
  for (auto& x : e) if (num(x.l, &v)) { found++; double d = fabs(v - x.v); meter("summary_err", d); if (!(d <= 1e-6 * (1 + fabs(x.v)))) VIOL("C06", "summary", "final summary reports '%s' = %.10g cm, the run delivered %.10g cm", x.l, v, x.v); }
  if (num("Global balance", &v)) { found++; meter("global_balance", fabs(v)); if (!(fabs(v) <= (REG == 2 ? 4e-4 + 1e-5 * I.nsub : 1e-5 + 1e-7 * I.nsub))) VIOL("C01", "global", "final summary reports a global balance error of %.6e cm", v); }
  if (found) count("probe:summary");
}

template <class M> static auto shadow(M* m, int) -> decltype(m->state_previous) { return m->state_previous; }
template <class M> static wetting_front* shadow(M*, long) { return nullptr; }
// configured scalars that the interface does not publish, where the model still has such a field (NAN: it does not)
#define FIELD(f) template <class M> static auto fld_##f(M* m, int) -> decltype((double)m->lgar_bmi_params.f) { return (double)m->lgar_bmi_params.f; } template <class M> static double fld_##f(M*, long) { return NAN; }
FIELD(wilting_point_psi_cm) FIELD(timestep_h) FIELD(use_closed_form_G) FIELD(adaptive_timestep) FIELD(num_layers) FIELD(sft_coupled) FIELD(calib_params_flag) FIELD(initial_psi_cm) FIELD(num_cells_temp)
#undef FIELD
static long list_len(wetting_front* h) { long n = 0; while (h && n < 100000) { n++; h = h->next; } return n; }

void execute(const Plan& plan, const string& prop, bool land) {
  PR = prop; LAND = land; PLAN = &plan; REG = (int)plan.e("regime"); SPARSE = plan.e("sparse") > 0;
  vector<Inst> W(plan.inst.size());
  for (size_t i = 0; i < W.size(); i++) { W[i].id = i; W[i].cfg = plan.inst[i]; refsetup(W[i]); }
  g_mem.fill = (int)plan.e("heap", 1); g_mem.poison = (int)plan.e("poison", 0); g_mem.stack = (int)plan.e("stack", 1); g_mem.seed = plan.seed; g_mem.fail_at = (int)plan.e("allocfail", -1);
  g_io = plan.io; g_bufsz = (int)plan.e("bufsz", 0);
  g_crash = plan.env.count("crash") ? (uint64_t)plan.e("crash") : ~0ull;
  for (size_t i = 0; i < W.size(); i++) {
    string c = "cfg" + to_string(i) + ".txt", s = "soil" + to_string(i) + ".dat";
    FILE* f = fopen(c.c_str(), "w"); string t = cfg_text(W[i].cfg, s); fwrite(t.data(), 1, t.size(), f); fclose(f);
    f = fopen(s.c_str(), "w"); t = soil_text(W[i].cfg); fwrite(t.data(), 1, t.size(), f); fclose(f);
  }
  uint64_t sched = 1469598103934665603ull;
  uint64_t budget = (uint64_t)plan.e("budget", 400e6);
  uint64_t base_n = 0, base_b = 0; bool again = false; BmiLGAR* pool = nullptr;    // pool, kept: finalised objects that are initialised again live_model(base_n, base_b);
  for (OPI = 0; OPI < (int)plan.ops.size(); OPI++) {
    const Op& op = plan.ops[OPI]; shm->stop_op = OPI; strncpy(shm->opk, op.k.c_str(), sizeof shm->opk - 1);
    INI = op.i; shm->site_op = OPI; shm->site_inst = INI;
    if (op.i < 0 || op.i >= (int)W.size()) continue;
    Inst& I = W[op.i];
    for (char ch : op.k) sched = (sched ^ (uint64_t)ch) * 1099511628211ull; sched = (sched ^ (uint64_t)op.i) * 1099511628211ull;
    try {
      if (op.s.compare(0, 6, "fault:") == 0) { count(op.s); for (char ch : op.s) sched = (sched ^ (uint64_t)ch) * 1099511628211ull; }
      if (op.k == "dirt") { dirty_heap((uint64_t)op.a[0]); continue; }
      if (op.k == "refused") {                // a neighbour whose Initialize is refused: its configuration is incomplete, or memory runs out
        InstCfg b = I.cfg; static const char* K[] = {"initial_psi","timestep","endtime","wilting_point_psi","field_capacity_psi","forcing_resolution","giuh_ordinates","layer_soil_type"};
        bool mem = op.a.size() > 1 && op.a[1] > 0; if (!mem) b.omit = K[(int)op.a[0] % 8];
        string f = "bad" + to_string(op.i) + ".txt", t = cfg_text(b, "soil" + to_string(op.i) + ".dat"); { FILE* o = fopen(f.c_str(), "w"); fwrite(t.data(), 1, t.size(), o); fclose(o); }
        int keep = g_mem.fail_at; scrub_stack(); shm->site_op = OPI;
        try { InModel g; g_trip = g_steps + budget; if (mem) g_mem.fail_at = shm->alloc_seen + 1 + (int)op.a[1]; BmiLGAR* nb = bmi_model_create(); nb->Initialize(f); } catch (std::exception&) { count("fault:neighbour-refused"); }
        g_in = 0; g_trip = ~0ull; g_mem.fail_at = keep; continue;
      }
      if (op.k == "init") {
        if (I.live) continue;
        scrub_stack(); refsetup(I);
        { InModel g; g_trip = g_steps + budget; BmiLGAR*& k = I.kept ? I.kept : pool; if (k) { I.b = k; k = nullptr; count("fault:object-reused"); } else I.b = bmi_model_create(); I.b->Initialize("cfg" + to_string(op.i) + ".txt"); g_trip = ~0ull; }
        I.live = true;
        if (SPARSE) { I.cur = Snap(); I.cur.time = 0; continue; }
        snap(I, I.cur); I.start = I.cur.store; I.prev = I.cur;
        trace_snap(I, I.cur);
        if (!I.invalid) {
          check_profile(I, I.cur, "after Initialize");
          if (I.cur.nwf != (int)I.cur.fr.size()) VIOL("C06", "front-count", "published %d fronts after Initialize, state has %zu", I.cur.nwf, I.cur.fr.size());
          for (size_t k = 0; k < I.cur.fr.size() && k < I.cur.pth.size(); k++) if (fabs(I.cur.pth[k] - I.cur.fr[k].th) > 1e-12 || fabs(I.cur.pz[k] * 100 - I.cur.fr[k].d) > 1e-9) VIOL("C06", "array-values", "front %zu published (%.12g m, %.12g) after Initialize, state (%.12g cm, %.12g)", k + 1, I.cur.pz[k], I.cur.pth[k], I.cur.fr[k].d, I.cur.fr[k].th);
          if (!(fabs(I.cur.o[Q_STORE] * 100 - I.cur.store) <= 1e-8 * (1 + I.cur.store))) VIOL("C06", "storage", "published storage %.12g cm after Initialize, profile integral %.12g cm", I.cur.o[Q_STORE] * 100, I.cur.store);
          for (int k = 0; k < NOUT; k++) if (k != Q_STORE && !(fabs(I.cur.o[k]) <= 1e-12)) VIOL("C06", "initial-flux", "%s is %g m after Initialize, nothing has flowed yet", OUT[k], I.cur.o[k]);
          // C14: the initial column is the configured one
          if (I.cur.fr.size() != I.cfg.thick.size()) VIOL("C14", "layers", "%zu fronts for %zu configured layers", I.cur.fr.size(), I.cfg.thick.size());
          else for (size_t l = 0; l < I.cfg.thick.size(); l++) { const Fr& f = I.cur.fr[l];
            if (fabs(f.d - I.cum[l + 1]) > 1e-9 || fabs(f.psi - I.cfg.psi0) > 1e-9) VIOL("C14", "initial", "layer %zu starts at depth %.12g psi %.12g, configured %.12g and %.12g", l + 1, f.d, f.psi, I.cum[l + 1], I.cfg.psi0);
            if (fabs(f.th - theta_h(I.cfg.psi0, I.soil[l])) > 1e-9) VIOL("C14", "soil-row", "layer %zu starts with theta %.12g, its configured soil gives %.12g", l + 1, f.th, theta_h(I.cfg.psi0, I.soil[l])); }
          if (on("C14")) { vector<double> v(I.cfg.thick.size() + 8); const Soil* s;
            for (int q = 0; q < 5; q++) { getd(I, CAL[q], v.data()); for (size_t l = 0; l < I.cfg.thick.size(); l++) { s = &I.soil[l]; double e[5] = {s->te, s->tr, s->n, s->alpha, s->ks}; if (fabs(v[l] - e[q]) > 1e-12 * (1 + e[q])) VIOL("C14", "parameter", "%s of layer %zu is %.12g, the soil file says %.12g", CAL[q], l + 1, v[l], e[q]); } }
            getd(I, "field_capacity", v.data()); if (fabs(v[0] - I.fc) > 1e-9) VIOL("C14", "parameter", "field capacity is %.12g, configured %.12g", v[0], I.fc);
            getd(I, "ponded_depth_max", v.data()); if (fabs(v[0] - I.pond_max) > 1e-9) VIOL("C14", "parameter", "maximum ponding is %.12g, configured %.12g", v[0], I.pond_max);
            model_state* M = I.b->get_model();
            struct { const char* n; double got, want; } F[] = {{"wilting point", fld_wilting_point_psi_cm(M, 0), I.cfg.wp}, {"sub-step [h]", fld_timestep_h(M, 0), I.cfg.dt_s / 3600}, {"closed form of G", fld_use_closed_form_G(M, 0), (double)I.cfg.closedG}, {"adaptive sub-step", fld_adaptive_timestep(M, 0), (double)I.cfg.adaptive},
              {"number of layers", fld_num_layers(M, 0), (double)I.cfg.thick.size()}, {"frozen-soil coupling", fld_sft_coupled(M, 0), (double)I.cfg.sft}, {"calibratable", fld_calib_params_flag(M, 0), (double)I.cfg.calib}, {"initial head", fld_initial_psi_cm(M, 0), I.cfg.psi0}};
            for (auto& f : F) if (fabs(f.got - f.want) > 1e-9 * (1 + f.want)) VIOL("C14", "parameter", "%s is %.12g, configured %.12g", f.n, f.got, f.want);
            if (I.cfg.sft) { double nz = fld_num_cells_temp(M, 0); if (nz != I.cfg.soil_z.size() && nz == nz) VIOL("C14", "parameter", "%g temperature cells, %zu configured", nz, I.cfg.soil_z.size()); }
            InModel g; if (fabs(I.b->GetTimeStep() - I.cfg.res_s) > 1e-6) VIOL("C14", "resolution", "forcing resolution is %.9g s, configured %.9g s", I.b->GetTimeStep(), I.cfg.res_s);
            if (fabs(I.b->GetEndTime() - I.cfg.end_h * 3600) > 1e-3) VIOL("C14", "endtime", "end time is %.9g s, configured %.9g s", I.b->GetEndTime(), I.cfg.end_h * 3600); }
        }
        continue;
      }
      if (!I.live) continue;
      if (op.k == "frc" || op.k == "spike") {   // a forcing message: both rates, by one of the three delivery routes
        double P = op.a[0], E = op.a[1]; int route = op.a.size() > 2 ? (int)op.a[2] : 0, z = 0;
        InModel g;
        if (route == 1) { I.b->SetValueAtIndices("precipitation_rate", &z, 1, &P); I.b->SetValueAtIndices("potential_evapotranspiration_rate", &z, 1, &E); }
        else if (route == 2) { *(double*)I.b->GetValuePtr("precipitation_rate") = P; *(double*)I.b->GetValuePtr("potential_evapotranspiration_rate") = E; }
        else if (route == 3) { I.b->SetValue("potential_evapotranspiration_rate", &E); I.b->SetValue("precipitation_rate", &P); }
        else { I.b->SetValue("precipitation_rate", &P); I.b->SetValue("potential_evapotranspiration_rate", &E); }
        I.P = P; I.PET = E;
      } else if (op.k == "onlyP" || op.k == "onlyE") {
        double v = op.a[0]; InModel g; I.b->SetValue(op.k == "onlyP" ? "precipitation_rate" : "potential_evapotranspiration_rate", &v); (op.k == "onlyP" ? I.P : I.PET) = v;
      } else if (op.k == "T") {
        if (!I.cfg.sft) continue;
        vector<double> v = op.a; v.resize(I.cfg.soil_z.size(), v.empty() ? 280 : v.back());
        { InModel g;
        if (op.s == "idx") { vector<int> ix; for (size_t k = 0; k < v.size(); k++) ix.push_back((int)k); I.b->SetValueAtIndices("soil_temperature_profile", ix.data(), ix.size(), v.data()); }
        else if (op.s == "ptr") memcpy(I.b->GetValuePtr("soil_temperature_profile"), v.data(), v.size() * 8);
        else I.b->SetValue("soil_temperature_profile", v.data()); }
        I.T = v;
      } else if (op.k == "cal") {                 // set one calibration variable (all layers, or one layer by index)
        string n = op.s; int q = -1; for (int k = 0; k < 7; k++) if (n == CAL[k]) q = k;
        if (q < 0) continue;
        size_t L = I.cfg.thick.size();
        if (q >= 5) { double v = op.a[1]; { InModel g; I.b->SetValue(n, &v); } (q == 5 ? I.c_fc : I.c_pond) = v; }
        else { int which = (int)op.a[0]; auto put = [&](Soil& s, double v) { (q == 0 ? s.te : q == 1 ? s.tr : q == 2 ? s.n : q == 3 ? s.alpha : s.ks) = v; };
          if (which < 0) { vector<double> v(op.a.begin() + 1, op.a.end()); v.resize(L, v.back()); { InModel g; I.b->SetValue(n, v.data()); } for (size_t l = 0; l < L; l++) put(I.csoil[l], v[l]); }
          else if (which < (int)L) { double v = op.a[1]; { InModel g; I.b->SetValueAtIndices(n, &which, 1, &v); } put(I.csoil[which], v); } }
      } else if (op.k == "obs") observe(I, (uint64_t)op.a[0]);
      else if (op.k == "bmi") contract(I, (uint64_t)op.a[0]);
      else if (op.k == "up" || op.k == "until") {
        if (!(I.P >= 0) || !(I.PET >= 0)) continue;
        if (I.cfg.sft) { if (I.T.size() != I.cfg.soil_z.size()) continue; ref_frozen(I); }
        I.prev = I.cur; scrub_stack();
        uint64_t s0 = g_steps, ln0 = 0, lb0 = 0; live_model(ln0, lb0); model_state* m = I.b->get_model(); long ll0 = list_len(m->head) + list_len(shadow(m, 0));
        int k = 1;
        { InModel g; g_trip = g_steps + budget;
          if (op.k == "up") I.b->Update(); else { k = op.a.empty() ? 1 : (int)op.a[0]; I.b->UpdateUntil(I.prev.time + (k - (op.a.size() > 1 ? op.a[1] : 0)) * I.cfg.res_s); }
          g_trip = ~0ull; }
        meter("update_blocks", (double)(g_steps - s0)); count("probe:updates");
        if (SPARSE) { I.cur.time += k * I.cfg.res_s; I.updates += k; shm->updates += k; shm->sim_s += k * I.cfg.res_s; continue; }
        snap(I, I.cur);
        if (k > 1) {         // several intervals asked for: the judge compares the state reached with that of k single steps
          double adv = (I.cur.time - I.prev.time) / I.cfg.res_s; count("probe:until-several");
          if (fabs(adv - k) > 1e-6) VIOL("C07", "until", "UpdateUntil(%d intervals ahead) advanced %.9g intervals", k, adv);
          trace_snap(I, I.cur); I.updates += k; shm->updates += k; shm->sim_s += k * I.cfg.res_s; break;
        }
        I.updates++; shm->updates++; shm->sim_s += I.cfg.res_s;
        trace_snap(I, I.cur);
        if (const char* df = getenv("SIM_DUMP")) { FILE* d = fopen(df, "a"); fprintf(d, "op %d inst %d P %g PET %g ponded %.10g runoff %.10g inf %.10g aet %.10g perc %.10g store %.10g\n", OPI, op.i, I.P, I.PET, I.cur.ponded, I.cur.o[Q_RUNOFF]*100, I.cur.o[Q_INF]*100, I.cur.o[Q_AET]*100, I.cur.o[Q_PERC]*100, I.cur.store);
          for (auto& f : I.cur.fr) fprintf(d, "   %d lay %d d %.10g th %.12g psi %.10g K %.8g dz %.8g bot %d\n", f.num, f.lay, f.d, f.th, f.psi, f.K, f.dz, f.bot); fclose(d); }
        if (I.invalid) check_passthrough(I); else check_update(I, 1);
        // C15: what one instance holds besides its two profiles does not grow with the number of steps
        { uint64_t ln, lb; live_model(ln, lb); long ll = list_len(m->head) + list_len(shadow(m, 0)); long d = (long)(ln - ln0) - (ll - ll0);
          I.resid0 += d; I.resid_n++; if (I.resid_n == 2) I.resid0 = 0;
          if (I.resid_n > 30 && I.resid0 > 10 + I.resid_n / 3) VIOL("C15", "growth", "%ld blocks held beyond the profiles after %d updates", I.resid0, I.resid_n); }
      } else if (op.k == "upx") {            // Update must refuse: forcing has not been supplied yet
        if (I.P >= 0 && I.PET >= 0) continue;
        shm->site_op = OPI; strncpy(shm->opk, "refuse", sizeof shm->opk - 1);
        bool refused = false;
        try { InModel g; g_trip = g_steps + budget; I.b->Update(); g_trip = ~0ull; } catch (std::exception&) { refused = true; }
        if (!refused) { VIOL("C07", "no-forcing", "Update ran although %s had never been supplied", I.P < 0 ? "the rain rate" : "the PET rate"); VIOL("C18", "no-forcing", "Update ran although the rain rate had never been supplied"); }
        break;
      } else if (op.k == "final") {
        if (SPARSE) { snap(I, I.cur); trace_snap(I, I.cur); }
        fflush(stdout); fflush(stderr); off_t o0 = lseek(1, 0, SEEK_END);
        { InModel g; g_trip = g_steps + budget; I.b->Finalize(); g_trip = ~0ull; }
        fflush(stdout); off_t o1 = lseek(1, 0, SEEK_END); string t; if (o1 > o0 && o1 - o0 < 100000) { t.resize(o1 - o0); ssize_t k = pread(1, &t[0], t.size(), o0); if (k > 0) t.resize(k); else t.clear(); }
        if (!SPARSE) check_summary(I, t);
        { vector<double> nums; size_t at = t.rfind("Simulation Summary"); if (at != string::npos) for (size_t q = t.find('=', at); q != string::npos; q = t.find('=', q + 1)) { char* e; double x = strtod(t.c_str() + q + 1, &e); if (e != t.c_str() + q + 1 && std::isfinite(x)) nums.push_back(x); } nums.insert(nums.begin(), -42); rec(I, nums); }
        int keep = op.a.empty() ? 0 : (int)op.a[0];
        if (keep == 1) I.kept = I.b; else if (keep == 2 && !pool) pool = I.b; else { InModel g; bmi_model_destroy(I.b); } I.b = nullptr; I.live = false;
        bool any = pool != nullptr; for (auto& w : W) any |= w.live || w.kept;
        // blocks kept for the life of the process (a function's static table) are no leak: the same history, repeated, must keep no more
        if (!any) { uint64_t n, b; live_model(n, b); if (n > base_n) { if (on("C15") && !again) { again = true; base_n = n; base_b = b; OPI = -1; continue; } VIOL("C15", "leak", "%llu blocks (%llu bytes) more stay allocated each time the instances of this history have been finalized and destroyed", (unsigned long long)(n - base_n), (unsigned long long)(b - base_b)); } count("probe:all-released"); }
      }
    } catch (std::exception& e) { g_in = 0; shm->site_op = OPI; finish(O_EXC, 0, "exception", "exception from %s: %s", op.k.c_str(), e.what()); }
  }
  if (SPARSE) for (auto& I : W) if (I.live) { snap(I, I.cur); trace_snap(I, I.cur); }
  schedbit(sched);
  uint64_t lb = 0, ln = 0; live_model(ln, lb); shm->live_blocks = ln; shm->live_bytes = lb;
  shm->steps = g_steps;
}
