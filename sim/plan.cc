#include "plan.h"
#include <cstring>
#include <algorithm>
using namespace std;

static string vec(const vector<double>& v) { string s; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + snum(v[i]); return s; }
static string veci(const vector<int>& v) { string s; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + to_string(v[i]); return s; }
static vector<double> unvec(const string& s) { vector<double> v; stringstream ss(s); string c; while (getline(ss, c, ',')) if (!c.empty()) v.push_back(strtod(c.c_str(), 0)); return v; }
static string esc(string s) { for (auto& c : s) if (c == ' ') c = '~'; return s.empty() ? "-" : s; }
static string unesc(string s) { if (s == "-") return ""; for (auto& c : s) if (c == '~') c = ' '; return s; }

string plan_to_text(const Plan& p) {
  ostringstream o;
  o << "plan v2\nprop " << p.prop << "\nseed " << p.seed << "\nmode " << p.mode << "\n";
  for (auto& e : p.env) o << "env " << e.first << " " << snum(e.second) << "\n";
  for (auto& c : p.inst) {
    o << "inst thick=" << vec(c.thick) << " layer_soil=" << veci(c.layer_soil) << " max_soils=" << c.max_soils << " psi0=" << snum(c.psi0)
      << " dt=" << snum(c.dt_s) << " res=" << snum(c.res_s) << " end_h=" << snum(c.end_h) << " pond=" << snum(c.ponded_max) << " wp=" << snum(c.wp)
      << " fc=" << snum(c.fc) << " closedG=" << c.closedG << " adaptive=" << c.adaptive << " sft=" << c.sft << " calib=" << c.calib
      << " verbosity=" << c.verbosity << " giuh=" << vec(c.giuh) << " soil_z=" << vec(c.soil_z) << " style=" << c.style << " omit=" << c.omit << " bad=" << c.bad << "\n";
    for (auto& s : c.soils) o << "soil " << esc(s.name) << " " << snum(s.tr) << " " << snum(s.te) << " " << snum(s.alpha) << " " << snum(s.n) << " " << snum(s.ks) << "\n";
  }
  for (auto& f : p.io) o << "io " << f.path << " " << f.kind << " " << snum(f.at) << " " << snum(f.arg) << "\n";
  for (auto& op : p.ops) {
    o << "op " << op.k << " " << op.i << " " << esc(op.s);
    for (double v : op.a) o << " " << snum(v);
    o << "\n";
  }
  return o.str();
}

bool plan_from_text(const string& t, Plan& p) {
  stringstream in(t); string line; p = Plan();
  while (getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    stringstream ss(line); string w; ss >> w;
    if (w == "plan") continue;
    else if (w == "prop") ss >> p.prop;
    else if (w == "seed") ss >> p.seed;
    else if (w == "mode") ss >> p.mode;
    else if (w == "env") { string k, v; ss >> k >> v; p.env[k] = strtod(v.c_str(), 0); }
    else if (w == "io") { IoRule r; string a, b; ss >> r.path >> r.kind >> a >> b; r.at = strtod(a.c_str(), 0); r.arg = strtod(b.c_str(), 0); p.io.push_back(r); }
    else if (w == "inst") {
      InstCfg c; string kv;
      while (ss >> kv) {
        size_t e = kv.find('='); string k = kv.substr(0, e), v = kv.substr(e + 1);
        if (k == "thick") c.thick = unvec(v);
        else if (k == "layer_soil") { c.layer_soil.clear(); for (double d : unvec(v)) c.layer_soil.push_back((int)d); }
        else if (k == "max_soils") c.max_soils = atoi(v.c_str());
        else if (k == "psi0") c.psi0 = atof(v.c_str()); else if (k == "dt") c.dt_s = atof(v.c_str());
        else if (k == "res") c.res_s = atof(v.c_str()); else if (k == "end_h") c.end_h = atof(v.c_str());
        else if (k == "pond") c.ponded_max = atof(v.c_str()); else if (k == "wp") c.wp = atof(v.c_str());
        else if (k == "fc") c.fc = atof(v.c_str()); else if (k == "closedG") c.closedG = atoi(v.c_str());
        else if (k == "adaptive") c.adaptive = atoi(v.c_str()); else if (k == "sft") c.sft = atoi(v.c_str());
        else if (k == "calib") c.calib = atoi(v.c_str()); else if (k == "verbosity") c.verbosity = v;
        else if (k == "giuh") c.giuh = unvec(v); else if (k == "soil_z") c.soil_z = unvec(v);
        else if (k == "style") c.style = atol(v.c_str()); else if (k == "omit") c.omit = v; else if (k == "bad") c.bad = v;
        else return false;
      }
      p.inst.push_back(c);
    }
    else if (w == "soil") { Soil s; string n; vector<double> v; string x; ss >> n; while (ss >> x) v.push_back(strtod(x.c_str(), 0)); if (p.inst.empty() || v.size() != 5) return false;
      s.name = unesc(n); s.tr = v[0]; s.te = v[1]; s.alpha = v[2]; s.n = v[3]; s.ks = v[4]; p.inst.back().soils.push_back(s); }
    else if (w == "op") { Op o; string x; ss >> o.k >> o.i >> x; o.s = unesc(x); string v; while (ss >> v) o.a.push_back(strtod(v.c_str(), 0)); p.ops.push_back(o); }
    else return false;
  }
  return true;
}

// a duration written in one of the documented units, only where the decimal text is exact
static string dur(double sec, int pick) {
  double m = sec / 60, h = sec / 3600;
  auto exact = [](double v, int dec) { char b[40]; snprintf(b, sizeof b, "%.*f", dec, v); return strtod(b, 0) == v; };
  switch (pick % 7) {
    case 1: return snum(sec) + "[s]";
    case 2: return snum(sec);
    case 3: if (exact(m, 4)) return snum(m) + "[min]"; break;
    case 4: if (exact(m, 4)) return snum(m) + "[minute]"; break;
    case 5: if (exact(h, 4)) return snum(h) + "[h]"; break;
    case 6: if (exact(h, 4)) return snum(h) + "[hr]"; break;
  }
  return snum(sec) + "[sec]";
}

string cfg_text(const InstCfg& c, const string& soilfile, const string& forcing) {
  vector<pair<string, string>> kv;
  Rng r(c.style); bool st = c.style != 0;
  auto put = [&](const string& k, const string& v) { if (k != c.omit) kv.push_back({k, v}); };
  put("verbosity", c.verbosity);
  if (!forcing.empty()) put("forcing_file", forcing);
  if (c.bad != "nofile") put("soil_params_file", soilfile); else put("soil_params_file", "no-such-" + soilfile);
  Rng bd(c.style + 77 + (long)c.thick.size()); int bk = c.bad == "flag" ? bd.irange(0, 3) : c.bad == "unit" ? bd.irange(0, 2) : c.bad == "value" ? bd.irange(0, 8) : -1;     // which entry is damaged
  string bu = bd.pick<string>({"[weeks]", "[months]", "[y]", "[ms]"}), bf = bd.pick<string>({"maybe", "10", "x", ""}), bv = bd.pick<string>({"n/a", "", "abc"});
  { string x = vec(c.thick) + (st && r.p(.3) ? "" : "[cm]"); put("layer_thickness", bk == 6 ? bv : x); x = snum(c.psi0) + (st && r.p(.3) ? "" : "[cm]"); put("initial_psi", bk == 7 ? bv : x); }
  put("timestep", c.bad == "unit" && bk == 0 ? snum(c.dt_s / 60) + bu : c.bad == "value" && bk == 0 ? bv : dur(c.dt_s, st ? r.irange(0, 6) : 0));
  { double s = c.end_h * 3600; string t = snum(c.end_h) + "[hr]"; if (st) { int k = r.irange(0, 5); if (k == 5) { string m = dur(s, r.irange(1, 4)); if (m != snum(s) + "[sec]") t = m; } else if (k == 1) t = snum(s); else if (k == 2) t = snum(c.end_h) + "[h]"; else if (k == 3) t = snum(s) + "[s]"; else if (k == 4 && fmod(c.end_h, 24) == 0) t = snum(c.end_h / 24) + (r.p(.5) ? "[d]" : "[day]"); } put("endtime", c.bad == "unit" && bk == 1 ? snum(c.end_h) + bu : c.bad == "value" && bk == 1 ? bv : t); }
  put("forcing_resolution", c.bad == "unit" && bk == 2 ? snum(c.res_s / 60) + bu : c.bad == "value" && bk == 2 ? bv : dur(c.res_s, st ? r.irange(0, 6) : 0));
  if (!(st && c.ponded_max == 0 && r.p(.3)) || bk == 8) put("ponded_depth_max", bk == 8 ? bv : snum(c.ponded_max) + "[cm]");
  if (!(st && !c.closedG && c.bad != "flag" && r.p(.3))) put("use_closed_form_G", c.bad == "flag" && bk == 0 ? bf : c.closedG ? "true" : "false");
  { vector<int> lt = c.layer_soil; if (c.bad == "fewtypes") lt.pop_back(); put("layer_soil_type", veci(lt)); }
  if (c.max_soils) put("max_valid_soil_types", to_string(c.max_soils));
  put("wilting_point_psi", c.bad == "value" && bk == 3 ? bv : snum(c.wp) + "[cm]");
  put("field_capacity_psi", c.bad == "value" && bk == 4 ? bv : snum(c.fc) + (st && r.p(.3) ? "" : "[cm]"));
  put("giuh_ordinates", c.bad == "value" && bk == 5 ? bv : vec(c.giuh));
  if (c.bad == "flag" && bk == 1) put("sft_coupled", bf); else if (c.sft) { put("sft_coupled", "true"); vector<double> z = c.soil_z;
    if (c.bad == "fewcells") { size_t l = (size_t)(c.thick[0] * 100) % 2 ? c.thick.size() : 1 + (size_t)(c.thick[0] * 50) % c.thick.size(); double top = 0, bot = 0; for (size_t k = 0; k < l; k++) { top = bot; bot += c.thick[k]; }   // no cell in layer l
      vector<double> y; for (double x : z) if (x <= top || x > bot) y.push_back(x); if (y.empty()) y.push_back(bot + 10); z = y; }
    put("soil_z", vec(z) + "[cm]"); }
  else if (!(c.bad == "flag" && bk == 1) && (long)(c.thick[0] * 100) % 4 == 0) { put("soil_z", "10,20,40,80[cm]"); if (st && r.p(.5)) put("sft_coupled", "false"); }     // a temperature grid is given, but not used
  else if (st && r.p(.3)) put("sft_coupled", "false");
  if (c.bad == "flag" && bk == 2) put("calib_params", bf); else if (c.calib) put("calib_params", "true"); else if (st && r.p(.3)) put("calib_params", "false");
  if (c.bad == "flag" && bk == 3) put("adaptive_timestep", bf); else if (!(st && !c.adaptive && r.p(.3))) put("adaptive_timestep", st && r.p(.4) ? (c.adaptive ? "1" : "0") : (c.adaptive ? "true" : "false"));
  if (st) {
    for (size_t i = kv.size(); i > 1; i--) swap(kv[i - 1], kv[r.next() % i]);
    if (r.p(.3)) kv.insert(kv.begin() + r.next() % (kv.size() + 1), {"#some_other_model_option", "7"});
    if (r.p(.3)) kv.insert(kv.begin() + r.next() % (kv.size() + 1), {"output_interval", "3600[sec]"});
    if (r.p(.3)) kv.insert(kv.begin() + r.next() % (kv.size() + 1), {"", ""});
  }
  string o; bool blanks = st && r.p(.4); string nl = st && forcing.empty() && r.p(.15) ? "\r\n" : "\n";
  auto sp = [&](double p) { return blanks && r.p(p) ? (r.p(.6) ? string(r.irange(1, 3), ' ') : string("\t")) : string(); };
  for (size_t i = 0; i < kv.size(); i++) {
    string k = kv[i].first, v = kv[i].second; bool plain = k == "forcing_file" || k[0] == '#';
    o += k; if (!k.empty()) { size_t u = v.find('['); if (u != string::npos && !plain) v.insert(u, sp(.3)); o += plain ? "=" + v : sp(.3) + "=" + sp(.3) + v + sp(.4); } else o += sp(.5);
    if (!(st && i + 1 == kv.size() && r.p(.4))) o += nl;
  }
  return o;
}

string soil_text(const InstCfg& c) {
  ostringstream o; o << "\"Texture\ttheta_r\ttheta_e\talpha(cm^-1)\tn\tKs(cm/h)\"\n";
  int victim = 0; for (int s : c.layer_soil) victim = max(victim, s);     // a row some layer depends on
  unsigned long dmg = (unsigned long)(c.thick[0] * 100 + .5) + c.style; if (c.bad == "cols" || c.bad == "word") victim = c.layer_soil[dmg / 5 % c.layer_soil.size()];
  Rng r(c.style ? c.style : 1); bool st = c.style != 0; const char* sep = st && r.p(.5) ? "  " : "\t"; string nl = st && r.p(.15) ? "\r\n" : "\n";
  for (size_t i = 0; i < c.soils.size(); i++) {
    auto& s = c.soils[i];
    if ((int)i + 1 == victim && c.bad == "norow") break;
    string v[5] = {snum(s.tr), snum(s.te), snum(s.alpha), snum(s.n), snum(s.ks)}; int cols = 5;
    if ((int)i + 1 == victim && c.bad == "cols") cols = (int)(dmg % 5);
    if ((int)i + 1 == victim && c.bad == "word") v[dmg % 5] = "n/a";
    o << '"' << s.name << '"'; for (int k = 0; k < cols; k++) o << sep << v[k];
    if ((int)i + 1 == victim && (c.bad == "cols" || c.bad == "word")) { o << "\n"; continue; }
    if (st && r.p(.15)) o << sep << r.pick<string>({"", " ", "# measured", "-9999"});
    if (!(st && i + 1 == c.soils.size() && r.p(.5))) o << nl;
    if (st && r.p(.1)) o << r.pick<string>({"", "  "}) << nl;
  }
  return o.str();
}
