// The standalone program: its main() runs inside the simulator, on files the simulator writes and with its storage seam.
#include "world.h"
#include <cstring>
#include <stdexcept>
#include <unistd.h>
#include <fcntl.h>
using namespace std;
int lasam_standalone_main(int, char**);
static void put(const char* f, const string& t) { FILE* o = fopen(f, "w"); if (!o) _exit(3); fwrite(t.data(), 1, t.size(), o); fclose(o); }
string forcing_text(const Plan& p) {
  int st = (int)p.e("fstyle"); string nl = st & 2 ? "\r\n" : "\n", t = string(st & 8 ? "#" : "") + "Time,P(mm/h),PET(mm/h)" + (st & 1 ? ",T(K)" : "") + nl; int i = 0; vector<const Op*> rows; for (auto& o : p.ops) if (o.k == "frc") rows.push_back(&o);
  int n = (int)rows.size(); if (p.e("fewrows")) { int need = (int)p.e("need"); n = min(n, max(0, (int)(p.e("frac") * need))); }
  int victim = p.e("cell") ? (int)(p.e("frac") * n) : -1;
  for (; i < n; i++) {
    char l[32]; snprintf(l, sizeof l, "2016-10-%02d %02d:%02d:%02d", 1 + i / 1440, (i / 60) % 24, i % 60, 0);
    t += l; int cut = i == victim ? (int)p.e("cell") : 0; static const char* const JUNK[3] = {"NA", "--", "x"}; const char* junk = JUNK[i % 3];
    t += "," + (cut == 3 ? string(junk) : cut == 4 ? string() : snum(rows[i]->a[0])); if (cut == 2) t += string(",") + junk; else if (cut != 1) { t += (st & 16 ? ", " : ",") + snum(rows[i]->a[1]); if (st & 1) t += "," + snum(270 + i % 30); }
    if (i + 1 < n || p.e("newline", 1)) t += nl;
    if ((st & 4) && !(st & 2) && (i == n / 2 || i == n - 1) && p.e("newline", 1)) t += "\n";     // blank lines carry nothing
  }
  return t;
}
void execute_standalone(const Plan& plan) {
  g_mem.fill = (int)plan.e("heap", 1); g_mem.poison = (int)plan.e("poison", 0); g_mem.stack = (int)plan.e("stack", 1); g_mem.seed = plan.seed;
  put("cfg0.txt", cfg_text(plan.inst[0], "soil0.dat", "forcing.csv")); put("soil0.dat", soil_text(plan.inst[0])); put("forcing.csv", forcing_text(plan));
  if (!plan.e("keep")) { unlink("data_variables.csv"); unlink("data_layers.csv"); }
  g_io = plan.io; g_bufsz = (int)plan.e("bufsz", 0); g_crash = plan.env.count("crash") ? (uint64_t)plan.e("crash") : ~0ull; g_trip = (uint64_t)4e9;
  char a0[] = "lasam", a1[] = "cfg0.txt"; char* av[] = {a0, a1, nullptr};
  strcpy(shm->opk, "main"); scrub_stack();
  try { int rc; { InModel g; rc = lasam_standalone_main(2, av); } shm->main_rc = rc; shm->main_returned = 1; }
  catch (std::exception& e) { g_in = 0; finish(O_EXC, 0, "exception", "exception left main(): %s", e.what()); }
  if (shm->main_rc == 0 && plan.env.count("bufsz")) count("probe:other-buffer-size");
  shm->steps = g_steps;
}
