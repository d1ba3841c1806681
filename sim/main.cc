// lasamsim: campaign PROP FIRST COUNT STRIDE OUT.json REPLAYDIR [deep] | replay FILE | one PROP SEED | show PROP SEED | land PROP A B
#include "world.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <cstring>
#include <csignal>
#include <ctime>
#include <cmath>
#include <iostream>
#include <fstream>
using namespace std;
static string scratch; static int capfd = -1;
string slurp(const string& f) { ifstream i(f, ios::binary); stringstream s; s << i.rdbuf(); return s.str(); }

Res run_one(const Plan& p, bool land) {
  shm->outcome = O_NONE; shm->code = 0; memset(shm->cls, 0, sizeof shm->cls); shm->msg[0] = 0; memset(shm->opk, 0, sizeof shm->opk); shm->hash = 1469598103934665603ull; shm->ntrace = 0; shm->steps = 0; shm->alloc_seen = 0; shm->stop_op = 0; shm->site_op = shm->site_inst = 0; shm->main_rc = -1; shm->main_returned = 0; shm->trace_full = 0; shm->live_blocks = 0;
  if (ftruncate(capfd, 0)) {} lseek(capfd, 0, SEEK_SET);
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    dup2(capfd, 1); dup2(capfd, 2);
    rlimit rl{120, 122}; setrlimit(RLIMIT_CPU, &rl); rlimit c0{0, 0}; setrlimit(RLIMIT_CORE, &c0);
#ifdef SIM_STD
    if (p.e("standalone") > 0) execute_standalone(p); else
#endif
    execute(p, p.prop, land);
    if (shm->outcome == O_NONE) shm->outcome = O_OK;
    fflush(stdout); _exit(0);
  }
  int st = 0; waitpid(pid, &st, 0);
  Res r; r.outcome = shm->outcome; r.code = shm->code; r.site_op = shm->site_op; r.site_inst = shm->site_inst; r.cls = shm->cls; r.msg = shm->msg; r.opk = shm->opk; r.hash = shm->hash; r.main_rc = shm->main_rc; r.main_returned = shm->main_returned; r.alloc_seen = shm->alloc_seen; r.steps = shm->steps; r.live = shm->live_blocks;
  if (r.outcome == O_NONE || (WIFSIGNALED(st) && r.outcome != O_VIOL)) {
    if (WIFSIGNALED(st)) { int s = WTERMSIG(st); r.code = s; r.outcome = (s == SIGXCPU || s == SIGKILL) ? O_TIMEOUT : O_SIGNAL; r.msg = string("signal ") + strsignal(s); }
    else { r.outcome = O_SIGNAL; r.code = 1000 + WEXITSTATUS(st); r.msg = "sanitizer or runtime ended the process"; }
  }
  if (shm->trace_full) { r.outcome = O_HARNESS; r.msg = "trace overflow"; }
  static char b[20001]; off_t e = lseek(capfd, 0, SEEK_END); off_t f = e > 20000 ? e - 20000 : 0; ssize_t k = pread(capfd, b, 20000, f); if (k < 0) k = 0; r.out.assign(b, k);
  if (r.code == 1099) { // keep the sanitizer's finding, not its legend; addresses out
    size_t q = r.out.find("ERROR: AddressSanitizer"); if (q == string::npos) q = r.out.find("runtime error:");
    if (q != string::npos) { q = r.out.rfind('\n', q); q = q == string::npos ? 0 : q + 1; string s = r.out.substr(q, 900), t; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '0' && i + 1 < s.size() && s[i + 1] == 'x') { i += 1; while (i + 1 < s.size() && isxdigit((unsigned char)s[i + 1])) i++; t += "0x.."; } else if (s[i] == '=') continue; else t += s[i]; } r.msg += ": " + t; r.out.clear(); } }
  shm->runs++; shm->total_steps += (double)r.steps;
  return r;
}
static string jstr(const string& s) { string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char t[8]; snprintf(t, sizeof t, "\\u%04x", c); o += t; } else o += c; } return o + "\""; }
static int popc(const uint8_t* m, size_t n) { int b = 0; for (size_t i = 0; i < n; i++) b += __builtin_popcount(m[i]); return b; }

// faults that fired and structural changes of a profile: a run without any is trivial
static double events() { double s = 0; for (int i = 0; i < shm->ncnt; i++) if (!strncmp(shm->cnt[i].name, "fault:", 6) || !strncmp(shm->cnt[i].name, "probe:front-", 12)) s += shm->cnt[i].v; return s; }
static void stats(ostream& o) {
  o << "\"counters\":{"; for (int i = 0; i < shm->ncnt; i++) o << (i ? "," : "") << jstr(shm->cnt[i].name) << ":" << (long long)shm->cnt[i].v; o << "}";
  o << ",\"meters\":{"; for (int i = 0; i < shm->nmet; i++) { double v = shm->met[i].v; o << (i ? "," : "") << jstr(shm->met[i].name) << ":"; if (std::isfinite(v)) o << v; else o << "\"nan\""; } o << "}";
  o << ",\"updates\":" << shm->updates << ",\"process_runs\":" << shm->runs << ",\"sim_s\":" << (long long)shm->sim_s << ",\"blocks\":" << (long long)shm->total_steps;
}
int main(int argc, char** argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("LASAMSIM_REEXEC")) { // one memory layout for every run
    if (personality(ADDR_NO_RANDOMIZE | personality(0xffffffff)) != -1) { setenv("LASAMSIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
  }
  shm = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  string base = getenv("LASAMSIM_TMP") ? getenv("LASAMSIM_TMP") : "/tmp"; string t = base + "/lsim.XXXXXX"; vector<char> tb(t.begin(), t.end()); tb.push_back(0);
  if (!mkdtemp(tb.data())) { perror("mkdtemp"); return 2; } scratch = tb.data();
  char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) return 2;
  auto absn = [&](string f) { return f.empty() || f[0] == '/' ? f : string(cwd) + "/" + f; };
  if (argc < 2) return 2;
  string cmd = argv[1]; int rc = 0;
  string a2 = argc > 2 ? argv[2] : "";
  string rtext; if (cmd == "replay") rtext = slurp(absn(a2));
  if (chdir(scratch.c_str())) return 2;
  capfd = memfd_create("cap", 0);
  if (cmd == "campaign") {
    string prop = a2; uint64_t first = strtoull(argv[3], 0, 10), n = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10); string out = absn(argv[6]), rdir = absn(argv[7]); bool deep = argc > 8;
    timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    uint64_t done = 0, h = 0, unconfirmed = 0; string viol; vector<string> samples; vector<uint64_t> nontrivial;
    double limit = getenv("LASAMSIM_SECONDS") ? atof(getenv("LASAMSIM_SECONDS")) : 1e18;
    string mark = getenv("LASAMSIM_TMP") ? base + "/found" : "";      // smallest violating seed found by any worker: nobody looks beyond it
    for (uint64_t k = 0; k < n; k++) {
      uint64_t seed = first + k * stride; if (!mark.empty() && !access(mark.c_str(), F_OK)) { uint64_t s = strtoull(slurp(mark).c_str(), 0, 10); if (s && seed > s) break; }
      Plan p = gen_plan(prop, seed, deep); double e0 = events(); Verdict v = judge(p); done++; if (events() > e0) nontrivial.push_back(v.hash); h = h * 1099511628211ull + v.hash;
      if (samples.size() < 3) { string s = plan_to_text(p); samples.push_back(s.substr(0, 700)); }
      if (v.viol) {
        Verdict w = judge(p);
        if (!w.viol || w.cls != v.cls) { unconfirmed++; if (prop != "C09") continue; v.cls = "C09:nondeterministic"; v.msg = "the same plan gave two different verdicts"; }
        if (!mark.empty()) { uint64_t s = access(mark.c_str(), F_OK) ? 0 : strtoull(slurp(mark).c_str(), 0, 10); if (!s || seed < s) { string tmp = mark + to_string(getpid()); { ofstream o(tmp); o << seed; } rename(tmp.c_str(), mark.c_str()); } }
        Plan m = shrink(p, v, 250); Verdict x = judge(m); if (!x.viol) { m = p; x = v; }
        string f = rdir + "/" + prop + "-" + to_string(seed) + ".plan"; ofstream o(f); string hm = x.msg.substr(0, 400); for (char& ch : hm) if ((unsigned char)ch < 32) ch = ' '; o << "# " << x.cls << ": " << hm << "\n# minimised from seed " << seed << " (" << p.ops.size() << " -> " << m.ops.size() << " operations); replay: python3 check.py --replay <this file>\n# hash " << x.hash << "\n"; string pt = plan_to_text(m); o << pt; o.close();
        viol = "{\"class\":" + jstr(x.cls) + ",\"message\":" + jstr(x.msg) + ",\"seed\":" + to_string(seed) + ",\"replay\":" + jstr(f) + ",\"ops\":" + to_string(m.ops.size()) + "}";
        break;
      }
      clock_gettime(CLOCK_MONOTONIC, &t1); if ((t1.tv_sec - t0.tv_sec) > limit) break;
    }
    clock_gettime(CLOCK_MONOTONIC, &t1);
    ofstream o(out); o << "{\"runs\":" << done << ",\"hash\":\"" << h << "\",\"unconfirmed\":" << unconfirmed << ",\"wall\":" << (t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec) << ","; stats(o);
    o << ",\"violations\":[" << viol << "],\"samples\":["; for (size_t i = 0; i < samples.size(); i++) o << (i ? "," : "") << jstr(samples[i]); o << "]}\n"; o.close();
    ofstream b(out + ".bits", ios::binary); b.write((char*)shm->sig, sizeof shm->sig); b.write((char*)shm->sched, sizeof shm->sched); b.write((char*)shm->cov, sizeof shm->cov); b.write((char*)nontrivial.data(), nontrivial.size() * 8);
    rc = viol.empty() ? 0 : 1;
  } else if (cmd == "replay") {
    Plan p; if (!plan_from_text(rtext, p)) { fprintf(stderr, "cannot parse %s\n", a2.c_str()); rc = 2; }
    else { Verdict v = judge(p); printf("%s %s\nhash %llu\n%s\n", v.viol ? "VIOLATED" : "HELD", v.cls.c_str(), (unsigned long long)v.hash, v.msg.c_str()); rc = v.viol ? 1 : 0; }
  } else if (cmd == "one") {
    Plan p = gen_plan(a2, strtoull(argv[3], 0, 10), argc > 4); Verdict v = judge(p); printf("%s %s\nhash %llu\n%s\n", v.viol ? "VIOLATED" : "HELD", v.cls.c_str(), (unsigned long long)v.hash, v.msg.c_str()); rc = v.viol;
  } else if (cmd == "show") cout << plan_to_text(gen_plan(a2, strtoull(argv[3], 0, 10), argc > 4));
  else if (cmd == "export") { // a plan as input files and a call script for a program without the simulator
    Plan p; if (plan_from_text(slurp(absn(a2)), p)) { string d = absn(argv[3]) + "/"; ofstream sc(d + "script.txt");
      for (size_t i = 0; i < p.inst.size(); i++) { string n = to_string(i); ofstream(d + "cfg" + n + ".txt") << cfg_text(p.inst[i], "soil" + n + ".dat", a2.find("C17") == string::npos ? "" : "forcing.csv"); ofstream(d + "soil" + n + ".dat") << soil_text(p.inst[i]); }
      for (auto& o : p.ops) { if (o.k == "note" || o.k == "dirt") continue; sc << o.k << " " << o.i << " " << (o.s.empty() || !o.s.compare(0, 6, "fault:") ? "-" : o.s) << " " << o.a.size(); for (double v : o.a) sc << " " << snum(v); sc << "\n"; } } else rc = 2;
  }
  else if (cmd == "hunt") { // many violations, no shrinking: class histogram
    uint64_t a = strtoull(argv[3], 0, 10), b = strtoull(argv[4], 0, 10); map<string, pair<int, string>> m;
    for (uint64_t s = a; s < b; s++) { Plan p = gen_plan(a2, s, argc > 5); Verdict v = judge(p); if (v.viol) { auto& x = m[v.cls]; x.first++; if (x.second.empty()) x.second = to_string(s) + (p.mode == "-" ? "" : " " + p.mode) + " " + v.msg.substr(0, 260); } }
    for (auto& x : m) printf("%s %d e.g. seed %s\n", x.first.c_str(), x.second.first, x.second.second.c_str());
    cout << "{"; stats(cout); cout << "}\n";
  } else if (cmd == "land") {
    uint64_t a = strtoull(argv[3], 0, 10), b = strtoull(argv[4], 0, 10);
    map<string, int> ocs; for (uint64_t s = a; s < b; s++) { Plan p = gen_plan(a2, s, argc > 5); Res r = run_one(p, true); if (r.outcome != O_OK) printf("seed %lu: %s %s %s\n", s, outcome_name[r.outcome], r.cls.c_str(), r.msg.c_str()); }
    for (int i = 0; i < shm->ncnt; i++) printf("COUNT %s %g\n", shm->cnt[i].name, shm->cnt[i].v);
    for (int i = 0; i < shm->nmet; i++) printf("METER %s %.6g\n", shm->met[i].name, shm->met[i].v);
    printf("SIGS %d SCHED %d COV %d updates %lu\n", popc(shm->sig, sizeof shm->sig), popc(shm->sched, sizeof shm->sched), popc(shm->cov, sizeof shm->cov), shm->updates);
  } else rc = 2;
  for (auto f : {"forcing.csv", "data_variables.csv", "data_layers.csv"}) unlink(f);
  for (int i = 0; i < 8; i++) { unlink(("cfg" + to_string(i) + ".txt").c_str()); unlink(("bad" + to_string(i) + ".txt").c_str()); unlink(("soil" + to_string(i) + ".dat").c_str()); }
  if (chdir("/")) {} rmdir(scratch.c_str());
  return rc;
}
