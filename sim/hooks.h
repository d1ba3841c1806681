// Seams: everything nondeterministic or fallible that the model touches goes through here.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include "plan.h"

enum Outcome { O_NONE = 0, O_OK, O_VIOL, O_ABORT, O_ASSERT, O_EXIT, O_EXC, O_SIGNAL, O_BUDGET, O_TIMEOUT, O_CRASH, O_HARNESS };
extern const char* const outcome_name[];

constexpr int NCOUNT = 160;
constexpr uint32_t SIGBITS = 1u << 20, COVBITS = 1u << 16;
constexpr size_t TRACEMAX = 6u << 20;
struct Named { char name[40]; double v; };

struct Shm {
  // per run
  int outcome, code, site_op, site_inst;
  char cls[64]; char msg[1600]; char opk[24];
  uint64_t hash; size_t ntrace; int trace_full;
  uint64_t steps; int main_rc, main_returned;
  uint64_t live_blocks, live_bytes;
  int alloc_seen;
  int stop_op;                      // op index reached
  // accumulated over the worker's life
  uint64_t updates, runs; double sim_s, total_steps;
  Named cnt[NCOUNT]; int ncnt;      // counters (faults, probes)
  Named met[NCOUNT]; int nmet;      // meters (maxima)
  uint8_t sig[SIGBITS / 8], sched[SIGBITS / 8], cov[COVBITS / 8];
  double trace[TRACEMAX];
};
extern Shm* shm;

void count(const std::string& name, double n = 1);     // fault / probe counters
void meter(const char* name, double v);                // running maximum
void tr(double v);                                     // append to the trace (and the hash)
void sigbit(uint64_t h);                               // distinct structural states
void schedbit(uint64_t h);                             // distinct schedule-and-fault sequences

// --- model entry ---
extern int g_in;                                // >0 while real code runs on behalf of the simulator
struct InModel { InModel() : saved(g_in) { g_in = 1; } ~InModel() { g_in = saved; } int saved; };
extern uint64_t g_steps, g_trip, g_crash;       // basic-block clock; trip: work budget; crash: power cut
[[noreturn]] void finish(int outcome, int code, const char* cls, const char* fmt, ...) __attribute__((format(printf, 4, 5)));
[[noreturn]] void power_cut();

// --- memory ---
struct MemEnv { int fill = 0, poison = 0, stack = 0; uint64_t seed = 1; int fail_at = -1; };
extern MemEnv g_mem;
void scrub_stack();
void live_model(uint64_t& blocks, uint64_t& bytes);  // live allocations made by real code
void dirty_heap(uint64_t seed);                      // allocate, scribble, free: somebody else's history

// --- storage ---
extern std::vector<IoRule> g_io;
extern int g_bufsz;
