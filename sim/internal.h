#pragma once
#include <stdint.h>
#include "sim.h"
namespace sim {
static const int kMaxCounters = 200, kMaxStates = 512, kMaxRec = 60000;
struct Shm {
  volatile int32_t status;
  char cls[64];
  char msg[4000];
  uint64_t hash, events;
  int32_t nontrivial;
  int32_t nstates;
  uint64_t states[kMaxStates];
  int32_t ncounters;
  struct Counter { char key[56]; int64_t v; bool mx; } c[kMaxCounters];
  int32_t nrec;
  struct Rec { uint64_t at; int32_t to; } rec[kMaxRec];
};
extern Shm *g_shm;
void run_begin();
void io_publish();
void mem_publish();
void sched_publish();
void cov_init();
uint32_t cov_reached();
uint32_t cov_total();
extern __thread int t_sut;   // depth inside code under test
}
