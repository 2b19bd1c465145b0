// A simulated run is a pure function of a Plan (and of the code under test).
#pragma once
#include "rt.hpp"
#include <map>
#include <memory>
#include <string>
#include <vector>

enum Code : int {
  O_NOP = 0,
  O_RAD, O_ANG, O_PRIM, O_SUB, O_UGRID, O_PGRID, O_TGRID, O_TPGRID, O_USPEC, O_PSPEC, O_PSPECV, O_GEN, O_SPECMUT,
  O_RGPNEW, O_RGPVAR, O_RGPADD, O_RGPFIN, O_PROD,
  O_COPY, O_MOVE, O_CLONE, O_ASSIGN, O_ASSIGNMV, O_DESTROY,
  O_RECENTER, O_EDITW, O_EDITP, O_EDITQ,
  O_BATCH, O_BAT, O_BITER, O_READ, O_NAMER, O_NAMEA, O_LOCALE, O_BAD, O_TRAITS, O_LOG, O_DROP, O_VISIT, O_VEC, O_MINI, O_NEST, O_THROW, O_QUIET, O_QSHARE, O_QLOOK,
  O_NCODES
};
extern const char* code_name[O_NCODES];

struct Op {
  int code = O_NOP;
  int task = -1;          // -1: sequential part before the tasks, 0..: task, 20+t: while the thread of task t ends, 100: after the tasks, 102: while the process ends;
                          // with env.rounds, 101: once before the first round, 0..: a round's tasks, 103: the end of a round
  int dst = 0, src = 0, src2 = 0; // slots; 100+k: slot k of the shared (sequential part) world
  int64_t a[6] = {0, 0, 0, 0, 0, 0};
  double d[4] = {0, 0, 0, 0};
  std::string s;
  std::vector<int64_t> v;
  rt::Fault f;
  int sweep = 0;          // attempt with the 1st, 2nd, ... request refused until it succeeds
  int rep = 0;            // build-and-destroy this often first (leak check)
};

struct Plan {
  int prop = 0;
  uint64_t seed = 0;
  std::string variant;
  rt::Env env;
  int twin = 0;           // run again under another environment and compare every result: 1 memory, 2 clock, 3 one task at a time, 4 locale untouched, 5 other surroundings
  std::vector<Op> ops;
  std::vector<rt::SchedEnt> sched;   // only with ST_REPLAY
};

struct Ref { int status = 0; /*0 none 1 ok 2 throws 3 dead*/ uint64_t hash = 0; uint64_t n = 0; std::vector<double> bits; };
typedef std::map<std::string, Ref> RefMap;

// ops.cpp
void refs_needed(const Plan&, std::vector<std::string>&);
void run_reference(const std::string& key);      // in a forked child; writes shm->ref*
void execute(const Plan&, const RefMap&);        // in a forked child
extern const char* sim_variant;
extern bool sim_early;                            // the whole simulation runs before main()
void sim_early_hook();                            // main.cpp

// gen.cpp
extern const char* twin_names[6];
Plan generate(int prop, uint64_t seed, const std::string& variant);

#define PB(n) (1ull << (n))
