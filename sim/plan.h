// A plan is one complete, explicit simulated execution: configuration,
// operations, faults and schedule. Text form = replay file.
#pragma once
#include "sim.h"

namespace sim {
enum OpKind {
  OP_NOP, OP_OPEN, OP_CLOSE, OP_DESTROY, OP_ROOT, OP_GET, OP_HAS, OP_INSERT, OP_REMOVE, OP_PROVE,
  OP_ITER, OP_INJECT, OP_TXNEW, OP_TXDEL, OP_TXCLEAR, OP_TXROOT, OP_TXINJ, OP_TXGET, OP_TXHAS,
  OP_TXINS, OP_TXREM, OP_TXPROVE, OP_TXCOMMIT, OP_ITNEW, OP_ITDB, OP_ITNEXT, OP_ITDEL, OP_AUDIT,
  OP_KILL, OP_POWER, OP_DAMAGE, OP_FILL, OP_FORGE, OP_TAMPER, OP_FOREIGN, OP_LISTCHK, OP_CLI,
  OP_TXFULL, OP_DRAIN, OP_CORRUPT, OP_LIMITS, OP_IMPORT, OP_COPY, OP_STORED, OP_CHDIR, OP_MANY, OP_NKINDS
};
extern const char *op_name[OP_NKINDS];

struct Op {
  int client = 0;
  int kind = OP_NOP;
  int64_t a[5] = {0, 0, 0, 0, 0};
  std::vector<Fault> faults;
};

struct Plan {
  std::string prop = "C01";
  std::string build = "asan";
  std::map<std::string, int64_t> knob;
  Sched sched;
  std::vector<Op> ops;
  int64_t k(const char *n, int64_t d = 0) const { auto it = knob.find(n); return it == knob.end() ? d : it->second; }
};
std::string plan_text(const Plan &p);
bool plan_parse(const std::string &text, Plan &p);

struct Result {
  bool violated = false;
  std::string cls, msg;
  uint64_t hash = 0, events = 0;
  Stats st;
  std::map<uint64_t, int> taken;
  std::vector<std::string> log;
  std::vector<std::vector<int>> counts;  // system calls per op per class (for fault placement)
  int faulted = 0;                       // operations in which a fault fired
  std::vector<std::string> known;        // known findings hit
};
Result execute(const Plan &p, bool verbose);
// `dry`, if given, receives the result of a fault-free trial run when one was needed.
Plan generate(const std::string &prop, uint64_t seed, int tier, const std::string &build, Result *dry);
extern void (*g_on_execute)(const Plan &);
}  // namespace sim
