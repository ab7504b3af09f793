#include "plan.h"
#include <sstream>
#include <cstdio>
namespace sim {
const char *op_name[OP_NKINDS] = {
  "NOP", "OPEN", "CLOSE", "DESTROY", "ROOT", "GET", "HAS", "INSERT", "REMOVE", "PROVE",
  "ITER", "INJECT", "TXNEW", "TXDEL", "TXCLEAR", "TXROOT", "TXINJ", "TXGET", "TXHAS",
  "TXINS", "TXREM", "TXPROVE", "TXCOMMIT", "ITNEW", "ITDB", "ITNEXT", "ITDEL", "AUDIT",
  "KILL", "POWER", "DAMAGE", "FILL", "FORGE", "TAMPER", "FOREIGN", "LISTCHK", "CLI",
  "TXFULL", "DRAIN", "CORRUPT", "LIMITS", "IMPORT", "COPY", "STORED", "CHDIR", "MANY"};

std::string plan_text(const Plan &p) {
  std::ostringstream o;
  o << "urkelsim 1\nprop " << p.prop << "\nbuild " << p.build << "\n";
  for (auto &k : p.knob) o << "knob " << k.first << " " << k.second << "\n";
  o << "sched " << p.sched.seed << " " << p.sched.permille << " " << p.sched.mem_permille << " " << (p.sched.explicit_ ? 1 : 0) << "\n";
  for (auto &d : p.sched.dev) o << "dev " << d.first << " " << d.second << "\n";
  for (auto &op : p.ops) {
    o << "op " << op.client << " " << op_name[op.kind];
    for (int64_t v : op.a) o << " " << v;
    o << "\n";
    for (auto &f : op.faults)
      o << "  fault " << sys_name[f.cls] << " " << f.nth << " " << act_name[f.act] << " " << f.arg << " " << f.count << "\n";
  }
  o << "end\n";
  return o.str();
}
bool plan_parse(const std::string &text, Plan &p) {
  std::istringstream in(text);
  std::string line;
  p = Plan();
  bool ok = false, done = false;
  while (std::getline(in, line)) {
    std::istringstream l(line);
    std::string w;
    if (!(l >> w) || w[0] == '#') continue;
    if (w == "urkelsim") ok = true;
    else if (w == "prop") l >> p.prop;
    else if (w == "build") l >> p.build;
    else if (w == "knob") { std::string n; int64_t v; l >> n >> v; p.knob[n] = v; }
    else if (w == "sched") { int e; l >> p.sched.seed >> p.sched.permille >> p.sched.mem_permille >> e; p.sched.explicit_ = e; }
    else if (w == "dev") { uint64_t s; int c; l >> s >> c; p.sched.dev[s] = c; }
    else if (w == "op") {
      Op op; std::string n;
      l >> op.client >> n;
      for (int i = 0; i < OP_NKINDS; i++) if (n == op_name[i]) op.kind = i;
      for (auto &v : op.a) l >> v;
      p.ops.push_back(op);
    } else if (w == "fault") {
      Fault f; std::string c, a;
      l >> c >> f.nth >> a >> f.arg >> f.count;
      for (int i = 0; i < S_NCNT; i++) if (c == sys_name[i]) f.cls = i;
      for (int i = 0; i < A_NACT; i++) if (a == act_name[i]) f.act = i;
      if (p.ops.empty()) return false;
      p.ops.back().faults.push_back(f);
    } else if (w == "end") done = true;
    else if (w == "expect" || w == "note") continue;
    else return false;
  }
  return ok && done;
}
}  // namespace sim
