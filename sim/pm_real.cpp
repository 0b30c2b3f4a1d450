// pm_real: parses and compiles a program with the real pass pipeline while every pass of the manager is
// wrapped; before each execution of a pass, the analysis results the manager hands to it are compared with
// results computed afresh, from nothing, by a second manager on the same module.
//   pm_real FILE debug|release|jit [-py] [-disable KEY]... 
#include <algorithm>
#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <iostream>
#include <fstream>
#include "codon/cir/cir.h"
#include "codon/cir/analyze/analysis.h"
#include "codon/cir/transform/pass.h"
#define private public
#include "codon/cir/transform/manager.h"
#undef private
#include "codon/cir/analyze/dataflow/capture.h"
#include "codon/cir/analyze/dataflow/cfg.h"
#include "codon/cir/analyze/dataflow/dominator.h"
#include "codon/cir/analyze/dataflow/reaching.h"
#include "codon/cir/analyze/module/global_vars.h"
#include "codon/cir/analyze/module/side_effect.h"
#include "codon/compiler/compiler.h"
#include "codon/compiler/error.h"
#include <cstdio>
#include <map>
#include <set>

using namespace codon::ir;
using namespace codon::ir::analyze;
using namespace codon::ir::analyze::dataflow;
using transform::PassManager;

// A textual fingerprint of each kind of result that does not depend on addresses, synthetic ids or hash order.
struct Print {
  const Module *M;
  std::map<codon::ir::id_t, std::string> out;       // function id (or 0) -> text
};

static std::unordered_map<const Value *, int> synth(const CFGraph *g) {
  std::unordered_map<const Value *, int> m;
  int n = 0;
  for (auto *v : *const_cast<CFGraph *>(g)) (void)v;
  for (auto it = const_cast<CFGraph *>(g)->synth_begin(); it != const_cast<CFGraph *>(g)->synth_end(); ++it)
    m[*it] = n++;
  return m;
}
static std::string vname(const Value *v, const std::unordered_map<const Value *, int> &sy) {
  auto it = sy.find(v);
  return it != sy.end() ? "s" + std::to_string(it->second) : std::to_string(v->getId());
}
static std::map<codon::ir::id_t, std::string> printCFG(CFResult *r) {
  std::map<codon::ir::id_t, std::string> out;
  for (auto &p : r->graphs) {
    std::ostringstream os;
    auto sy = synth(p.second.get());
    std::unordered_map<const CFBlock *, int> num;
    int n = 0;
    for (auto *b : *p.second) num[b] = n++;
    for (auto *b : *p.second) {
      os << num[b] << "[";
      for (auto *v : *b) os << vname(v, sy) << " ";
      std::set<int> s;
      for (auto it = b->successors_begin(); it != b->successors_end(); ++it) s.insert(num.count(*it) ? num[*it] : -1);
      os << "]->";
      for (int x : s) os << x << ",";
      os << ";";
    }
    out[p.first] = os.str();
  }
  return out;
}
static std::map<codon::ir::id_t, std::string> printRD(const Module *M, RDResult *r) {
  std::map<codon::ir::id_t, std::string> out;
  for (auto &p : r->results) {
    auto git = r->cfgResult->graphs.find(p.first);
    if (git == r->cfgResult->graphs.end()) { out[p.first] = "no graph"; continue; }
    auto *g = git->second.get();
    if (g->size() > 60) continue;
    auto sy = synth(g);
    std::unordered_map<codon::ir::id_t, std::string> sid;
    for (auto &q : sy) sid[q.first->getId()] = "s" + std::to_string(q.second);
    auto *f = cast<BodiedFunc>(const_cast<BodiedFunc *>(g->getFunc()));
    std::vector<const Var *> vars;
    for (auto it = f->arg_begin(); it != f->arg_end(); ++it) vars.push_back(*it);
    for (auto *v : *f) vars.push_back(v);
    std::ostringstream os;
    int bn = 0;
    for (auto *b : *g) {
      ++bn;
      if (b->begin() == b->end()) continue;
      for (auto *v : vars) {
        if (p.second->isInvalid(v)) { os << "!" << v->getId() << " "; continue; }
        std::set<std::string> ds;
        for (auto &d : p.second->getReachingDefinitions(v, b->back())) {
          auto nm = [&](codon::ir::id_t i) { return sid.count(i) ? sid[i] : std::to_string(i); };
          ds.insert((d.known() ? "k" : "u") + nm(d.getId()));
        }
        os << bn << ":" << v->getId() << "{";
        for (auto &s : ds) os << s << " ";
        os << "}";
      }
    }
    out[p.first] = os.str();
  }
  return out;
}
static std::map<codon::ir::id_t, std::string> printDom(DominatorResult *r) {
  std::map<codon::ir::id_t, std::string> out;
  for (auto &p : r->results) {
    auto git = r->cfgResult->graphs.find(p.first);
    if (git == r->cfgResult->graphs.end()) { out[p.first] = "no graph"; continue; }
    auto *g = git->second.get();
    if (g->size() > 40) continue;
    std::ostringstream os;
    for (auto *a : *g)
      for (auto *b : *g)
        if (a->begin() != a->end() && b->begin() != b->end())
          os << p.second->isDominated(a->front(), b->front());
    out[p.first] = os.str();
  }
  return out;
}
static std::map<codon::ir::id_t, std::string> printCap(CaptureResult *r) {
  std::map<codon::ir::id_t, std::string> out;
  for (auto &p : r->results) {
    std::ostringstream os;
    for (auto &c : p.second) {
      auto a = c.argCaptures;
      std::sort(a.begin(), a.end());
      os << "(";
      for (auto x : a) os << x << " ";
      os << c.returnCaptures << c.externCaptures << c.modified << ")";
    }
    out[p.first] = os.str();
  }
  return out;
}
static std::map<codon::ir::id_t, std::string> printSE(module::SideEffectResult *r) {
  std::map<codon::ir::id_t, std::string> out;
  for (auto &p : r->result) out[p.first] = std::to_string((int)p.second);
  return out;
}
static std::map<codon::ir::id_t, std::string> printGV(module::GlobalVarsResult *r) {
  std::map<codon::ir::id_t, std::string> out;
  for (auto &p : r->assignments) out[p.first] = std::to_string(p.second);
  return out;
}
static std::map<codon::ir::id_t, std::string> fingerprint(const Module *M, Result *r, const std::string &raw) {
  if (raw == CFAnalysis::KEY) return printCFG(static_cast<CFResult *>(r));
  if (raw == RDAnalysis::KEY) return printRD(M, static_cast<RDResult *>(r));
  if (raw == DominatorAnalysis::KEY) return printDom(static_cast<DominatorResult *>(r));
  if (raw == CaptureAnalysis::KEY) return printCap(static_cast<CaptureResult *>(r));
  if (raw == module::SideEffectAnalysis::KEY) return printSE(static_cast<module::SideEffectResult *>(r));
  return printGV(static_cast<module::GlobalVarsResult *>(r));
}

struct Probe : transform::Pass {
  std::function<void(Probe *)> f;
  std::string getKey() const override { return "sim-probe"; }
  void run(Module *) override { f(this); }
};

static bool hasFunc(const Module *M, codon::ir::id_t id) { return const_cast<Module *>(M)->getVar(id) != nullptr; }

static long compared = 0, passRuns = 0, entries = 0;
static int bad = 0;

// What a manager that has never run anything computes for the same standard analyses.
static std::map<std::string, std::map<codon::ir::id_t, std::string>> fresh(Module *M) {
  PassManager pm(PassManager::EMPTY);
  auto cfg = pm.registerAnalysis(std::make_unique<CFAnalysis>());
  auto rd = pm.registerAnalysis(std::make_unique<RDAnalysis>(cfg), {cfg});
  auto dom = pm.registerAnalysis(std::make_unique<DominatorAnalysis>(cfg), {cfg});
  auto cap = pm.registerAnalysis(std::make_unique<CaptureAnalysis>(rd, dom), {rd, dom});
  std::unique_ptr<Analysis> g = std::make_unique<module::GlobalVarsAnalyses>();
  auto gv = pm.registerAnalysis(std::move(g));
  auto se1 = pm.registerAnalysis(std::make_unique<module::SideEffectAnalysis>(cap, true), {cap});
  auto se2 = pm.registerAnalysis(std::make_unique<module::SideEffectAnalysis>(cap, false), {cap});
  std::map<std::string, std::map<codon::ir::id_t, std::string>> out;
  auto p = std::make_unique<Probe>();
  std::vector<std::string> all = {cfg, rd, dom, cap, gv, se1, se2};
  p->f = [&](Probe *x) {
    for (auto &k : all)
      out[k] = fingerprint(M, x->getAnalysisResult<Result>(k), k.substr(0, k.find(':')));
  };
  pm.registerPass(std::move(p), "", all);
  pm.run(M);
  return out;
}

struct Wrap : transform::Pass {
  std::unique_ptr<transform::Pass> inner;
  PassManager *pm;
  std::string key;
  bool check;
  int n = 0;
  std::string getKey() const override { return inner->getKey(); }
  bool shouldRepeat(int num) const override { return inner->shouldRepeat(num); }
  void run(Module *M) override {
    ++n;
    ++passRuns;
    printf("pass %s %d\n", key.c_str(), n);
    auto &reqs = pm->passes[key].reqs;
    if (check && !reqs.empty()) {
      std::set<std::string> need;
      std::function<void(const std::string &)> add = [&](const std::string &k) {
        if (need.insert(k).second)
          for (auto &d : pm->analyses[k].reqs) add(d);
      };
      for (auto &r : reqs) add(r);
      auto want = fresh(M);
      for (auto &k : need) {
        auto it = pm->results.find(k);
        bool direct = std::find(reqs.begin(), reqs.end(), k) != reqs.end();
        if (it == pm->results.end()) {
          if (direct) { printf("MISSING pass %s (execution %d) requires %s, which has no result\n", key.c_str(), n, k.c_str()); bad++; }
          continue;
        }
        auto w = want.find(k);
        if (w == want.end()) continue;
        auto got = fingerprint(M, it->second.get(), k.substr(0, k.find(':')));
        ++compared;
        entries += got.size();
        int shown = 0;
        for (auto &e : w->second) {
          auto g = got.find(e.first);
          if (g == got.end() || g->second != e.second) {
            bad++;
            if (shown++ < 2)
              printf("STALE pass %s (execution %d) is served %s for node %lld as '%.300s'; computed afresh it is '%.300s'\n",
                     key.c_str(), n, k.c_str(), (long long)e.first, g == got.end() ? "nothing" : g->second.c_str(),
                     e.second.c_str());
          }
        }
      }
    }
    inner->run(M);
  }
};

int main(int argc, char **argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  std::string file = argv[1], mode = argv[2];
  bool py = false;
  std::vector<std::string> disabled;
  for (int i = 3; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-py") py = true;
    else if (a == "-disable") disabled.push_back(argv[++i]);
  }
  auto m = mode == "debug" ? codon::Compiler::DEBUG : mode == "jit" ? codon::Compiler::JIT : codon::Compiler::RELEASE;
  codon::Compiler compiler(argv[0], m, disabled, false, py, false);
  bool failed = false;
  llvm::handleAllErrors(compiler.parseFile(file, 0, {}), [&](const codon::error::ParserErrorInfo &e) {
    failed = true;
    for (auto &g : e.getErrors())
      for (auto &x : g) fprintf(stderr, "%s\n", x.getMessage().c_str());
  });
  if (failed) { printf("REJECTED\n"); return 0; }
  auto *pm = compiler.getPassManager();
  std::string order;
  for (auto &k : pm->executionOrder) {
    auto w = std::make_unique<Wrap>();
    w->pm = pm;
    w->key = k;
    w->check = true;
    w->inner = std::move(pm->passes[k].pass);
    order += k + " ";
    pm->passes[k].pass = std::move(w);
  }
  printf("order %s\n", order.c_str());
  pm->run(compiler.getModule());
  printf("done bad=%d compared=%ld entries=%ld passes=%ld\n", bad, compared, entries, passRuns);
  return bad ? 4 : 0;
}
