// pm_model: drives the real PassManager (libcodonc built from /repo) with one scripted history of
// registrations, requests and runs read from standard input; passes and analyses are simulated: they
// record what they observe and fail where the script says.  Only the public interface is used.
//
//   M init key,key          new manager (EMPTY|DEBUG|RELEASE|JIT) with disabled keys
//   A slot key req,req      register analysis 'key'; reqs name slots
//   P slot key before req,req inv,inv repeat look,look   register pass; before is a slot or a raw key or '-'
//   F slot n                the n-th execution of that pass/analysis throws
//   R                       run the pipeline
//   G slot                  ask for the result of an analysis
//   H slot|D key            hasPass/hasAnalysis | isDisabled
#include "codon/cir/cir.h"
#include "codon/cir/transform/manager.h"
#include <cstdio>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
using namespace codon::ir;
using transform::PassManager;

struct Fault {};
static std::map<std::string, std::string> keyOf;          // slot -> unique key
static std::map<std::string, int> runs;                   // slot -> executions so far
static std::map<std::string, std::set<int>> faults;       // slot -> failing executions
static int serial = 0;

struct Res : analyze::Result {
  int serial;
  std::string slot;
};
static std::string seen(Res *r, const std::string &slot) {
  if (!r) return slot + "=none";
  if (r->slot != slot) return slot + "=foreign:" + r->slot;
  return slot + "=" + std::to_string(r->serial);
}
struct An : analyze::Analysis {
  std::string slot, key;
  std::vector<std::string> look;
  std::string getKey() const override { return key; }
  std::unique_ptr<analyze::Result> run(const Module *) override {
    int n = ++runs[slot];
    int s = ++serial;
    printf("analysis %s n=%d serial=%d", slot.c_str(), n, s);
    for (auto &l : look) printf(" %s", seen(getAnalysisResult<Res>(keyOf[l]), l).c_str());
    bool f = faults[slot].count(n);
    printf("%s\n", f ? " throws" : "");
    if (f) throw Fault();
    auto r = std::make_unique<Res>();
    r->serial = s;
    r->slot = slot;
    return r;
  }
};
struct Ps : transform::Pass {
  std::string slot, key;
  int repeat;
  std::vector<std::string> look;
  std::string getKey() const override { return key; }
  void run(Module *) override {
    int n = ++runs[slot];
    printf("pass %s n=%d", slot.c_str(), n);
    for (auto &l : look) printf(" %s", seen(getAnalysisResult<Res>(keyOf[l]), l).c_str());
    bool f = faults[slot].count(n);
    printf("%s\n", f ? " throws" : "");
    if (f) throw Fault();
  }
  bool shouldRepeat(int num) const override {
    printf("repeat? %s %d\n", slot.c_str(), num);
    return num < repeat;
  }
};
static std::vector<std::string> split(const std::string &s) {
  std::vector<std::string> v;
  std::stringstream ss(s);
  std::string x;
  if (s != "-")
    while (std::getline(ss, x, ',')) v.push_back(x);
  return v;
}
static std::vector<std::string> keys(const std::vector<std::string> &slots) {
  std::vector<std::string> v;
  for (auto &s : slots) v.push_back(keyOf.count(s) ? keyOf[s] : s);
  return v;
}

int main() {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  auto module = std::make_unique<Module>("sim");
  std::unique_ptr<PassManager> pm;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::stringstream in(line);
    std::string op, a, b, c, d, e, f;
    in >> op;
    if (op == "M") {
      in >> a >> b;
      auto init = a == "EMPTY" ? PassManager::EMPTY : a == "DEBUG" ? PassManager::DEBUG
                  : a == "JIT" ? PassManager::JIT : PassManager::RELEASE;
      pm = std::make_unique<PassManager>(init, split(b));
    } else if (op == "A") {
      in >> a >> b >> c;
      auto x = std::make_unique<An>();
      x->slot = a; x->key = b; x->look = split(c);
      keyOf[a] = pm->registerAnalysis(std::move(x), keys(split(c)));
      printf("key %s '%s' has=%d\n", a.c_str(), keyOf[a].c_str(), (int)pm->hasAnalysis(keyOf[a]));
    } else if (op == "P") {
      int rep;
      in >> a >> b >> c >> d >> e >> rep >> f;
      auto x = std::make_unique<Ps>();
      x->slot = a; x->key = b; x->repeat = rep; x->look = split(f);
      keyOf[a] = pm->registerPass(std::move(x), c == "-" ? "" : keyOf.count(c) ? keyOf[c] : c, keys(split(d)),
                                  keys(split(e)));
      printf("key %s '%s' has=%d\n", a.c_str(), keyOf[a].c_str(), (int)pm->hasPass(keyOf[a]));
    } else if (op == "F") {
      int n;
      in >> a >> n;
      faults[a].insert(n);
    } else if (op == "R") {
      printf("run\n");
      try { pm->run(module.get()); printf("end\n"); }
      catch (Fault &) { printf("end throws\n"); }
    } else if (op == "G") {
      in >> a;
      printf("get %s\n", seen(static_cast<Res *>(pm->getAnalysisResult(keyOf[a])), a).c_str());
    } else if (op == "D") {
      in >> a;
      printf("disabled %s %d\n", a.c_str(), (int)pm->isDisabled(a));
    }
  }
  printf("done\n");
  return 0;
}
