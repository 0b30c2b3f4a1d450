// Minimal stand-in for exaloop's cpp-peglib fork (not available offline).
// It implements exactly the API surface that codon/parser/peg/{peg.cpp,rules.h} and the
// rule code generated by tools/peggen.py use: packrat PEG matching with immediate
// semantic actions, predicates, token captures and enter/leave hooks.
#pragma once
#include <algorithm>
#include <any>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>
#include <vector>
#include <sstream>
#include <stack>
#include <set>
#include <mutex>

namespace peg {

struct Definition;
using Log = std::function<void(size_t, size_t, const std::string &, const std::string &)>;
constexpr size_t FAIL = static_cast<size_t>(-1);
inline bool success(size_t l) { return l != FAIL; }
inline bool fail(size_t l) { return l == FAIL; }

struct Context;

struct SemanticValues : public std::vector<std::any> {
  SemanticValues() = default;
  const char *path = "";
  const char *ss = nullptr;
  std::vector<std::string_view> tokens;
  Context *c_ = nullptr;
  std::string_view sv_;
  size_t choice_ = 0, choice_count_ = 0;

  std::string_view sv() const { return sv_; }
  size_t choice() const { return choice_; }
  size_t choice_count() const { return choice_count_; }
  std::pair<size_t, size_t> line_info() const;
  std::string_view token(size_t id = 0) const {
    if (tokens.empty()) return sv_;
    return tokens.at(id);
  }
  std::string token_to_string(size_t id = 0) const { return std::string(token(id)); }
  template <typename T>
  std::vector<T> transform(size_t beg = 0, size_t end = static_cast<size_t>(-1)) const {
    std::vector<T> r;
    end = (std::min)(end, size());
    for (size_t i = beg; i < end; i++)
      r.emplace_back(std::any_cast<T>((*this)[i]));
    return r;
  }
  void append(SemanticValues &ch) {
    sv_ = ch.sv_;
    for (auto &v : ch) emplace_back(std::move(v));
    for (auto &t : ch.tokens) tokens.emplace_back(t);
  }
  void reset() {
    clear();
    tokens.clear();
    sv_ = std::string_view();
    choice_ = choice_count_ = 0;
  }
};

struct MemoEntry {
  size_t len;
  std::any val;
};

struct ErrorInfo {
  const char *error_pos = nullptr;
  const char *message_pos = nullptr;
  std::string message;
  void output_log(const Log &log, const char *s, size_t n) const {
    if (!log) return;
    const char *p = message_pos && (!error_pos || message_pos > error_pos) ? message_pos
                                                                          : error_pos;
    if (!p) p = s;
    size_t line = 1, col = 1;
    for (const char *q = s; q < p && q < s + n; q++) {
      if (*q == '\n') { line++; col = 1; } else col++;
    }
    std::string m;
    if (p == message_pos && !message.empty()) m = message;
    else {
      std::string tok;
      const char *q = p;
      while (q < s + n && (isalnum((unsigned char)*q) || *q == '_')) tok += *q++;
      if (tok.empty() && p < s + n) tok = (*p == '\n' || *p == '\r') ? "" : std::string(1, *p);
      m = "syntax error, unexpected '" + tok + "'";
    }
    log(line, col, m, "");
  }
};

struct Context {
  const char *path;
  const char *s;
  size_t l;
  bool packrat;
  Log log;
  bool cut = false;
  ErrorInfo error_info;
  std::unordered_map<uint64_t, MemoEntry> memo;
  std::vector<std::unique_ptr<SemanticValues>> stack;
  size_t depth = 0;
  std::vector<size_t> lineIdx;
  size_t nest = 0;

  Context(const char *path, const char *s, size_t l, bool packrat, Log log)
      : path(path), s(s), l(l), packrat(packrat), log(log) {
    lineIdx.push_back(0);
    for (size_t i = 0; i < l; i++)
      if (s[i] == '\n') lineIdx.push_back(i + 1);
  }
  SemanticValues &push() {
    if (depth == stack.size()) {
      stack.push_back(std::make_unique<SemanticValues>());
      stack.back()->path = path;
      stack.back()->ss = s;
      stack.back()->c_ = this;
    }
    auto &v = *stack[depth++];
    if (!v.empty() || !v.tokens.empty()) v.reset();
    v.sv_ = std::string_view();
    v.choice_ = v.choice_count_ = 0;
    return v;
  }
  void pop() { depth--; }
  void set_error(const char *p) {
    if (error_info.error_pos < p) error_info.error_pos = p;
  }
  std::pair<size_t, size_t> line_info(const char *p) const {
    size_t pos = p - s;
    auto it = std::upper_bound(lineIdx.begin(), lineIdx.end(), pos);
    size_t line = it - lineIdx.begin();
    return {line, pos - lineIdx[line - 1] + 1};
  }
};
inline std::pair<size_t, size_t> SemanticValues::line_info() const {
  return c_->line_info(sv_.data());
}
struct Scope {
  Context &c;
  SemanticValues &v;
  explicit Scope(Context &c) : c(c), v(c.push()) {}
  ~Scope() { c.pop(); }
};

struct Ope {
  struct Visitor {
    virtual ~Visitor() = default;
    virtual void visit(Ope &) {}
  };
  bool is_token = false, is_choice = false;
  virtual ~Ope() = default;
  virtual size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
                       std::any &dt) const = 0;
  virtual void link(std::unordered_map<std::string, Definition> &) {}
};
using P_ = std::shared_ptr<Ope>;

using Grammar = std::unordered_map<std::string, Definition>;

struct Seq : Ope {
  std::vector<P_> o;
  explicit Seq(std::vector<P_> v) : o(std::move(v)) {}
  size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
               std::any &dt) const override {
    Scope sc(c);
    size_t i = 0;
    for (auto &p : o) {
      auto l = p->parse(s + i, n - i, sc.v, c, dt);
      if (fail(l)) return l;
      i += l;
    }
    vs.append(sc.v);
    return i;
  }
  void link(Grammar &g) override { for (auto &p : o) p->link(g); }
};
struct Cho : Ope {
  std::vector<P_> o;
  explicit Cho(std::vector<P_> v) : o(std::move(v)) { is_choice = true; }
  size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
               std::any &dt) const override {
    bool saved = c.cut;
    c.cut = false;
    size_t r = FAIL;
    for (size_t id = 0; id < o.size(); id++) {
      Scope sc(c);
      auto l = o[id]->parse(s, n, sc.v, c, dt);
      if (success(l)) {
        vs.append(sc.v);
        vs.choice_ = id;
        vs.choice_count_ = o.size();
        r = l;
        break;
      }
      if (c.cut) break;
    }
    c.cut = saved;
    return r;
  }
  void link(Grammar &g) override { for (auto &p : o) p->link(g); }
};
struct Rep : Ope {
  P_ o;
  size_t mn, mx;
  Rep(P_ p, size_t mn, size_t mx) : o(std::move(p)), mn(mn), mx(mx) {}
  size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
               std::any &dt) const override {
    size_t i = 0, cnt = 0;
    while (cnt < mx) {
      Scope sc(c);
      auto l = o->parse(s + i, n - i, sc.v, c, dt);
      if (fail(l)) {
        if (cnt < mn) return FAIL;
        break;
      }
      vs.append(sc.v);
      i += l;
      cnt++;
      if (l == 0 && cnt >= mn) break;
    }
    return i;
  }
  void link(Grammar &g) override { o->link(g); }
};
struct Pred : Ope {
  P_ o;
  bool neg;
  Pred(P_ p, bool neg) : o(std::move(p)), neg(neg) {}
  size_t parse(const char *s, size_t n, SemanticValues &, Context &c,
               std::any &dt) const override {
    Scope sc(c);
    auto save = c.error_info;
    auto l = o->parse(s, n, sc.v, c, dt);
    if (neg) {
      c.error_info = save;
      if (success(l)) { c.set_error(s); return FAIL; }
      return 0;
    }
    return success(l) ? 0 : FAIL;
  }
  void link(Grammar &g) override { o->link(g); }
};
struct Lit : Ope {
  std::string t;
  bool ci;
  Lit(std::string t, bool ci) : t(std::move(t)), ci(ci) {}
  size_t parse(const char *s, size_t n, SemanticValues &, Context &c,
               std::any &) const override {
    if (n < t.size()) { c.set_error(s); return FAIL; }
    for (size_t i = 0; i < t.size(); i++)
      if (ci ? tolower(s[i]) != tolower(t[i]) : s[i] != t[i]) { c.set_error(s); return FAIL; }
    return t.size();
  }
};
inline size_t decode(const char *s, size_t n, char32_t &cp) {
  if (!n) return 0;
  unsigned char b = s[0];
  if (b < 0x80) { cp = b; return 1; }
  size_t k = (b >= 0xF0) ? 4 : (b >= 0xE0) ? 3 : (b >= 0xC0) ? 2 : 1;
  if (k > n || k == 1) { cp = b; return 1; }
  cp = b & (0xFF >> (k + 1));
  for (size_t i = 1; i < k; i++) cp = (cp << 6) | (s[i] & 0x3F);
  return k;
}
struct Cls : Ope {
  std::vector<std::pair<char32_t, char32_t>> r;
  bool neg;
  Cls(std::vector<std::pair<char32_t, char32_t>> r, bool neg) : r(std::move(r)), neg(neg) {}
  size_t parse(const char *s, size_t n, SemanticValues &, Context &c,
               std::any &) const override {
    char32_t cp = 0;
    size_t k = decode(s, n, cp);
    if (!k) { c.set_error(s); return FAIL; }
    bool in = false;
    for (auto &p : r)
      if (p.first <= cp && cp <= p.second) { in = true; break; }
    if (in == neg) { c.set_error(s); return FAIL; }
    return k;
  }
};
struct Dot : Ope {
  size_t parse(const char *s, size_t n, SemanticValues &, Context &c,
               std::any &) const override {
    char32_t cp;
    size_t k = decode(s, n, cp);
    if (!k) { c.set_error(s); return FAIL; }
    return k;
  }
};
struct CutOp : Ope {
  size_t parse(const char *, size_t, SemanticValues &, Context &c, std::any &) const override {
    c.cut = true;
    return 0;
  }
};
struct Tok : Ope {
  P_ o;
  explicit Tok(P_ p) : o(std::move(p)) { is_token = true; }
  size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
               std::any &dt) const override {
    auto l = o->parse(s, n, vs, c, dt);
    if (success(l)) vs.tokens.emplace_back(s, l);
    return l;
  }
  void link(Grammar &g) override { o->link(g); }
};
struct Ign : Ope {
  P_ o;
  explicit Ign(P_ p) : o(std::move(p)) {}
  size_t parse(const char *s, size_t n, SemanticValues &, Context &c,
               std::any &dt) const override {
    Scope sc(c);
    return o->parse(s, n, sc.v, c, dt);
  }
  void link(Grammar &g) override { o->link(g); }
};
using UserFn = std::function<size_t(const char *, size_t, SemanticValues &, std::any &)>;
struct Usr : Ope {
  UserFn f;
  explicit Usr(UserFn f) : f(std::move(f)) {}
  size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
               std::any &dt) const override {
    auto l = f(s, n, vs, dt);
    if (fail(l)) c.set_error(s);
    return l;
  }
};
struct RefOp : Ope {
  std::string name;
  Definition *d = nullptr;
  explicit RefOp(std::string n) : name(std::move(n)) {}
  size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
               std::any &dt) const override;
  void link(Grammar &g) override;
};

struct LinkReferences : Ope::Visitor {
  Grammar &g;
  LinkReferences(Grammar &g, const std::vector<std::string> &) : g(g) {}
};

struct Action {
  std::function<std::any(SemanticValues &, std::any &)> fn;
  explicit operator bool() const { return bool(fn); }
};

struct Definition {
  struct Result {
    bool ret;
    bool recovered = false;
    size_t len;
    ErrorInfo error_info;
  };
  std::string name;
  P_ ope;
  bool ignoreSemanticValue = false;
  bool is_macro = false;
  bool enable_memoize = true;
  bool enablePackratParsing = false;
  std::vector<std::string> params;
  std::function<std::any(SemanticValues &, std::any &)> action;
  std::function<bool(const SemanticValues &, const std::any &, std::string &)> predicate;
  std::function<void(const Context &, const char *, size_t, std::any &)> enter;
  std::function<void(const Context &, const char *, size_t, size_t, std::any &, std::any &)> leave;
  uint32_t id;
  Definition() {
    static uint32_t next = 1;
    id = next++;
  }
  Definition(const Definition &) = delete;
  Definition &operator<=(const P_ &p) {
    ope = p;
    return *this;
  }
  Definition &operator~() {
    ignoreSemanticValue = true;
    return *this;
  }
  template <typename F> void operator=(F f) {
    using R = std::invoke_result_t<F, SemanticValues &, std::any &>;
    if constexpr (std::is_void_v<R>)
      action = [f](SemanticValues &v, std::any &d) { f(v, d); return std::any(); };
    else if constexpr (std::is_same_v<R, std::any>)
      action = f;
    else
      action = [f](SemanticValues &v, std::any &d) -> std::any { return f(v, d); };
  }
  void accept(LinkReferences &v) { if (ope) ope->link(v.g); }

  size_t parse_core(const char *s, size_t n, SemanticValues &vs, Context &c, std::any &dt) {
    bool memo = c.packrat && enable_memoize;
    uint64_t key = ((uint64_t)id << 40) | (uint64_t)(s - c.s);
    if (memo) {
      auto it = c.memo.find(key);
      if (it != c.memo.end()) {
        if (success(it->second.len) && !ignoreSemanticValue)
          vs.emplace_back(it->second.val);
        return it->second.len;
      }
    }
    std::any val;
    size_t len;
    if (enter) enter(c, s, n, dt);
    {
      Scope sc(c);
      len = ope->parse(s, n, sc.v, c, dt);
      if (success(len)) {
        sc.v.sv_ = std::string_view(s, len);
        const Ope *p = ope.get();
        if (p->is_token) p = static_cast<const Tok *>(p)->o.get();
        if (!p->is_choice) sc.v.choice_ = sc.v.choice_count_ = 0;
        if (predicate) {
          std::string msg;
          if (!predicate(sc.v, dt, msg)) {
            if (!msg.empty() && c.error_info.message_pos < s) {
              c.error_info.message_pos = s;
              c.error_info.message = msg;
            }
            c.set_error(s);
            len = FAIL;
          }
        }
        if (success(len)) {
          if (action) val = action(sc.v, dt);
          else if (!sc.v.empty()) val = std::move(sc.v.front());
        }
      }
    }
    if (leave) leave(c, s, n, len, val, dt);
    if (memo) c.memo[key] = MemoEntry{len, val};
    if (success(len) && !ignoreSemanticValue) vs.emplace_back(std::move(val));
    return len;
  }

  template <typename T>
  Result parse_and_get_value(const char *s, size_t n, std::any &dt, T &out, const char *path,
                             Log log) {
    Context c(path, s, n, enablePackratParsing, log);
    if (enablePackratParsing) c.memo.reserve(n * 16 + 64);
    auto &vs = c.push();
    auto len = parse_core(s, n, vs, c, dt);
    Result r{success(len), false, success(len) ? len : 0, c.error_info};
    if (success(len) && !vs.empty() && vs.front().has_value()) out = std::any_cast<T>(vs.front());
    return r;
  }
};

inline size_t RefOp::parse(const char *s, size_t n, SemanticValues &vs, Context &c,
                           std::any &dt) const {
  return d->parse_core(s, n, vs, c, dt);
}
inline void RefOp::link(Grammar &g) {
  auto it = g.find(name);
  if (it == g.end()) throw std::logic_error("undefined PEG rule " + name);
  d = &it->second;
}

template <typename... A> P_ seq(A... a) { return std::make_shared<Seq>(std::vector<P_>{a...}); }
template <typename... A> P_ cho(A... a) { return std::make_shared<Cho>(std::vector<P_>{a...}); }
inline P_ zom(P_ p) { return std::make_shared<Rep>(p, 0, SIZE_MAX); }
inline P_ oom(P_ p) { return std::make_shared<Rep>(p, 1, SIZE_MAX); }
inline P_ opt(P_ p) { return std::make_shared<Rep>(p, 0, 1); }
inline P_ apd(P_ p) { return std::make_shared<Pred>(p, false); }
inline P_ npd(P_ p) { return std::make_shared<Pred>(p, true); }
inline P_ lit(std::string s) { return std::make_shared<Lit>(std::move(s), false); }
inline P_ cls(std::vector<std::pair<char32_t, char32_t>> v) { return std::make_shared<Cls>(std::move(v), false); }
inline P_ ncls(std::vector<std::pair<char32_t, char32_t>> v) { return std::make_shared<Cls>(std::move(v), true); }
inline P_ dot() { return std::make_shared<Dot>(); }
inline P_ cut() { return std::make_shared<CutOp>(); }
inline P_ tok(P_ p) { return std::make_shared<Tok>(p); }
inline P_ ign(P_ p) { return std::make_shared<Ign>(p); }
inline P_ ref(Grammar &, const std::string &n) { return std::make_shared<RefOp>(n); }
template <typename F> P_ usr(F f) {
  return std::make_shared<Usr>([f](const char *s, size_t n, SemanticValues &v, std::any &d) {
    return (size_t)f(s, n, v, d);
  });
}

} // namespace peg
