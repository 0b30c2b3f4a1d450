// Stand-in for Neargye/semver 0.3 (version + range::satisfies), enough for plugins.cpp.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>
namespace semver {
struct version {
  int v[3];
  version(int a, int b, int c) : v{a, b, c} {}
  explicit version(std::string_view s) : v{0, 0, 0} {
    size_t i = 0;
    for (int k = 0; k < 3; k++) {
      size_t j = i;
      while (j < s.size() && isdigit((unsigned char)s[j])) j++;
      if (j == i) throw std::invalid_argument("semver::version invalid version.");
      v[k] = atoi(std::string(s.substr(i, j - i)).c_str());
      i = j;
      if (k < 2) {
        if (i >= s.size() || s[i] != '.')
          throw std::invalid_argument("semver::version invalid version.");
        i++;
      }
    }
    if (i != s.size()) throw std::invalid_argument("semver::version invalid version.");
  }
  int cmp(const version &o) const {
    for (int k = 0; k < 3; k++)
      if (v[k] != o.v[k]) return v[k] < o.v[k] ? -1 : 1;
    return 0;
  }
};
namespace range {
inline bool satisfies(const version &ver, std::string_view r) {
  bool any = false, ok = true;
  size_t i = 0;
  auto ws = [&] { while (i < r.size() && r[i] == ' ') i++; };
  ws();
  if (i == r.size()) throw std::invalid_argument("semver::range unexpected end");
  while (i < r.size()) {
    if (r.substr(i, 2) == "||") {
      any = any || ok;
      ok = true;
      i += 2;
      ws();
      continue;
    }
    std::string op;
    while (i < r.size() && (r[i] == '<' || r[i] == '>' || r[i] == '=')) op += r[i++];
    ws();
    size_t j = i;
    while (j < r.size() && (isdigit((unsigned char)r[j]) || r[j] == '.')) j++;
    if (j == i) throw std::invalid_argument("semver::range unexpected character");
    version w(r.substr(i, j - i));
    i = j;
    ws();
    int c = ver.cmp(w);
    bool s = op == "<" ? c < 0 : op == "<=" ? c <= 0 : op == ">" ? c > 0
             : op == ">=" ? c >= 0 : (op.empty() || op == "=") ? c == 0
             : throw std::invalid_argument("semver::range bad operator");
    ok = ok && s;
  }
  return any || ok;
}
} // namespace range
} // namespace semver
