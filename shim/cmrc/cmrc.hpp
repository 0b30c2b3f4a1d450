// Stand-in for CMakeRC: the embedded stdlib is read from the checkout at run time
// (CODON_SIM_RES, default /repo), so the build needs no generated resource objects.
#pragma once
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <iterator>
#include <memory>
#include <string>
#include <system_error>
namespace cmrc {
class file {
  std::shared_ptr<std::string> d;
public:
  explicit file(std::shared_ptr<std::string> d) : d(std::move(d)) {}
  const char *begin() const { return d->data(); }
  const char *end() const { return d->data() + d->size(); }
};
class embedded_filesystem {
  static std::string real(const std::string &p) {
    const char *r = getenv("CODON_SIM_RES");
    std::string root = r ? r : "/repo";
    return root + (p.empty() || p[0] != '/' ? "/" : "") + p;
  }
public:
  bool exists(const std::string &p) const {
    if (p.rfind("/stdlib", 0) != 0 && p.rfind("stdlib", 0) != 0) return false;
    return std::filesystem::exists(real(p));
  }
  file open(const std::string &p) const {
    if (!exists(p) || std::filesystem::is_directory(real(p)))
      throw std::system_error(std::make_error_code(std::errc::no_such_file_or_directory), p);
    std::ifstream f(real(p), std::ios::binary);
    return file(std::make_shared<std::string>(std::istreambuf_iterator<char>(f),
                                              std::istreambuf_iterator<char>()));
  }
};
namespace codon {
inline embedded_filesystem get_filesystem() { return {}; }
} // namespace codon
} // namespace cmrc
#define CMRC_DECLARE(x)
