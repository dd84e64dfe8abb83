#ifndef VERIF_SHIM_ELEMENTS_TEMPORARY_H
#define VERIF_SHIM_ELEMENTS_TEMPORARY_H
#include <boost/filesystem.hpp>
#include <cstdlib>
#include <string>
namespace Elements {
static const std::string DEFAULT_TMP_KEEP_VAR{"KEEPTEMPDIR"};
using Path = boost::filesystem::path;
class TempPath {
public:
  explicit TempPath(const std::string& motif = "", const std::string& = "") {
    m_path = boost::filesystem::temp_directory_path() /
             boost::filesystem::unique_path(motif.empty() ? "verif-%%%%-%%%%-%%%%-%%%%" : motif);
  }
  virtual ~TempPath() {
    boost::system::error_code ec;
    boost::filesystem::remove_all(m_path, ec);
  }
  TempPath(const TempPath&) = delete;
  const boost::filesystem::path& path() const { return m_path; }
  std::string motif() const { return ""; }

protected:
  boost::filesystem::path m_path;
};
class TempFile : public TempPath {
public:
  explicit TempFile(const std::string& motif = "", const std::string& keep = "") : TempPath(motif, keep) {
    FILE* f = fopen(m_path.native().c_str(), "w");
    if (f) fclose(f);
  }
};
class TempDir : public TempPath {
public:
  explicit TempDir(const std::string& motif = "", const std::string& keep = "") : TempPath(motif, keep) {
    boost::filesystem::create_directory(m_path);
  }
};
class TempEnv {
public:
  struct Item { std::string name; operator std::string() const { const char* v = std::getenv(name.c_str()); return v ? v : ""; } bool empty() const { return std::string(*this).empty(); } Item& operator=(const std::string& v) { ::setenv(name.c_str(), v.c_str(), 1); return *this; } };
  Item operator[](const std::string& n) { return {n}; }
};
inline std::string operator+(const std::string& a, const TempEnv::Item& b) { return a + std::string(b); }
class Environment {};
}  // namespace Elements
#endif
