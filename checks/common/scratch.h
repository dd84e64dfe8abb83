// A scratch directory that goes away at the end.
#ifndef VERIF_COMMON_SCRATCH_H
#define VERIF_COMMON_SCRATCH_H
#include <cstdlib>
#include <dirent.h>
#include <stdexcept>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
struct Scratch {
  std::string path;
  Scratch() {
    const char* t = getenv("TMPDIR");
    std::string p = std::string(t && *t ? t : "/tmp") + "/vkscratch-XXXXXX";
    if (!mkdtemp(&p[0])) throw std::runtime_error("no scratch directory");
    path = p;
  }
  Scratch(const Scratch&) = delete;
  ~Scratch() { empty(); rmdir(path.c_str()); }
  std::string operator()(const std::string& n) const { return path + "/" + n; }
  void empty() const {   // files only: nothing makes directories here
    if (DIR* d = opendir(path.c_str())) {
      while (auto e = readdir(d)) if (e->d_name[0] != '.') unlink((path + "/" + e->d_name).c_str());
      closedir(d);
    }
  }
  bool exists(const std::string& n) const { struct stat s; return stat((*this)(n).c_str(), &s) == 0; }
};
#endif
