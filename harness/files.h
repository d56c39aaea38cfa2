// Scratch files of a case.
#ifndef VERIF_FILES_H
#define VERIF_FILES_H
#include <cstdlib>
#include <fstream>
#include <stdexcept>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>

struct Files { // of this process's own, gone when the case ends
  std::vector<std::string> made;
  std::string add(const std::string &content) {
    const char *d = getenv("VERIF_DIR");
    std::string dir = std::string(d ? d : ".") + "/build/scratch";
    mkdir(dir.c_str(), 0700);
    std::string path = dir + "/f-" + std::to_string(getpid()) + "-" + std::to_string(made.size());
    std::ofstream o(path, std::ios::binary);
    o << content;
    o.close();
    if (!o) throw std::runtime_error("cannot write " + path);
    made.push_back(path);
    return path;
  }
  ~Files() {
    for (auto &p : made) unlink(p.c_str());
  }
};

#endif
