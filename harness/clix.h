// NEEDS-CLI: the command-line program, its main() called spiff_main(), linked in.
// A command runs in a forked child, so that exit() and crashes are its own.
#ifndef VERIF_CLIX_H
#define VERIF_CLIX_H
#include "engine.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

int spiff_main(int argc, char **argv);

namespace cli {
struct Run {
  int rc = 0;     // exit status; -signal when killed
  std::string out, err;
};
inline std::string slurp(int fd) {
  std::string s;
  off_t n = lseek(fd, 0, SEEK_END);
  lseek(fd, 0, SEEK_SET);
  s.resize((size_t)n);
  size_t at = 0;
  while (at < s.size()) {
    ssize_t k = read(fd, &s[at], s.size() - at);
    if (k <= 0) break;
    at += (size_t)k;
  }
  close(fd);
  s.resize(at);
  return s;
}
inline std::string spiff_path() {
  const char *p = getenv("VERIF_SPIFF");
  return p ? p : "spiff";
}
inline Run run(const std::vector<std::string> &args, const std::string &in = "", int seconds = 20) {
  int fi = memfd_create("in", 0), fo = memfd_create("out", 0), fe = memfd_create("err", 0);
  if (fi < 0 || fo < 0 || fe < 0) throw std::runtime_error("memfd_create");
  if (!in.empty() && write(fi, in.data(), in.size()) != (ssize_t)in.size()) throw std::runtime_error("write");
  lseek(fi, 0, SEEK_SET);
  fflush(nullptr);
  std::cout.flush();
  std::cerr.flush();
  pid_t pid = fork();
  if (pid < 0) throw std::runtime_error("fork");
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    dup2(fi, 0);
    dup2(fo, 1);
    dup2(fe, 2);
    // Processor time, so that a loaded machine is not taken for a hang; a
    // command that waits for ever is ended too.
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = seconds;
    signal(SIGPROF, SIG_DFL);
    setitimer(ITIMER_PROF, &it, nullptr);
    alarm(6 * (unsigned)seconds);
    std::string exe = spiff_path();
    std::vector<std::string> words(args);
    std::vector<char *> argv;
    argv.push_back((char *)exe.c_str());
    for (auto &w : words) argv.push_back((char *)w.c_str());
    argv.push_back(nullptr);
    int rc = 99;
    try {
      rc = spiff_main((int)argv.size() - 1, argv.data());
    } catch (...) { // as std::terminate would
      std::cerr << "uncaught exception\n";
      abort();
    }
    std::cout.flush();
    fflush(nullptr);
    _exit(rc & 255);
  }
  Run r;
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
  close(fi);
  r.out = slurp(fo);
  r.err = slurp(fe);
  return r;
}
inline std::string shown(const std::vector<std::string> &v) {
  std::string s;
  for (auto &w : v) s += (s.empty() ? "" : " ") + (w.empty() || w.find_first_of(" \t\n'\"") != std::string::npos ? "'" + w + "'" : w);
  return s;
}
// The program must end by itself: no signal, no sanitizer report.
inline void sane(pbt::Ctx &c, const Run &r) {
  REQUIRE_(c, r.rc >= 0 && r.err.find("Sanitizer") == std::string::npos && r.err.find("runtime error:") == std::string::npos &&
                  r.err.find("uncaught exception") == std::string::npos,
           "it " << (r.rc < 0 ? "is ended by signal " + std::to_string(-r.rc) : "ends with status " + std::to_string(r.rc)) << ": "
                 << r.err.substr(0, 1500));
}
} // namespace cli
#endif
