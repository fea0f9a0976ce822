// A fork server around the command line tool's main().
//
// Request: arguments (one per line), then a line with a single dot.
// The first six lines are the files for the standard output and error, the
// time limit, the working directory, a number that, when not zero, seeds
// a disturbance of the heap (as a fresh process has its own addresses), and
// the limit on the size of files (-1: none; writing beyond it is an error).
// Reply: "exit N" or "signal N".
#include <sys/resource.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <string>
#include <vector>

#include <libxml/parser.h>

#include "disturb.h"

static bool in_child = false;
// Replaces xmlCleanupParser in the object of scram.cc (see build.py), and
// scram_main is its main.
extern "C" void verif_cleanup() {
  if (in_child)
    xmlCleanupParser();
}
int scram_main(int argc, char** argv) asm("scram_main");

static int call(std::vector<std::string> args) {
  std::vector<char*> argv;
  for (std::string& a : args)
    argv.push_back(&a[0]);
  argv.push_back(nullptr);
  return scram_main(args.size(), argv.data());
}

static void redirect(const std::string& path, int fd) {
  int f = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (f < 0)
    _exit(99);
  dup2(f, fd);
  close(f);
}

int main(int argc, char** argv) {
  // The warm-up parses the schemas once.
  {
    int out = dup(1), err = dup(2);
    redirect("/dev/null", 1);
    redirect("/dev/null", 2);
    if (argc > 1)
      call({"scram", "--project", argv[1], "-o", std::string(argv[1]) + ".out"});
    fflush(stdout);
    fflush(stderr);
    dup2(out, 1);
    dup2(err, 2);
    close(out);
    close(err);
  }
  std::string line;
  std::vector<std::string> in;
  while (std::getline(std::cin, line)) {
    if (line != ".") {
      in.push_back(line);
      continue;
    }
    fflush(stdout);
    int limit = std::stoi(in[2]);
    pid_t pid = fork();
    if (pid == 0) {
      in_child = true;
      setpgid(0, 0);
      signal(SIGALRM, SIG_DFL);
      alarm(limit);
      int nul = open("/dev/null", O_RDONLY);
      dup2(nul, 0);
      redirect(in[0], 1);
      redirect(in[1], 2);
      if (chdir(in[3].c_str()))
        _exit(98);
      if (unsigned long seed = std::stoul(in[4]))
        disturb(seed);
      if (long fsize = std::stol(in[5]); fsize >= 0) {
        signal(SIGXFSZ, SIG_IGN);
        rlimit lim{(rlim_t)fsize, RLIM_INFINITY};
        setrlimit(RLIMIT_FSIZE, &lim);
      }
      std::vector<std::string> args(in.begin() + 6, in.end());
      args.insert(args.begin(), "scram");
      int rc = 97;
      rc = call(args);
      exit(rc);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st))
      printf("exit %d\n", WEXITSTATUS(st));
    else
      printf("signal %d\n", WTERMSIG(st));
    fflush(stdout);
    in.clear();
  }
  _exit(0);
}
