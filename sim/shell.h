// A small POSIX-shell model for commands run through system() and popen().
#pragma once
#include <functional>
#include <map>
#include <string>
#include <vector>
#include "core.h"

struct ShIo {
  std::string *capture = nullptr;  // stdout goes here if out_fd < 0
  int out_fd = -1;                 // or to this simulated descriptor
  bool out_null = false, err_null = false;
  std::string in;                  // stdin in a pipeline
  // Returns 0 or errno.
  int Write(const std::string &s);
};
using ShProg = std::function<int(const std::vector<std::string> &argv, ShIo &io)>;
// Programs by base name. Exit status; 128+n for a signal inside the command.
struct ShellModel {
  std::map<std::string, ShProg> progs;
  // exec_last: the shell replaces itself by the last command, so that death by
  // signal is seen directly as such.
  bool exec_last = false;
  int Run(const std::string &cmd, std::string *capture);
};
extern ShellModel g_sh;
struct ShDied { int sig; bool group = false; };  // group: the shell got the signal, too
