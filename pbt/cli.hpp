// Running the inspection program built from /repo (sanitized) as a child process
#pragma once
#include "gen.hpp"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace cli {
struct Result
{
  int status = 0; // exit status, or 256 + signal
  std::string out, err;
};
inline void
write_file (const std::string &path, const void *p, size_t n)
{
  FILE *f = fopen (path.c_str (), "wb");
  if (!f || (n && fwrite (p, 1, n, f) != n) || fclose (f))
    pbt::fail ("harness", "cannot write " + path);
}
inline void
write_file (const std::string &path, const Bytes &b)
{
  write_file (path, b.data (), b.size ());
}
inline void
write_file (const std::string &path, const std::string &b)
{
  write_file (path, b.data (), b.size ());
}
inline std::string
read_file (const std::string &path, bool *ok = nullptr)
{
  std::string s;
  FILE *f = fopen (path.c_str (), "rb");
  if (ok)
    *ok = f != nullptr;
  if (!f)
    return s;
  char b[65536];
  size_t n;
  while ((n = fread (b, 1, sizeof b, f)) > 0)
    s.append (b, n);
  fclose (f);
  return s;
}
inline Result
run (const std::vector<std::string> &args, const std::string &dir, const std::string &stdinfile = "/dev/null", const char *stdoutto = nullptr)
{
  const char *exe = getenv ("VERIF_MSI");
  if (!exe)
    pbt::fail ("harness", "VERIF_MSI is not set");
  std::string of = dir + "/.stdout", ef = dir + "/.stderr";
  std::vector<char *> av;
  av.push_back ((char *)"msi");
  for (auto &a : args)
    av.push_back ((char *)a.c_str ());
  av.push_back (nullptr);
  pid_t pid = fork ();
  if (pid < 0)
    pbt::fail ("harness", "fork");
  if (pid == 0)
  {
    int i = open (stdinfile.c_str (), O_RDONLY), o = stdoutto ? open (stdoutto, O_WRONLY) : open (of.c_str (), O_CREAT | O_TRUNC | O_WRONLY, 0600), e = open (ef.c_str (), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2 (i, 0);
    dup2 (o, 1);
    dup2 (e, 2);
    for (int k = 3; k < 20; k++)
      close (k);
    struct rlimit rl = {20, 20};
    setrlimit (RLIMIT_CPU, &rl);
    struct rlimit fl = {256u << 20, 256u << 20};
    setrlimit (RLIMIT_FSIZE, &fl);
    struct itimerval off = {};
    setitimer (ITIMER_PROF, &off, nullptr);
    if (chdir (dir.c_str ()))
      _exit (126);
    execv (exe, av.data ());
    _exit (127);
  }
  int st;
  while (waitpid (pid, &st, 0) < 0 && errno == EINTR)
    ;
  Result r;
  r.status = WIFEXITED (st) ? WEXITSTATUS (st) : 256 + WTERMSIG (st);
  r.out    = stdoutto ? "" : read_file (of);
  r.err    = read_file (ef);
  if (r.status == 127 || r.status == 126)
    pbt::fail ("harness", "cannot run msi");
  return r;
}
// crash, sanitizer report or too much time
inline void
require_sane (const Result &r, const std::vector<std::string> &args)
{
  std::string cmd;
  for (auto &a : args)
    cmd += " " + pbt::quote (a);
  if (r.status == 256 + SIGKILL || r.status == 256 + SIGXCPU)
  {
    if (r.status == 256 + SIGXCPU)
      pbt::fail ("cli-hang", "msi" + cmd + " used too much CPU time");
    pbt::fail ("cli-killed", "msi" + cmd + " was killed");
  }
  if (r.status == 77 || r.err.find ("ERROR: AddressSanitizer") != std::string::npos || r.err.find ("runtime error:") != std::string::npos)
  {
    size_t p = r.err.find ("ERROR: AddressSanitizer");
    if (p == std::string::npos)
      p = r.err.find ("runtime error:");
    pbt::fail ("cli-sanitizer", "msi" + cmd + ": " + r.err.substr (p == std::string::npos ? 0 : (p > 100 ? p - 100 : 0), 3000));
  }
  if (r.status >= 256)
    pbt::fail ("cli-signal", "msi" + cmd + " ended by signal " + std::to_string (r.status - 256));
}
} // namespace cli
