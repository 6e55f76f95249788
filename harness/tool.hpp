// Running the repository's command-line programs inside the scratch directory.
#pragma once
#include <spawn.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include "core.hpp"
extern char **environ;
struct Tool { int rc = -1; std::string out, err; };
inline std::string readFile (const std::string &p) { std::string s; FILE *f = fopen (p.c_str (), "rb"); if (! f) return s; char b[65536]; size_t n; while ((n = fread (b, 1, sizeof b, f)) > 0) s.append (b, n); fclose (f); return s; }
inline void writeFile (const std::string &p, const std::string &s) { FILE *f = fopen (p.c_str (), "wb"); CHECK (f != nullptr, "cannot write %s", p.c_str ()); fwrite (s.data (), 1, s.size (), f); fclose (f); }
inline std::string toolDir () { static std::string d; if (d.empty ()) { d = scratchDir () + strf ("/t%d", (int) getpid ()); mkdir (d.c_str (), 0755); } return d; }
// Runs bin/<name> with arguments; rc is the exit status, or 1000 + signal
inline Tool runTool (const std::string &name, const std::vector<std::string> &args, const std::string &in = "") {
  std::string d = toolDir (); static int have = -1; (void) have; writeFile (d + "/stdin", in);
  std::vector<std::string> av {std::string (VF_BIN) + "/" + name}; for (auto &a : args) av.push_back (a); std::vector<char *> v; for (auto &a : av) v.push_back ((char *) a.c_str ()); v.push_back (nullptr);
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init (&fa); posix_spawn_file_actions_addopen (&fa, 0, (d + "/stdin").c_str (), O_RDONLY, 0);
  posix_spawn_file_actions_addopen (&fa, 1, (d + "/stdout").c_str (), O_WRONLY | O_CREAT | O_TRUNC, 0644); posix_spawn_file_actions_addopen (&fa, 2, (d + "/stderr").c_str (), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  pid_t pid; Tool t; int e = posix_spawn (&pid, v[0], &fa, nullptr, v.data (), environ); posix_spawn_file_actions_destroy (&fa); CHECK (e == 0, "cannot run %s", v[0]);
  int st; while (waitpid (pid, &st, 0) < 0) ; t.rc = WIFEXITED (st) ? WEXITSTATUS (st) : 1000 + WTERMSIG (st); t.out = readFile (d + "/stdout"); t.err = readFile (d + "/stderr");
  CHECK (t.err.find ("Sanitizer") == std::string::npos && t.rc < 1000, "%s %s crashed (%d): %s", name.c_str (), args.empty () ? "" : args[0].c_str (), t.rc, t.err.substr (0, 1500).c_str ()); return t;
}
