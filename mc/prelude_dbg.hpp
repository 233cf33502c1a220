#ifndef MC_PRELUDE_DBG_HPP
#define MC_PRELUDE_DBG_HPP
#include "prelude.hpp"
#include <boost/metaparse/debug_parsing_error.hpp>
#include <unistd.h>
#include <sys/wait.h>
namespace vf
{
  // runs the construction of D in a child process and records what it printed and how it ended
  template <class D> void dbg(int id)
  {
    begin(id);
    int p[2];
    if (pipe(p)) { out += "<pipe>"; end(); return; }
    pid_t c = fork();
    if (c == 0)
    {
      close(p[0]); dup2(p[1], 1); close(p[1]);
      { D d; (void)d; }
      std::fflush(stdout);
      std::cout.flush();
      _exit(9);
    }
    close(p[1]);
    std::string s; char b[512]; ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) s.append(b, n);
    close(p[0]);
    int st = 0; waitpid(c, &st, 0);
    esc(s); out += " exit "; num(WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    end();
  }
}
#endif
