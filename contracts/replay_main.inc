// driver: <binary> <lemma|*> <seed> <trials> [<trial>]
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <iostream>
#include <unistd.h>
namespace spec
{
long n_checked = 0;
std::vector<Entry>& entries() { static std::vector<Entry> e; return e; }
}
static char cur[200];
static void on_signal(int s)
{
  char buf[300];
  int n = snprintf(buf, sizeof buf, "\nFAIL %s crash signal %d\n", cur, s);
  if (write(1, buf, n) < 0) {}
  _exit(3);
}
static unsigned long mix(const std::string& s, unsigned long seed, unsigned long t)
{
  unsigned long h = 1469598103934665603UL ^ (seed * 0x9E3779B97F4A7C15UL);
  for (char c : s) h = (h ^ static_cast<unsigned char>(c)) * 1099511628211UL;
  return h ^ ((t + 1) * 0xD1B54A32D192ED03UL);
}
int main(int argc, char** argv)
{
  signal(SIGABRT, on_signal); signal(SIGSEGV, on_signal); signal(SIGFPE, on_signal); signal(SIGBUS, on_signal); signal(SIGILL, on_signal);
  signal(SIGALRM, on_signal);
  const std::string want = argc > 1 ? argv[1] : "*";
  const unsigned long seed = argc > 2 ? strtoul(argv[2], nullptr, 10) : 1;
  const long trials = argc > 3 ? atol(argv[3]) : 200;
  const long only = argc > 4 ? atol(argv[4]) : -1;
  const double secs = getenv("REPLAY_SECS") ? atof(getenv("REPLAY_SECS")) : 1e9;
  if (want == "--list") { for (auto& e : spec::entries()) printf("NAME %s\n", e.name.c_str()); return 0; }
  int bad = 0;
  std::cout.setf(std::ios::unitbuf);
  FILE* out = fdopen(dup(1), "w");
  setvbuf(out, nullptr, _IOLBF, 0);
  if (only < 0) { if (freopen("/dev/null", "w", stdout) == nullptr) return 4; dup2(fileno(out), 1); std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr); }
  for (auto& e : spec::entries())
  {
    if (want != "*" && want != e.name) continue;
    long done = 0, rej = 0;
    spec::n_checked = 0;
    bool failed = false;
    const time_t t_start = time(nullptr);
    for (long t = 0; t < trials && !failed; ++t)
    {
      if (only >= 0 && t != only) continue;
      if (only < 0 && t > 100 && difftime(time(nullptr), t_start) > secs) break;
      spec::Rng r;
      r.g.seed(mix(e.name, seed, static_cast<unsigned long>(t)));
      r.n = t < 6 ? static_cast<int>(t) : r.i(0, 6);
      r.sizes_fixed = t % 2 == 1;
      snprintf(cur, sizeof cur, "%s %ld", e.name.c_str(), t);
      alarm(20);
      std::ostringstream os;
      try
      {
        spec::begin_trial(r);
        e.run(r, only >= 0 ? &os : nullptr);
        ++done;
      }
      catch (const spec::Reject&) { ++rej; }
      catch (const spec::Failure& f) { fprintf(out, "FAIL %s %s: %s\n", cur, f.name.c_str(), f.what.c_str()); failed = true; }
      catch (const std::exception& x) { fprintf(out, "FAIL %s exception escapes: %s\n", cur, x.what()); failed = true; }
      catch (...) { fprintf(out, "FAIL %s exception escapes\n", cur); failed = true; }
      if (only >= 0) fprintf(out, "%s", os.str().c_str());
      alarm(0);
    }
    if (failed) bad = 1;
    else fprintf(out, "PASS %s executed=%ld rejected=%ld checks=%ld\n", e.name.c_str(), done, rej, spec::n_checked);
  }
  return bad;
}
