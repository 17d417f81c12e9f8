// Specification vocabulary.  The same contract functions are (a) proved for all inputs by the verifier (VERIF_STATIC,
// where these functions have no body and generate assumptions / obligations) and (b) executed on concrete inputs to
// replay a failed obligation against the compiled code.
#pragma once
#include <cmath>
#include <cstdlib>
#include <string>
#include <vector>
#include <cstdint>
#include <Eigen/Core>

namespace spec
{
#ifdef VERIF_STATIC
void require(bool c);                                     // precondition: assumed
void ensure(bool c, const char* name);                    // postcondition: to be proved
void ensure_eq(double a, double b, const char* name);     // equality over the reals
void ensure_eq_i(long a, long b, const char* name);
void unreachable(const char* name);
void invariant(bool c, const char* name);                 // loop contract: holds whenever the loop condition is evaluated
bool implies(bool a, bool b);
double close(double a, double b, const char*);
void environment(const std::string& name, bool set, const std::string& value);   // the environment variable of that name
template <class T> void arbitrary(T& x);                   // any value
double oracle(const Eigen::VectorXd& x, long j);           // arbitrary functions f_j of a vector
double oracle2(const Eigen::VectorXd& x, long j, long i);  // arbitrary functions g_ji of a vector
#else
struct Reject {};
struct Failure { std::string name, what; };
extern long n_checked;
inline void require(bool c) { if (!c) throw Reject{}; }
inline void ensure(bool c, const char* name) { ++n_checked; if (!c) throw Failure{ name, "condition is false" }; }
inline bool near(double a, double b)
{
  if (a == b) return true;
  if (std::isnan(a) && std::isnan(b)) return true;
  return std::fabs(a - b) <= 1e-7 * (1.0 + std::fabs(a) + std::fabs(b));
}
inline void ensure_eq(double a, double b, const char* name)
{
  ++n_checked;
  if (!near(a, b)) throw Failure{ name, std::to_string(a) + " instead of " + std::to_string(b) };
}
inline void ensure_eq_i(long a, long b, const char* name)
{
  ++n_checked;
  if (a != b) throw Failure{ name, std::to_string(a) + " instead of " + std::to_string(b) };
}
inline void invariant(bool c, const char* name) { ensure(c, name); }
inline void unreachable(const char* name) { throw Failure{ name, "reached" }; }
inline bool implies(bool a, bool b) { return !a || b; }
template <class T> void arbitrary(T&) {}
inline void environment(const std::string& name, bool set, const std::string& value)
{
  if (set) setenv(name.c_str(), value.c_str(), 1);
  else unsetenv(name.c_str());
}
inline double oracle(const Eigen::VectorXd& x, long j)
{
  double s = 0.3 + 0.7 * static_cast<double>(j);
  for (Eigen::Index k = 0; k < x.size(); ++k)
    s += std::sin(0.37 * static_cast<double>((k + 1) * (j + 2))) * x(k) + 0.25 * x(k) * x((k + 1) % x.size()) * static_cast<double>(j + 1);
  return s;
}
inline double oracle2(const Eigen::VectorXd& x, long j, long i)
{
  const double s = oracle(x, 3 * j + i + 5);
  return (i + 2 * j) % 5 == 3 ? 1e-9 * s : s;
}
#endif
}  // namespace spec
#define REQUIRE(...) spec::require(__VA_ARGS__)
#define ENSURE(n, ...) spec::ensure((__VA_ARGS__), n)
#define INVARIANT(n, ...) spec::invariant((__VA_ARGS__), n)
#define ENSURE_EQ(n, a, b) spec::ensure_eq((a), (b), n)
#define ENSURE_EQI(n, a, b) spec::ensure_eq_i(static_cast<long>(a), static_cast<long>(b), n)
#ifdef VERIF_STATIC
#define LEMMA(name, ...) void name(__VA_ARGS__)
#else
#include "replay.h"
#define LEMMA(name, ...) \
  void name(__VA_ARGS__); \
  static const bool reg_##name = spec::add(#name, &name); \
  void name(__VA_ARGS__)
#endif
