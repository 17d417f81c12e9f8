// C22: collision coefficients by link pair, maximum errors of gradient results
#include "spec.h"
#include <trajopt_common/collision_types.h>
#include <tesseract/common/utils.h>
#ifndef VERIF_STATIC
namespace spec
{
void begin_trial(Rng&) {}
using tesseract::collision::ContinuousCollisionType;
template <> struct Gen<trajopt_common::CollisionCoeffData>
{
  static trajopt_common::CollisionCoeffData make(Rng& r)
  {
    trajopt_common::CollisionCoeffData d(r.d());
    for (int k = r.i(0, 6); k > 0; --k) d.setCollisionCoeff(std::string(1, static_cast<char>('a' + r.i(0, 2))), std::string(1, static_cast<char>('a' + r.i(0, 2))), r.i(0, 2) == 0 ? 0.0 : r.d());
    return d;
  }
};
template <> struct Gen<trajopt_common::GradientResults>
{
  static trajopt_common::GradientResults make(Rng& r)
  {
    trajopt_common::GradientResults g;
    g.error = r.d();
    g.error_with_buffer = r.d();
    for (auto& l : g.gradients)
    {
      l.has_gradient = r.i(0, 2) != 0;
      l.cc_type = static_cast<ContinuousCollisionType>(r.i(0, 3));
    }
    return g;
  }
};
template <> struct Gen<trajopt_common::GradientResultsSet>
{
  static trajopt_common::GradientResultsSet make(Rng& r)
  {
    trajopt_common::GradientResultsSet s;
    for (int k = r.i(0, 4); k > 0; --k) s.add(Gen<trajopt_common::GradientResults>::make(r));
    return s;
  }
};
template <> struct Gen<trajopt_common::LinkMaxError>
{
  static trajopt_common::LinkMaxError make(Rng& r)
  {
    trajopt_common::LinkMaxError e;
    for (int k = 0; k < 2; ++k)
    {
      e.has_error[k] = r.i(0, 1) == 1;
      if (e.has_error[k]) { e.error[k] = r.d(); e.error_with_buffer[k] = r.d(); }
    }
    return e;
  }
};
}
#endif
namespace trajopt_lemmas
{
using namespace trajopt_common;
using tesseract::collision::ContinuousCollisionType;
using Key = tesseract::common::LinkNamesPair;
inline Key pair_of(const std::string& a, const std::string& b)
{
  Key k;
  tesseract::common::makeOrderedLinkPair(k, a, b);
  return k;
}
inline bool zero(double c) { return tesseract::common::almostEqualRelativeAndAbs(c, 0.0); }
inline bool same_pair(const std::string& a, const std::string& b, const std::string& c, const std::string& d) { return (a == c && b == d) || (a == d && b == c); }
/// a pair is in the list of pairs without cost exactly when a coefficient was set for it and that coefficient is zero
inline bool consistent(const CollisionCoeffData& d, const std::string& a, const std::string& b)
{
  const auto& t = d.getCollisionCoeffPairData();
  const auto& z = d.getPairsWithZeroCoeff();
  const auto it = t.find(pair_of(a, b));
  const bool set = it != t.end();
  return (z.find(pair_of(a, b)) != z.end()) == (set && zero(d.getCollisionCoeff(a, b)));
}
LEMMA(L_new, double c, const std::string& a, const std::string& b)
{
  const CollisionCoeffData d(c);
  ENSURE_EQ("default", d.getDefaultCollisionCoeff(), c);
  ENSURE_EQ("every pair has the default", d.getCollisionCoeff(a, b), c);
  ENSURE("no pairs set", d.getCollisionCoeffPairData().empty() && d.getPairsWithZeroCoeff().empty());
  ENSURE("consistent", consistent(d, a, b));
}
LEMMA(L_set, CollisionCoeffData& d, const std::string& a, const std::string& b, double c, const std::string& p, const std::string& q)
{
  REQUIRE(consistent(d, a, b) && consistent(d, p, q));
  const double before = d.getCollisionCoeff(p, q), def = d.getDefaultCollisionCoeff();
  const bool zb = d.getPairsWithZeroCoeff().find(pair_of(p, q)) != d.getPairsWithZeroCoeff().end();
  d.setCollisionCoeff(a, b, c);
  ENSURE_EQ("returned for the pair", d.getCollisionCoeff(a, b), c);
  ENSURE_EQ("returned for the pair in the other order", d.getCollisionCoeff(b, a), c);
  ENSURE("other pairs unchanged", same_pair(a, b, p, q) || d.getCollisionCoeff(p, q) == before);
  ENSURE("other pairs stay enabled or disabled", same_pair(a, b, p, q) || (d.getPairsWithZeroCoeff().find(pair_of(p, q)) != d.getPairsWithZeroCoeff().end()) == zb);
  ENSURE_EQ("default unchanged", d.getDefaultCollisionCoeff(), def);
  ENSURE("disabled exactly when zero", (d.getPairsWithZeroCoeff().find(pair_of(a, b)) != d.getPairsWithZeroCoeff().end()) == zero(c));
  ENSURE("disabled exactly when zero, other order", (d.getPairsWithZeroCoeff().find(pair_of(b, a)) != d.getPairsWithZeroCoeff().end()) == zero(c));
  ENSURE("consistent", consistent(d, a, b) && consistent(d, p, q));
}
/// a coefficient set twice, one of them perhaps zero or the default: the last one counts
LEMMA(L_set_again, CollisionCoeffData& d, const std::string& a, const std::string& b, double c0, double e0, int s, int t)
{
  REQUIRE(consistent(d, a, b));
  const double def = d.getDefaultCollisionCoeff();
  const double c = s == 0 ? 0.0 : s == 1 ? def : c0, e = t == 0 ? 0.0 : t == 1 ? def : e0;
  d.setCollisionCoeff(a, b, c);
  d.setCollisionCoeff(b, a, e);
  ENSURE_EQ("returned for the pair", d.getCollisionCoeff(a, b), e);
  ENSURE("disabled exactly when zero", (d.getPairsWithZeroCoeff().find(pair_of(a, b)) != d.getPairsWithZeroCoeff().end()) == zero(e));
  d.setDefaultCollisionCoeff(c0);
  ENSURE_EQ("kept when the default changes", d.getCollisionCoeff(a, b), e);
}
LEMMA(L_default, CollisionCoeffData& d, double c, const std::string& p, const std::string& q)
{
  REQUIRE(consistent(d, p, q));
  const bool set = d.getCollisionCoeffPairData().find(pair_of(p, q)) != d.getCollisionCoeffPairData().end();
  const double before = d.getCollisionCoeff(p, q);
  d.setDefaultCollisionCoeff(c);
  ENSURE_EQ("default", d.getDefaultCollisionCoeff(), c);
  ENSURE_EQ("pairs without coefficient have the default, the others keep theirs", d.getCollisionCoeff(p, q), set ? before : c);
  ENSURE_EQ("in either order", d.getCollisionCoeff(q, p), set ? before : c);
  ENSURE("consistent", consistent(d, p, q));
}
/// maxima: of one link
LEMMA(L_link_max, const LinkMaxError& e)
{
  bool found = true;
  double m = 0, b = 0;
  try { m = e.getMaxError(); b = e.getMaxErrorWithBuffer(); }
  catch (const std::runtime_error&) { found = false; }
  ENSURE("exists when an error was added", found == (e.has_error[0] || e.has_error[1]));
  if (!found) return;
  ENSURE("upper bound", (!e.has_error[0] || e.error[0] <= m) && (!e.has_error[1] || e.error[1] <= m));
  ENSURE("one of the errors", (e.has_error[0] && m == e.error[0]) || (e.has_error[1] && m == e.error[1]));
  ENSURE("upper bound with buffer", (!e.has_error[0] || e.error_with_buffer[0] <= b) && (!e.has_error[1] || e.error_with_buffer[1] <= b));
  ENSURE("one of the errors with buffer", (e.has_error[0] && b == e.error_with_buffer[0]) || (e.has_error[1] && b == e.error_with_buffer[1]));
}
inline const double NONE = std::numeric_limits<double>::lowest();
inline bool counts(const GradientResults& g, std::size_t link, std::size_t t)
{
  const auto& l = g.gradients[link];
  return l.has_gradient && l.cc_type != (t == 0 ? ContinuousCollisionType::CCType_Time1 : ContinuousCollisionType::CCType_Time0);
}
/// where nothing was added the stored errors are the smallest double
inline bool clean(const GradientResultsSet& s, std::size_t i, std::size_t t)
{
  const auto& e = s.max_error[i];
  return e.has_error[t] || (e.error[t] == std::numeric_limits<double>::lowest() && e.error_with_buffer[t] == std::numeric_limits<double>::lowest());
}
LEMMA(L_new_set, std::size_t n, std::size_t i, std::size_t t)
{
  REQUIRE(i < 2 && t < 2);
  const GradientResultsSet s(n);
  ENSURE("no errors", !s.max_error[i].has_error[t] && s.results.empty());
  ENSURE("clean", clean(s, i, t));
}
LEMMA(L_add, GradientResultsSet& s, const GradientResults& g, std::size_t i, std::size_t t, std::size_t k)
{
  REQUIRE(i < 2 && t < 2 && clean(s, i, t));
  REQUIRE(g.error >= std::numeric_limits<double>::lowest() && g.error_with_buffer >= std::numeric_limits<double>::lowest() && k < s.results.size());
  const std::size_t n = s.results.size();
  const bool had = s.max_error[i].has_error[t];
  const double e = s.max_error[i].error[t], eb = s.max_error[i].error_with_buffer[t], ek = s.results[k].error;
  s.add(g);
  const bool c = counts(g, i, t);
  ENSURE("one result more", s.results.size() == n + 1 && s.results[n].error == g.error && s.results[n].error_with_buffer == g.error_with_buffer);
  ENSURE("the others stay", s.results[k].error == ek);
  ENSURE("an error exists when one was added", s.max_error[i].has_error[t] == (had || c));
  ENSURE_EQ("maximum of the errors added", s.max_error[i].error[t], c ? (had ? std::max(e, g.error) : g.error) : e);
  ENSURE_EQ("maximum of the errors with buffer", s.max_error[i].error_with_buffer[t], c ? (had ? std::max(eb, g.error_with_buffer) : g.error_with_buffer) : eb);
  ENSURE("clean", clean(s, i, t));
}
/// the order of two results does not matter
LEMMA(L_order, GradientResultsSet& s, const GradientResults& g, const GradientResults& h, std::size_t i, std::size_t t)
{
  REQUIRE(i < 2 && t < 2 && clean(s, i, t));
  GradientResultsSet r = s;
  s.add(g);
  s.add(h);
  r.add(h);
  r.add(g);
  ENSURE("same errors", s.max_error[i].has_error[t] == r.max_error[i].has_error[t] && s.max_error[i].error[t] == r.max_error[i].error[t]);
  ENSURE("same errors with buffer", s.max_error[i].error_with_buffer[t] == r.max_error[i].error_with_buffer[t]);
}
#define MAX_OF(NAME, GET, FIELD, USE0, USE1)                                                                                                                \
  LEMMA(NAME, const GradientResultsSet& s)                                                                                                                  \
  {                                                                                                                                                         \
    const double least = std::numeric_limits<double>::lowest() / 2;                                                                                         \
    const bool u[4] = { USE0 && s.max_error[0].has_error[0], USE1 && s.max_error[0].has_error[1], USE0 && s.max_error[1].has_error[0],                       \
                        USE1 && s.max_error[1].has_error[1] };                                                                                              \
    const double e[4] = { s.max_error[0].FIELD[0], s.max_error[0].FIELD[1], s.max_error[1].FIELD[0], s.max_error[1].FIELD[1] };                              \
    REQUIRE((!u[0] || e[0] > least) && (!u[1] || e[1] > least) && (!u[2] || e[2] > least) && (!u[3] || e[3] > least));                                       \
    bool found = true;                                                                                                                                      \
    double m = 0;                                                                                                                                           \
    try { m = s.GET(); }                                                                                                                                    \
    catch (const std::runtime_error&) { found = false; }                                                                                                    \
    ENSURE("exists when an error was added", found == (u[0] || u[1] || u[2] || u[3]));                                                                      \
    if (!found) return;                                                                                                                                     \
    ENSURE("upper bound", (!u[0] || e[0] <= m) && (!u[1] || e[1] <= m) && (!u[2] || e[2] <= m) && (!u[3] || e[3] <= m));                                     \
    ENSURE("one of the errors", (u[0] && m == e[0]) || (u[1] && m == e[1]) || (u[2] && m == e[2]) || (u[3] && m == e[3]));                                   \
  }
MAX_OF(L_max, getMaxError, error, true, true)
MAX_OF(L_max_t0, getMaxErrorT0, error, true, false)
MAX_OF(L_max_t1, getMaxErrorT1, error, false, true)
MAX_OF(L_max_buffer, getMaxErrorWithBuffer, error_with_buffer, true, true)
MAX_OF(L_max_buffer_t0, getMaxErrorWithBufferT0, error_with_buffer, true, false)
MAX_OF(L_max_buffer_t1, getMaxErrorWithBufferT1, error_with_buffer, false, true)
/// clearing a result for reuse
LEMMA(L_clear, GradientResults& g, std::size_t i)
{
  REQUIRE(i < 2);
  g.clear();
  ENSURE("no gradient", !g.gradients[i].has_gradient && !g.cc_gradients[i].has_gradient && g.error == 0 && g.error_with_buffer == 0);
}
}  // namespace trajopt_lemmas
#ifndef VERIF_STATIC
#include "replay_main.inc"
#endif
