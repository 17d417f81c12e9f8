// C20: the convex solver asked for is the one used
#include "sco_env.h"
#include <sstream>
#include <stdexcept>
namespace sco_lemmas
{
class Named : public AnyModel
{
public:
  Named(int kind) : kind_(kind) {}
  int kind_;
  ModelConfig::ConstPtr config_;
};
}
// the constructors of the solvers, as seen by createModel
namespace sco
{
Model::Ptr createGurobiModel() { return std::make_shared<sco_lemmas::Named>(0); }
Model::Ptr createOSQPModel(const ModelConfig::ConstPtr& config)
{
  auto m = std::make_shared<sco_lemmas::Named>(1);
  m->config_ = config;
  return m;
}
Model::Ptr createqpOASESModel() { return std::make_shared<sco_lemmas::Named>(2); }
Model::Ptr createBPMPDModel() { return std::make_shared<sco_lemmas::Named>(3); }
}
#ifndef VERIF_STATIC
namespace spec
{
void begin_trial(Rng& r) { make_pool(r.n); }
}
#endif
namespace sco_lemmas
{
/// the solvers of this build
inline bool built(int kind)
{
#ifdef HAVE_GUROBI
  if (kind == 0) return true;
#endif
#ifdef HAVE_OSQP
  if (kind == 1) return true;
#endif
#ifdef HAVE_QPOASES
  if (kind == 2) return true;
#endif
#ifdef HAVE_BPMPD
  if (kind == 3) return true;
#endif
  return false;
}
inline int first() { return built(0) ? 0 : built(1) ? 1 : built(2) ? 2 : 3; }
inline std::string name_of(int kind) { return kind == 0 ? "GUROBI" : kind == 1 ? "OSQP" : kind == 2 ? "QPOASES" : kind == 3 ? "BPMPD" : "AUTO_SOLVER"; }
inline int kind_of(const std::string& s) { return s == "GUROBI" ? 0 : s == "OSQP" ? 1 : s == "QPOASES" ? 2 : s == "BPMPD" ? 3 : s == "AUTO_SOLVER" ? 4 : -1; }
inline std::string some_name(int k, const std::string& s)
{
  if (k == 0) return "GUROBI";
  if (k == 1) return "OSQP";
  if (k == 2) return "QPOASES";
  if (k == 3) return "BPMPD";
  if (k == 4) return "AUTO_SOLVER";
  return s;
}
/// from the solver to its name and back
LEMMA(L_names, int kind)
{
  REQUIRE(0 <= kind && kind <= 4);
  const ModelType t(kind);
  std::stringstream s;
  s << t;
  ENSURE("the printed name is that of the solver", s.str() == name_of(kind));
  ENSURE("it converts back to the same solver", static_cast<int>(ModelType(s.str())) == kind);
  ENSURE("same solver", t == ModelType(kind) && !(t != ModelType(kind)));
}
LEMMA(L_distinct, int a, int b)
{
  REQUIRE(0 <= a && a <= 4 && 0 <= b && b <= 4 && a != b);
  std::stringstream s, t;
  s << ModelType(a);
  t << ModelType(b);
  ENSURE("distinct solvers have distinct names", s.str() != t.str());
  ENSURE("distinct solvers", ModelType(a) != ModelType(b) && !(ModelType(a) == ModelType(b)));
}
/// names
LEMMA(L_parse, int k, const std::string& other)
{
  const std::string s = some_name(k, other);
  int r = -1;
  try
  {
    r = static_cast<int>(ModelType(s));
  }
  catch (const std::runtime_error&)
  {
  }
  ENSURE("the name stands for its solver, unknown names are rejected", r == kind_of(s));
}
/// numbers that stand for no solver have no name
LEMMA(L_no_name, int kind)
{
  REQUIRE(4 < kind && kind < 256);
  bool thrown = false;
  std::stringstream s;
  try
  {
    s << ModelType(kind);
  }
  catch (const std::runtime_error&)
  {
    thrown = true;
  }
  ENSURE("rejected", thrown);
}
LEMMA(L_available, int kind)
{
  REQUIRE(0 <= kind && kind <= 4);
  const std::vector<ModelType> v = availableSolvers();
  std::size_t n = 0;
  bool listed = false;
  for (int k = 0; k < 4; ++k)
    if (built(k)) ++n;
  for (std::size_t k = 0; k < v.size(); ++k)
    if (static_cast<int>(v[k]) == kind) listed = true;
  ENSURE_EQI("as many as built", v.size(), n);
  ENSURE("exactly the solvers of this build are available", listed == built(kind));
}
/// the choice by the caller or the environment
LEMMA(L_create, int kind, bool set, int k, const std::string& other)
{
  REQUIRE(0 <= kind && kind <= 4);
  const std::string e = some_name(k, other);
  spec::environment("TRAJOPT_CONVEX_SOLVER", set, e);
  const int want = kind != 4 ? kind : set && e != "AUTO_SOLVER" ? kind_of(e) : first();
  auto config = std::make_shared<ModelConfig>();
  int got = -1;
  bool configured = true;
  try
  {
    const Model::Ptr m = createModel(ModelType(kind), config);
    const auto* n = static_cast<const Named*>(m.get());
    got = n->kind_;
    configured = got != 1 || n->config_ == config;
  }
  catch (const std::runtime_error&)
  {
  }
  ENSURE("exactly the solver that was chosen is created, or it is reported as unavailable", got == (want >= 0 && built(want) ? want : -1));
  ENSURE("its configuration is passed on", configured);
}
}  // namespace sco_lemmas
#ifndef VERIF_STATIC
#include "replay_main.inc"
#endif
