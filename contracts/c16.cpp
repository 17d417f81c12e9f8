// C16: node and trajectory variables occupy consecutive ranges of the optimisation vector
#include "ifopt_spec.h"
#include <trajopt_ifopt/variable_sets/var.h>
#include <trajopt_ifopt/variable_sets/node.h>
#include <trajopt_ifopt/variable_sets/nodes_variables.h>
#ifndef VERIF_STATIC
namespace spec
{
void begin_trial(Rng&) {}
template <> struct Gen<std::unique_ptr<trajopt_ifopt::Node>>
{
  static std::unique_ptr<trajopt_ifopt::Node> make(Rng& r)
  {
    using namespace trajopt_ifopt;
    auto n = std::make_unique<Node>("n");
    for (int k = r.i(0, 4); k > 0; --k)
    {
      if (r.i(0, 2) == 0)
      {
        n->addVar("s" + std::to_string(k), r.d(), Gen<Bounds>::make(r));
        continue;
      }
      const int m = r.i(1, 3);
      std::vector<std::string> names;
      std::vector<Bounds> b;
      Eigen::VectorXd x(m);
      for (int j = 0; j < m; ++j)
      {
        names.push_back(std::string(1, static_cast<char>('a' + j)));
        b.push_back(Gen<Bounds>::make(r));
        x(j) = r.d();
      }
      n->addVar("v" + std::to_string(k), names, x, b);
    }
    return n;
  }
};
template <> struct Gen<std::shared_ptr<trajopt_ifopt::Node>>
{
  static std::shared_ptr<trajopt_ifopt::Node> make(Rng& r) { return Gen<std::unique_ptr<trajopt_ifopt::Node>>::make(r); }
};
template <> struct Gen<trajopt_ifopt::NodesVariables>
{
  static trajopt_ifopt::NodesVariables make(Rng& r)
  {
    std::vector<std::unique_ptr<trajopt_ifopt::Node>> nodes;
    for (int k = r.i(0, 3); k > 0; --k) nodes.push_back(Gen<std::unique_ptr<trajopt_ifopt::Node>>::make(r));
    return trajopt_ifopt::NodesVariables("t", std::move(nodes));
  }
};
}
#endif
namespace trajopt_lemmas
{
using Names = std::vector<std::string>;
using NodePtr = std::shared_ptr<Node>;
inline bool same(const Bounds& a, const Bounds& b) { return a.getLower() == b.getLower() && a.getUpper() == b.getUpper() && a.getType() == b.getType(); }
/// the variables of a node, one after the other from index first on
inline bool laid_out(const Node& n, Index first)
{
  bool r = true;
  Index at = first, bt = first;
  for (std::size_t i = 0; i < n.vars_.size(); ++i)
  {
    if (r && (n.vars_[i] == nullptr || n.vars_[i]->index_ != at || at != bt || n.vars_[i]->values_.rows() != static_cast<Index>(n.vars_[i]->bounds_.size()) ||
              n.vars_[i]->names_.size() != n.vars_[i]->bounds_.size()))
      r = false;
    at += n.vars_[i]->values_.rows();
    bt += static_cast<Index>(n.vars_[i]->bounds_.size());
  }
  return r && n.length_ == at - first && at == bt;
}
inline Index bounds_before(const Node& n, std::size_t i)
{
  Index s = 0;
  for (std::size_t j = 0; j < i; ++j) s += static_cast<Index>(n.vars_[j]->bounds_.size());
  return s;
}
/// no variable occurs twice
inline bool distinct(const Node& n)
{
  bool r = true;
  for (std::size_t i = 0; i < n.vars_.size(); ++i)
    for (std::size_t j = 0; j < i; ++j)
      if (r && n.vars_[i] == n.vars_[j]) r = false;
  return r;
}
/// every variable has elements, and its range lies inside that of the node
inline bool inside(const Node& n, Index first)
{
  bool r = true;
  for (std::size_t i = 0; i < n.vars_.size(); ++i)
    if (r && (n.vars_[i]->values_.rows() < 1 || n.vars_[i]->index_ < first || n.vars_[i]->index_ + n.vars_[i]->values_.rows() > first + n.length_)) r = false;
  return r;
}
/// number of elements of the variables before variable i
inline Index before(const Node& n, std::size_t i)
{
  Index s = 0;
  for (std::size_t j = 0; j < i; ++j) s += n.vars_[j]->values_.rows();
  return s;
}
/// a variable of one element
LEMMA(L_scalar, Index index, const std::string& name, double value, const Bounds& b)
{
  const Var v(index, name, value, b);
  ENSURE_EQI("index", v.getIndex(), index);
  ENSURE_EQI("size", v.size(), 1);
  ENSURE("names", v.getIdentifier() == name && v.name().size() == 1 && v.name()[0] == name);
  ENSURE_EQI("one value", v.value().size(), 1);
  ENSURE_EQ("the value closest to the initial value", v.value()(0), std::min(std::max(value, b.getLower()), b.getUpper()));
  ENSURE("bounds", v.bounds().size() == 1 && same(v.bounds()[0], b));
  ENSURE("no parent", v.getParent() == nullptr);
}
/// a variable with several elements
LEMMA(L_vector, Index index, const std::string& name, const Names& names, const VectorXd& values, const std::vector<Bounds>& b, Index i)
{
  bool accepted = true;
  try
  {
    const Var v(index, name, names, values, b);
    ENSURE("identifier", v.getIdentifier() == name);
    ENSURE_EQI("index", v.getIndex(), index);
    ENSURE_EQI("size", v.size(), values.size());
    ENSURE("as many names and bounds as values", v.name().size() == U(values.size()) && v.bounds().size() == U(values.size()));
    if (0 <= i && i < values.size())
    {
      ENSURE("names in order", v.name()[U(i)] == names[U(i)]);
      ENSURE("bounds in order", same(v.bounds()[U(i)], b[U(i)]));
      ENSURE_EQ("the value closest to the initial value", v.value()(i), std::min(std::max(values(i), b[U(i)].getLower()), b[U(i)].getUpper()));
    }
  }
  catch (const std::runtime_error&)
  {
    accepted = false;
  }
  ENSURE("sizes that do not match are rejected", accepted == (names.size() == b.size() && names.size() == U(values.size())));
}
/// a variable sees its own range of the vector
LEMMA(L_var_set, Index index, const Names& names, const VectorXd& values, const std::vector<Bounds>& b, const VectorXd& x, Index i)
{
  REQUIRE(names.size() == b.size() && names.size() == U(values.size()) && 0 <= i && i < values.size());
  REQUIRE(0 <= index && index + values.size() <= x.size());
  Var v(index, "v", names, values, b);
  v.setVariables(x);
  ENSURE_EQI("same size", v.size(), values.size());
  ENSURE_EQ("its own range", v.value()(i), x(index + i));
  ENSURE("its place", v.getIndex() == index && v.bounds().size() == b.size() && v.name().size() == names.size());
}
/// a second vector, next to the first or far from it: the variable sees that one
inline double step(int k) { return k == 0 ? 1e-8 : k == 1 ? 1e-13 : k == 2 ? 1e-4 : k == 3 ? 0.0 : 1.0; }
LEMMA(L_var_set_again, Index index, const Names& names, const VectorXd& values, const std::vector<Bounds>& b, const VectorXd& x, const VectorXd& z, int k, Index i)
{
  REQUIRE(names.size() == b.size() && names.size() == U(values.size()) && 0 <= i && i < values.size());
  REQUIRE(0 <= index && index + values.size() <= x.size() && z.size() == x.size());
  Var v(index, "v", names, values, b);
  v.setVariables(x);
  const VectorXd y = x + step(k) * z;
  v.setVariables(y);
  ENSURE("exactly the new value", v.value()(i) == y(index + i));
}
LEMMA(L_add_scalar, const NodePtr& n, const std::string& name, double value, const Bounds& b, const std::string& other, std::size_t i)
{
  REQUIRE(n != nullptr && laid_out(*n, 0) && inside(*n, 0));
  const std::size_t count = n->vars_.size();
  const Index length = n->size();
  REQUIRE(i < count);
  const bool had = n->hasVar(other);
  const auto vi = n->vars_[i];
  const auto v = n->addVar(name, value, b);
  ENSURE("one variable more", n->vars_.size() == count + 1 && n->size() == length + 1);
  ENSURE("at the end", n->vars_[count] == v && v->getIndex() == length && v->size() == 1);
  ENSURE("the others stay", n->vars_[i] == vi);
  ENSURE("it belongs to the node", v->getParent() == n.get());
  ENSURE("found by its name", n->hasVar(name) && n->getVar(name) == v);
  ENSURE("other names are not changed", other == name || n->hasVar(other) == had);
  ENSURE("laid out without gaps", laid_out(*n, 0));
  ENSURE("each inside the node", inside(*n, 0));
}
LEMMA(L_add_vector, const NodePtr& n, const std::string& name, const Names& names, const VectorXd& values, const std::vector<Bounds>& b, const std::string& other, std::size_t i)
{
  REQUIRE(n != nullptr && laid_out(*n, 0) && inside(*n, 0) && names.size() == b.size() && names.size() == U(values.size()) && !names.empty());
  const std::size_t count = n->vars_.size();
  const Index length = n->size();
  REQUIRE(i < count);
  const bool had = n->hasVar(other);
  const auto vi = n->vars_[i];
  const auto v = n->addVar(name, names, values, b);
  ENSURE("one variable more", n->vars_.size() == count + 1 && n->size() == length + values.size());
  ENSURE("at the end", n->vars_[count] == v && v->getIndex() == length && v->size() == values.size());
  ENSURE("the others stay", n->vars_[i] == vi);
  ENSURE("it belongs to the node", v->getParent() == n.get());
  ENSURE("found by its name", n->hasVar(name) && n->getVar(name) == v);
  ENSURE("other names are not changed", other == name || n->hasVar(other) == had);
  ENSURE("laid out without gaps", laid_out(*n, 0));
  ENSURE("each inside the node", inside(*n, 0));
}
/// values and bounds of a node follow the order of its variables
LEMMA(L_node_index, const NodePtr& n, Index first, std::size_t i)
{
  REQUIRE(n != nullptr && laid_out(*n, first) && i < n->vars_.size());
  ENSURE_EQI("index", n->vars_[i]->getIndex(), first + before(*n, i));
  ENSURE_EQI("bounds before it", before(*n, i), bounds_before(*n, i));
}
LEMMA(L_node_values, const NodePtr& n, std::size_t i, Index d)
{
  REQUIRE(n != nullptr && laid_out(*n, 0) && i < n->vars_.size() && 0 <= d && d < n->vars_[i]->size());
  const VectorXd x = n->getValues();
  ENSURE_EQI("size", x.size(), n->size());
  ENSURE_EQ("each value at its place", x(before(*n, i) + d), n->vars_[i]->value()(d));
}
LEMMA(L_node_bounds, const NodePtr& n, std::size_t i, Index d)
{
  REQUIRE(n != nullptr && laid_out(*n, 0) && i < n->vars_.size() && 0 <= d && d < n->vars_[i]->size());
  const std::vector<Bounds> b = n->getBounds();
  ENSURE_EQI("size", b.size(), n->size());
  ENSURE("each bound at its place", same(b[U(bounds_before(*n, i) + d)], n->vars_[i]->bounds()[U(d)]));
}
/// setting the vector: each variable sees its own range
LEMMA(L_node_set, const NodePtr& n, Index first, const VectorXd& x, std::size_t i, Index d)
{
  REQUIRE(n != nullptr && first >= 0 && distinct(*n) && inside(*n, first));
  REQUIRE(laid_out(*n, first) && i < n->vars_.size() && 0 <= d && d < n->vars_[i]->size() && first + n->size() <= x.size());
  n->setVariables(x);
  ENSURE_EQ("its own range", n->vars_[i]->value()(d), x(n->vars_[i]->getIndex() + d));
  ENSURE("layout", laid_out(*n, first));
}
/// node i of a trajectory starts at element at(i)
inline Index length_before(const NodesVariables& t, std::size_t i)
{
  Index s = 0;
  for (std::size_t k = 0; k < i; ++k) s += t.nodes_[k]->length_;
  return s;
}
/// appending a node to a trajectory: the step of the constructor, for every trajectory so far
LEMMA(L_add_node, NodesVariables& t, std::unique_ptr<Node>& n, std::size_t i, Index d, std::size_t k)
{
  REQUIRE(n != nullptr && laid_out(*n, 0) && distinct(*n));
  REQUIRE(i < n->vars_.size() && 0 <= d && d < n->vars_[i]->size());
  REQUIRE(k < t.nodes_.size() && static_cast<Index>(t.bounds_.size()) == t.n_dim_ && t.n_dim_ >= 0);
  REQUIRE(t.n_dim_ == length_before(t, t.nodes_.size()));
  const std::size_t count = t.nodes_.size();
  const Index rows = t.n_dim_, length = n->size(), index = n->vars_[i]->getIndex();
  const auto nk = t.nodes_[k];
  const Node* added = n.get();
  const double value = n->vars_[i]->value()(d);
  t.addNode(std::move(n));
  ENSURE("one node more", t.nodes_.size() == count + 1 && t.nodes_[count].get() == added);
  ENSURE("the others stay", t.nodes_[k] == nk);
  ENSURE_EQI("dimension", t.getDim(), rows + length);
  ENSURE("it belongs to the trajectory", added->getParent() == &t);
  ENSURE_EQI("its variables follow those so far", added->vars_[i]->getIndex(), rows + index);
  ENSURE_EQI("same size", added->size(), length);
  ENSURE_EQ("same value", added->vars_[i]->value()(d), value);
  ENSURE("laid out without gaps", laid_out(*added, rows));
  ENSURE_EQI("one bound per element", t.bounds_.size(), rows + length);
  ENSURE("its bounds follow those so far", same(t.bounds_[U(rows + bounds_before(*added, i) + d)], added->vars_[i]->bounds()[U(d)]));
}
LEMMA(L_add_node_bounds, NodesVariables& t, std::unique_ptr<Node>& n, std::size_t k)
{
  REQUIRE(n != nullptr && laid_out(*n, 0) && distinct(*n) && k < t.bounds_.size());
  const Bounds b = t.bounds_[k];
  t.addNode(std::move(n));
  ENSURE("bounds so far stay", same(t.getBounds()[k], b));
}
/// the nodes of a trajectory: no node and no variable occurs twice, every variable inside the vector
inline bool nodes_distinct(const NodesVariables& t)
{
  bool r = true;
  for (std::size_t i = 0; i < t.nodes_.size(); ++i)
  {
    if (r && t.nodes_[i] == nullptr) r = false;
    for (std::size_t j = 0; j < i; ++j)
      if (r && t.nodes_[i] == t.nodes_[j]) r = false;
  }
  return r;
}
inline bool fits(const Node& n, Index rows)
{
  bool r = true;
  for (std::size_t j = 0; j < n.vars_.size(); ++j)
    if (r && (n.vars_[j] == nullptr || n.vars_[j]->parent_ != &n || n.vars_[j]->values_.rows() < 1 || n.vars_[j]->index_ < 0 || n.vars_[j]->index_ + n.vars_[j]->values_.rows() > rows)) r = false;
  return r;
}
inline bool nodes_fit(const NodesVariables& t, Index rows)
{
  bool r = true;
  for (std::size_t i = 0; i < t.nodes_.size(); ++i)
    if (r && (!fits(*t.nodes_[i], rows) || !distinct(*t.nodes_[i]))) r = false;
  return r;
}
LEMMA(L_trajectory_set, NodesVariables& t, const VectorXd& x, std::size_t i, std::size_t j, Index d)
{
  REQUIRE(nodes_distinct(t) && t.observers_.empty());
  REQUIRE(nodes_fit(t, x.size()) && i < t.nodes_.size() && j < t.nodes_[i]->vars_.size() && 0 <= d && d < t.nodes_[i]->vars_[j]->size());
  const auto v = t.nodes_[i]->vars_[j];
  const Index index = v->getIndex(), size = v->size();
  t.setVariables(x);
  ENSURE("the vector is read back", t.getValues().size() == x.size());
  ENSURE("the same variable", t.nodes_[i]->vars_[j] == v);
  ENSURE("its place", v->getIndex() == index && v->size() == size);
  ENSURE_EQ("each variable sees its own range", v->value()(d), x(index + d));
  if (d < x.size()) ENSURE_EQ("element by element", t.getValues()(d), x(d));
}
#ifndef VERIF_STATIC
/// executions: a trajectory of several nodes, built, set and read back
using NodeShape = std::vector<NodePtr>;
LEMMA(B_trajectory, NodePtr a, NodePtr b, NodePtr c, NodePtr e, std::size_t count, unsigned seed)
{
  const NodePtr given[4] = { a, b, c, e };
  std::vector<std::unique_ptr<Node>> nodes;
  std::vector<Node*> raw;
  std::vector<double> values;
  std::vector<Bounds> bounds;
  for (std::size_t i = 0; i < count % 5; ++i)
  {
    nodes.push_back(std::make_unique<Node>("n" + std::to_string(i)));
    raw.push_back(nodes.back().get());
    for (const auto& v : given[i]->vars_)
    {
      if (v->name().size() == 1 && v->name()[0] == v->getIdentifier())
        nodes.back()->addVar(v->getIdentifier(), v->value()(0), v->bounds()[0]);
      else
        nodes.back()->addVar(v->getIdentifier(), v->name(), v->value(), v->bounds());
      for (Index d = 0; d < v->size(); ++d)
      {
        values.push_back(v->value()(d));
        bounds.push_back(v->bounds()[U(d)]);
      }
    }
  }
  NodesVariables t("trajectory", std::move(nodes));
  const auto n = static_cast<Index>(values.size());
  ENSURE("name", t.getName() == "trajectory");
  ENSURE("as many rows as elements", t.getRows() == n && t.getDim() == n);
  ENSURE("as many nodes as given", t.getNodes().size() == raw.size());
  VectorXd x = t.getValues();
  std::vector<Bounds> tb = t.getBounds();
  ENSURE("as many values and bounds as elements", x.size() == n && tb.size() == values.size());
  auto layout = [&](const VectorXd& now) {
    Index at = 0;
    for (std::size_t i = 0; i < raw.size(); ++i)
    {
      ENSURE("nodes in order", t.getNode(i).get() == raw[i] && t.getNodes()[i].get() == raw[i] && raw[i]->getParent() == &t);
      ENSURE("length of the node", raw[i]->size() == given[i]->size() && raw[i]->vars_.size() == given[i]->vars_.size());
      for (std::size_t j = 0; j < raw[i]->vars_.size(); ++j)
      {
        const auto& v = raw[i]->vars_[j];
        const auto& g = given[i]->vars_[j];
        ENSURE("consecutive indices", v->getIndex() == at);
        ENSURE("names and size", v->getIdentifier() == g->getIdentifier() && v->name() == g->name() && v->size() == g->size() && v->getParent() == raw[i]);
        for (Index d = 0; d < v->size(); ++d) ENSURE("its own range", v->value()(d) == now(at + d));
        at += v->size();
      }
      const VectorXd nv = raw[i]->getValues();
      ENSURE("the values of the node", nv.size() == raw[i]->size() && nv == now.segment(at - nv.size(), nv.size()));
    }
    ENSURE("nothing left over", at == n);
  };
  for (Index k = 0; k < n; ++k)
    ENSURE("values and bounds in order", x(k) == values[U(k)] && same(tb[U(k)], bounds[U(k)]));
  layout(x);
  const std::size_t h0 = t.getHash();
  VectorXd y(n);
  std::srand(seed);
  for (Index k = 0; k < n; ++k) y(k) = (std::rand() % 2001 - 1000) / 8.0;
  t.setVariables(y);
  ENSURE("read back", t.getValues() == y);
  layout(y);
  ENSURE("the bounds and rows stay", t.getRows() == n && t.getBounds().size() == values.size());
  ENSURE("another hash for another vector", n == 0 || y == x || t.getHash() != h0);
  const std::size_t h1 = t.getHash();
  t.setVariables(x);
  VectorXd near = x;
  for (Index k = 0; k < n; ++k)
    if (std::rand() % 2 == 0) near(k) += step(std::rand() % 4);
  t.setVariables(near);
  ENSURE("a vector next to the one before is read back", t.getValues() == near);
  layout(near);
  t.setVariables(y);
  ENSURE("the same hash for the same vector", t.getHash() == h1);
}
#endif
}  // namespace trajopt_lemmas
#ifndef VERIF_STATIC
#include "replay_main.inc"
#endif
