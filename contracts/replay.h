// Concrete execution of contracts on generated inputs (replay of failed obligations; labelled bounded).
#pragma once
#include <functional>
#include <random>
#include <sstream>
#include <tuple>
#include <type_traits>
#include <Eigen/Core>
#include <Eigen/SparseCore>

namespace spec
{
struct Rng
{
  std::mt19937_64 g;
  int n = 3;                       // size of the current instance
  bool sizes_fixed = false;        // every vector and matrix of the instance has the same extent
  int kind = -1;                   // all elements of the current sequence are of one kind
  bool nonneg = false;             // the current sequence has no negative numbers
  int i(int lo, int hi) { return lo + static_cast<int>(g() % static_cast<unsigned long>(hi - lo + 1)); }
  bool b() { return g() & 1; }
  double d() { const double v = any(); return nonneg ? std::fabs(v) : v; }
  double any()
  {
    static const double special[] = { 0, 1, -1, 0.5, -0.5, 2, -2, 3, 1e-3, -1e-3, 10, -7 };
    switch (i(0, 3))
    {
      case 0: return special[i(0, 11)];
      case 1: return static_cast<double>(i(-8, 8)) / 4.0;
      default: return static_cast<double>(static_cast<long>(g() % 2000001) - 1000000) / 250000.0;
    }
  }
  double pos() { double v = std::fabs(d()); return v == 0 ? 0.75 : v; }
};

template <class T, class = void>
struct Gen;
template <> struct Gen<double> { static double make(Rng& r) { return r.d(); } };
template <> struct Gen<bool> { static bool make(Rng& r) { return r.b(); } };
template <class T> struct Gen<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>>
{
  static T make(Rng& r) { return static_cast<T>(r.i(std::is_signed_v<T> ? (r.i(0, 5) == 0 ? -2 : 0) : 0, 5)); }
};
template <> struct Gen<std::string>
{
  static std::string make(Rng& r)
  {
    std::string s;
    for (int k = r.i(0, 6); k > 0; --k) s += "abcXYZ 019_\"\\\n"[r.i(0, 13)];
    return s;
  }
};
template <class T> struct Gen<std::vector<T>>
{
  static std::vector<T> make(Rng& r)
  {
    std::vector<T> v;
    const int n = !r.sizes_fixed && r.i(0, 2) == 0 ? r.i(0, 5) : r.n;
    r.kind = r.b() ? r.i(0, 4) : -1;
    for (int k = 0; k < n; ++k) v.push_back(Gen<T>::make(r));
    r.kind = -1;
    return v;
  }
};
template <class S, int R, int C, int O, int MR, int MC> struct Gen<Eigen::Matrix<S, R, C, O, MR, MC>>
{
  static Eigen::Matrix<S, R, C, O, MR, MC> make(Rng& r)
  {
    const int a = R < 0 ? (!r.sizes_fixed && r.i(0, 3) == 0 ? r.i(0, 5) : r.n) : R, b = C < 0 ? (!r.sizes_fixed && r.i(0, 3) == 0 ? r.i(0, 5) : r.n) : C;
    Eigen::Matrix<S, R, C, O, MR, MC> m(a, b);
    r.nonneg = r.i(0, 2) == 0;
    for (int i = 0; i < a; ++i)
      for (int j = 0; j < b; ++j) m(i, j) = Gen<S>::make(r);
    r.nonneg = false;
    return m;
  }
};
template <class S, int O, class I> struct Gen<Eigen::SparseMatrix<S, O, I>>
{
  static Eigen::SparseMatrix<S, O, I> make(Rng& r)
  {
    const int a = !r.sizes_fixed && r.i(0, 3) == 0 ? r.i(0, 5) : r.n, b = !r.sizes_fixed && r.i(0, 3) == 0 ? r.i(0, 5) : r.n;
    Eigen::SparseMatrix<S, O, I> m(a, b);
    for (int i = 0; i < a; ++i)
      for (int j = 0; j < b; ++j)
        if (r.b()) m.insert(i, j) = Gen<S>::make(r);
    m.makeCompressed();
    return m;
  }
};

// printing of inputs
template <class T, class = void> struct CanPrint : std::false_type {};
template <class T> struct CanPrint<T, std::void_t<decltype(std::declval<std::ostream&>() << std::declval<const T&>())>> : std::true_type {};
template <class T> void show(std::ostream& o, const T& v)
{
  if constexpr (CanPrint<T>::value) o << v;
  else o << "<object>";
}
template <class T> void show(std::ostream& o, const std::vector<T>& v)
{
  o << "[";
  for (std::size_t i = 0; i < v.size(); ++i) { if (i) o << ", "; show(o, static_cast<T>(v[i])); }
  o << "]";
}

struct Entry { std::string name; std::function<void(Rng&, std::ostream*)> run; };
std::vector<Entry>& entries();
void begin_trial(Rng& r);

template <class... A>
bool add(const char* name, void (*f)(A...))
{
  entries().push_back({ name, [f](Rng& r, std::ostream* o) {
                         // braced initialisation: left-to-right order
                         std::tuple<std::decay_t<A>...> args{ Gen<std::decay_t<A>>::make(r)... };
                         if (o)
                           std::apply([&](const auto&... x) { int k = 0; ((*o << "  input " << k++ << ": ", show(*o, x), *o << "\n"), ...); }, args);
                         std::apply([&](auto&... x) { f(x...); }, args);
                       } });
  return true;
}
}  // namespace spec
