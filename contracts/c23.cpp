// C23: reading settings from JSON
#include <stdexcept>
#include <json/json.h>
#include "spec.h"
#include <trajopt/json_marshal.hpp>
#ifndef VERIF_STATIC
namespace spec
{
void begin_trial(Rng& r) { r.n = r.i(0, 5); }
template <> struct Gen<Json::Value>
{
  static Json::Value make(Rng& r) { return make(r, 2); }
  static Json::Value make(Rng& r, int depth)
  {
    const int k = r.kind >= 0 ? r.kind : r.i(0, depth > 0 ? 11 : 7);
    switch (k)
    {
      case 0: return Json::Value(r.i(-100, 100));
      case 1: return Json::Value(r.d());
      case 2: return Json::Value(Gen<std::string>::make(r));
      case 3: return Json::Value(r.b());
      case 4: return r.i(0, 3) == 0 ? Json::Value() : Json::Value(1e20);
      case 5: return Json::Value(Json::UInt(3000000000U));
      case 6: return Json::Value(r.i(-3, 3));
      case 7: return Json::Value(r.d());
      case 8:
      case 9:
      {
        Json::Value v(Json::arrayValue);
        const int n = r.i(0, 3) == 0 ? r.i(3, 4) : r.i(0, 5);
        const int e = r.i(0, 9);
        for (int i = 0; i < n; ++i)
        {
          r.kind = e < 7 ? e : -1;
          v.append(make(r, e < 7 ? 0 : depth - 1));
          r.kind = -1;
        }
        return v;
      }
      default:
      {
        Json::Value v(Json::objectValue);
        for (const char* f : { "a", "b", "c", "d" })
          if (r.i(0, 2)) v[f] = make(r, depth - 1);
        return v;
      }
    }
  }
};
}
#endif
namespace json_lemmas
{
// which values jsoncpp converts
#ifdef VERIF_STATIC
inline bool is(const Json::Value& v, const bool&) { return v.isBool(); }
inline bool is(const Json::Value& v, const int&) { return v.isInt(); }
inline bool is(const Json::Value& v, const double&) { return v.isDouble(); }
inline bool is(const Json::Value& v, const std::string&) { return v.isString(); }
#else
inline bool is(const Json::Value& v, const bool&) { return v.isConvertibleTo(Json::booleanValue); }
inline bool is(const Json::Value& v, const int&)
{
  try { v.asInt(); } catch (const std::exception&) { return false; }
  return true;
}
inline bool is(const Json::Value& v, const double&) { return v.isConvertibleTo(Json::realValue); }
inline bool is(const Json::Value& v, const std::string&) { return v.isConvertibleTo(Json::stringValue); }
#endif
inline bool of(const Json::Value& v, const bool&) { return v.asBool(); }
inline int of(const Json::Value& v, const int&) { return v.asInt(); }
inline double of(const Json::Value& v, const double&) { return v.asDouble(); }
inline std::string of(const Json::Value& v, const std::string&) { return v.asString(); }
inline bool list(const Json::Value& v) { return v.isArray() || v.isNull(); }
inline bool object(const Json::Value& v) { return v.isObject() || v.isNull(); }
template <class T> bool all(const Json::Value& v, const T& t)
{
  bool r = true;
  for (Json::ArrayIndex i = 0; i < v.size(); ++i)
    if (r && !is(v[i], t)) r = false;
  return r;
}
/// reading a value
template <class T> void scalar(const Json::Value& v, const T& old)
{
  T x = old;
  bool raised = false;
  try
  {
    json_marshal::fromJson(v, x);
  }
  catch (const std::exception&)
  {
    raised = true;
  }
  ENSURE("an error exactly for a value of the wrong kind", raised != is(v, old));
  if (!raised) ENSURE("the value", x == of(v, old));
  if (raised) ENSURE("unchanged after an error", x == old);
}
LEMMA(L_bool, const Json::Value& v, bool old) { scalar(v, old); }
LEMMA(L_int, const Json::Value& v, int old) { scalar(v, old); }
LEMMA(L_double, const Json::Value& v, double old) { scalar(v, old); }
LEMMA(L_string, const Json::Value& v, const std::string& old) { scalar(v, old); }

template <class T> void array(const Json::Value& v, const std::vector<T>& old, const T& t, std::size_t i)
{
  std::vector<T> x = old;
  bool raised = false;
  try
  {
    json_marshal::fromJson(v, x);
  }
  catch (const std::exception&)
  {
    raised = true;
  }
  ENSURE("an error exactly when this is no list of such values", raised != (list(v) && all(v, t)));
  if (!raised)
  {
    ENSURE("number of elements", x.size() == v.size());
    if (i < x.size()) ENSURE("element", x[i] == of(v[static_cast<Json::ArrayIndex>(i)], t));
  }
}
LEMMA(L_array_int, const Json::Value& v, const std::vector<int>& old, int t, std::size_t i) { array(v, old, t, i); }
LEMMA(L_array_double, const Json::Value& v, const std::vector<double>& old, double t, std::size_t i) { array(v, old, t, i); }
LEMMA(L_array_string, const Json::Value& v, const std::vector<std::string>& old, const std::string& t, std::size_t i) { array(v, old, t, i); }

LEMMA(L_array_size, const Json::Value& v, const std::vector<double>& old, int n, std::size_t i)
{
  std::vector<double> x = old;
  const double t = 0;
  bool raised = false;
  try
  {
    json_marshal::fromJsonArray(v, x, n);
  }
  catch (const std::exception&)
  {
    raised = true;
  }
  ENSURE("an error exactly for another number of elements or another kind", raised != (static_cast<int>(v.size()) == n && list(v) && all(v, t)));
  if (!raised)
  {
    ENSURE("number of elements", x.size() == v.size());
    if (i < x.size()) ENSURE("element", x[i] == of(v[static_cast<Json::ArrayIndex>(i)], t));
  }
}
template <class V> void vec(const Json::Value& v, const V& old, Json::ArrayIndex n, Json::ArrayIndex i)
{
  REQUIRE(i < n);
  V x = old;
  const double t = 0;
  bool raised = false;
  try
  {
    json_marshal::fromJson(v, x);
  }
  catch (const std::exception&)
  {
    raised = true;
  }
  ENSURE("an error exactly for another number of elements or another kind", raised != (v.size() == n && list(v) && all(v, t)));
  if (!raised) ENSURE("element", x(static_cast<Eigen::Index>(i)) == of(v[i], t));
  if (raised) ENSURE("unchanged after an error", x(static_cast<Eigen::Index>(i)) == old(static_cast<Eigen::Index>(i)));
}
LEMMA(L_vector3, const Json::Value& v, const Eigen::Vector3d& old, unsigned i) { vec(v, old, 3, i); }
LEMMA(L_vector4, const Json::Value& v, const Eigen::Vector4d& old, unsigned i) { vec(v, old, 4, i); }

/// a field: its value when it is there, otherwise the default or an error
template <class T> void field(const Json::Value& v, const T& old, const T& df, const char* name)
{
  REQUIRE(object(v));
  T x = old, y = old;
  bool rx = false, ry = false;
  try
  {
    json_marshal::childFromJson(v, x, name, df);
  }
  catch (const std::exception&)
  {
    rx = true;
  }
  try
  {
    json_marshal::childFromJson(v, y, name);
  }
  catch (const std::exception&)
  {
    ry = true;
  }
  if (v.isMember(name))
  {
    const Json::Value& c = v[name];
    ENSURE("with a default: an error exactly for a value of the wrong kind", rx != is(c, old));
    ENSURE("without a default: an error exactly for a value of the wrong kind", ry != is(c, old));
    if (!rx) ENSURE("with a default: the value of the field", x == of(c, old));
    if (!ry) ENSURE("without a default: the value of the field", y == of(c, old));
  }
  else
  {
    ENSURE("no error for an absent field with a default", !rx);
    ENSURE("the default", x == df);
    ENSURE("an error for an absent field without a default", ry);
  }
  if (ry) ENSURE("unchanged after an error", y == old);
}
LEMMA(L_field_bool, const Json::Value& v, bool old, bool df) { field(v, old, df, "a"); }
LEMMA(L_field_int, const Json::Value& v, int old, int df) { field(v, old, df, "b"); }
LEMMA(L_field_double, const Json::Value& v, double old, double df) { field(v, old, df, "c"); }
LEMMA(L_field_string, const Json::Value& v, const std::string& old, const std::string& df) { field(v, old, df, "d"); }
LEMMA(L_field_array, const Json::Value& v, const std::vector<double>& old, const std::vector<double>& df, std::size_t i)
{
  REQUIRE(object(v));
  std::vector<double> x = old;
  const double t = 0;
  bool raised = false;
  try
  {
    json_marshal::childFromJson(v, x, "a", df);
  }
  catch (const std::exception&)
  {
    raised = true;
  }
  if (v.isMember("a"))
  {
    const Json::Value& c = v["a"];
    ENSURE("an error exactly when this is no list of such values", raised != (list(c) && all(c, t)));
    if (!raised)
    {
      ENSURE("number of elements", x.size() == c.size());
      if (i < x.size()) ENSURE("element", x[i] == of(c[static_cast<Json::ArrayIndex>(i)], t));
    }
  }
  else
  {
    ENSURE("no error for an absent field", !raised);
    ENSURE("size of the default", x.size() == df.size());
    if (i < x.size()) ENSURE("element of the default", x[i] == df[i]);
  }
}
/// an object reads itself
class Settings
{
public:
  int a = 0;
  double b = 0;
  std::vector<double> c;
  void fromJson(const Json::Value& v)
  {
    json_marshal::childFromJson(v, a, "a");
    json_marshal::childFromJson(v, b, "b", 0.5);
  }
};
LEMMA(L_object, const Json::Value& v, int olda, double oldb)
{
  REQUIRE(object(v));
  Settings s;
  s.a = olda;
  s.b = oldb;
  s.c.push_back(oldb);
  bool raised = false;
  try
  {
    json_marshal::fromJson(v, s);
  }
  catch (const std::exception&)
  {
    raised = true;
  }
  const bool fine = v.isMember("a") && is(v["a"], olda) && (!v.isMember("b") || is(v["b"], oldb));
  ENSURE("an error exactly when a field is missing or of the wrong kind", raised != fine);
  if (!raised)
  {
    ENSURE("first field", s.a == v["a"].asInt());
    ENSURE("second field", s.b == (v.isMember("b") ? v["b"].asDouble() : 0.5));
  }
  ENSURE("other members untouched", s.c.size() == 1 && s.c[0] == oldb);
}
}  // namespace json_lemmas
#ifndef VERIF_STATIC
#include "replay_main.inc"
#endif
