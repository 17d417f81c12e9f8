// C08: the cache
#include "spec.h"
#include <trajopt_common/cache.h>
#ifndef VERIF_STATIC
#include <limits>
#include <map>
#include <set>
namespace spec { void begin_trial(Rng&) {} }
#endif
namespace trajopt_common_lemmas
{
using trajopt_common::Cache;
class Item
{
public:
  int stamp = 0;
};
using C = Cache<int, Item>;
}
#ifndef VERIF_STATIC
namespace spec
{
/// some cache after some operations
template <> struct Gen<trajopt_common_lemmas::C>
{
  static trajopt_common_lemmas::C make(Rng& r)
  {
    trajopt_common_lemmas::C c(static_cast<std::size_t>(r.i(0, 4)));
    std::vector<trajopt_common_lemmas::C::Ptr> held, seen;
    for (int n = r.i(0, 14); n > 0; --n)
    {
      const int key = r.i(0, 5);
      const int op = r.i(0, 9);
      if (op < 4)
      {
        auto p = c.getOrAcquire(key);
        if (!p.second) held.push_back(p.first);
        if (!p.second && r.b()) { c.put(key, p.first); held.pop_back(); }
        seen.push_back(p.first);
      }
      else if (op < 6 && !held.empty()) { c.put(key, held.back()); held.pop_back(); }
      else if (op == 6 && !seen.empty()) c.put(key, seen[static_cast<std::size_t>(r.i(0, static_cast<int>(seen.size()) - 1))]);
      else if (op == 7) c.erase(key);
      else c.get(key);
    }
    return c;
  }
};
}
#endif
namespace trajopt_common_lemmas
{
// the list of assigned slots: membership and order
#ifdef VERIF_STATIC
bool inside(const std::list<std::size_t>& l, std::size_t s);
bool newer(const std::list<std::size_t>& l, std::size_t a, std::size_t b);
#else
inline bool inside(const std::list<std::size_t>& l, std::size_t s) { return std::find(l.begin(), l.end(), s) != l.end(); }
inline bool newer(const std::list<std::size_t>& l, std::size_t a, std::size_t b)
{
  for (std::size_t x : l)
  {
    if (x == b) return false;
    if (x == a) return true;
  }
  return false;
}
#endif
inline bool extents(const C& c)
{
  return c.capacity_ > 0 && c.capacity_ < static_cast<std::size_t>(-1) && c.pool_.size() == c.capacity_ && c.slot_key_.size() == c.capacity_ && c.assigned_.size() == c.capacity_ && c.checked_out_.size() == c.capacity_ && c.slot_it_.size() == c.capacity_;
}
/// the free list holds slots
inline bool slots(const C& c)
{
  bool r = true;
  for (std::size_t i = 0; i < c.free_slots_.size(); ++i)
    if (r && c.free_slots_[i] >= c.capacity_) r = false;
  return r;
}
/// every object of the pool is there and known by its address
inline bool pool(const C& c)
{
  bool r = true;
  for (std::size_t i = 0; i < c.pool_.size(); ++i)
    if (r && (c.pool_[i] == nullptr || c.ptr_to_slot_.count(c.pool_[i].get()) == 0 || c.ptr_to_slot_.at(c.pool_[i].get()) != i)) r = false;
  return r;
}
inline bool has(const C& c, int k) { return c.key_to_slot_.count(k) != 0; }
inline std::size_t slot_of(const C& c, int k) { return c.key_to_slot_.at(k); }
// the representation invariant, at one slot, one key and one object
inline bool slot_ok(const C& c, std::size_t s)
{
  if (s >= c.capacity_) return !inside(c.lru_, s);
  bool r = c.pool_[s] != nullptr && c.ptr_to_slot_.count(c.pool_[s].get()) == 1 && c.ptr_to_slot_.at(c.pool_[s].get()) == s;
  if (inside(c.lru_, s)) r = r && c.assigned_[s];
  if (c.assigned_[s]) r = r && has(c, c.slot_key_[s]) && slot_of(c, c.slot_key_[s]) == s && inside(c.lru_, s) && *c.slot_it_[s] == s && !c.checked_out_[s];
  return r;
}
inline bool key_ok(const C& c, int k)
{
  if (!has(c, k)) return true;
  const std::size_t s = slot_of(c, k);
  return s < c.capacity_ && c.assigned_[s] && c.slot_key_[s] == k;
}
inline bool pointer_ok(const C& c, const C::Ptr& p)
{
  if (c.ptr_to_slot_.count(p.get()) == 0) return true;
  const std::size_t s = c.ptr_to_slot_.at(p.get());
  return s < c.capacity_ && c.pool_[s] == p;
}
/// a slot that is neither assigned nor handed out
inline bool unused(const C& c, std::size_t s) { return s < c.capacity_ && !c.assigned_[s] && !c.checked_out_[s]; }
/// it is in the free list, at place w
inline bool listed(const C& c, std::size_t s, std::size_t w) { return !unused(c, s) || (w < c.free_slots_.size() && c.free_slots_[w] == s); }
/// what is stored for a key
inline C::Ptr stored(const C& c, int k)
{
  if (!has(c, k)) return C::Ptr();
  return c.pool_[slot_of(c, k)];
}
LEMMA(L_get, C& c, int k, int q, std::size_t s, std::size_t w, std::size_t a, std::size_t b)
{
  REQUIRE(extents(c) && slots(c) && key_ok(c, k) && key_ok(c, q) && slot_ok(c, s) && slot_ok(c, a) && slot_ok(c, b) && listed(c, s, w));
  if (has(c, k)) REQUIRE(slot_ok(c, slot_of(c, k)));
  const C::Ptr of_k = stored(c, k), of_q = stored(c, q);
  const bool order = newer(c.lru_, a, b);
  const C::Ptr p = c.get(k);
  ENSURE("exactly what was stored, or nothing", p == of_k);
  ENSURE("nothing else changes", stored(c, q) == of_q);
  if (has(c, k))
  {
    const std::size_t t = slot_of(c, k);
    if (inside(c.lru_, a) && a != t) ENSURE("it is the one used last", newer(c.lru_, t, a));
    if (inside(c.lru_, a) && inside(c.lru_, b) && a != b && a != t && b != t) ENSURE("the order of the others is the same", newer(c.lru_, a, b) == order);
  }
  ENSURE("invariant", extents(c) && key_ok(c, q) && slot_ok(c, s) && listed(c, s, w));
}
LEMMA(L_erase, C& c, int k, int q, std::size_t s, std::size_t w, std::size_t a, std::size_t b)
{
  REQUIRE(extents(c) && slots(c) && key_ok(c, k) && key_ok(c, q) && slot_ok(c, s) && slot_ok(c, a) && slot_ok(c, b) && listed(c, s, w));
  if (has(c, k)) REQUIRE(slot_ok(c, slot_of(c, k)));
  const C::Ptr of_q = stored(c, q);
  const bool order = newer(c.lru_, a, b), found = has(c, k);
  const std::size_t n = c.size(), m = c.free_slots_.size();
  c.erase(k);
  ENSURE("the entry is gone", !has(c, k) && c.get(k) == nullptr);
  if (q != k) ENSURE("nothing else changes", stored(c, q) == of_q);
  ENSURE_EQI("number of entries", c.size(), found ? n - 1 : n);
  if (inside(c.lru_, a) && inside(c.lru_, b) && a != b) ENSURE("the order of the others is the same", newer(c.lru_, a, b) == order);
  ENSURE("invariant", extents(c) && slots(c) && key_ok(c, q) && slot_ok(c, s) && (listed(c, s, w) || listed(c, s, m)));
}
/// an object of the pool is stored under a key
LEMMA(L_put, C& c, int k, std::size_t t, int q, std::size_t s, std::size_t w, std::size_t a, std::size_t b)
{
  REQUIRE(extents(c) && slots(c) && t < c.capacity_ && key_ok(c, k) && key_ok(c, q) && slot_ok(c, t) && slot_ok(c, s) && slot_ok(c, a) && slot_ok(c, b) && listed(c, s, w));
  if (has(c, k)) REQUIRE(slot_ok(c, slot_of(c, k)));
  if (c.assigned_[t]) REQUIRE(key_ok(c, c.slot_key_[t]));
  REQUIRE(s == t || s >= c.capacity_ || c.pool_[s] != c.pool_[t]);
  const C::Ptr p = c.pool_[t], of_q = stored(c, q);
  const bool order = newer(c.lru_, a, b), of_q_is_p = has(c, q) && slot_of(c, q) == t;
  const std::size_t m = c.free_slots_.size();
  const bool put = c.put(k, p);
  ENSURE("accepted", put);
  ENSURE("what was stored", has(c, k) && stored(c, k) == p);
  if (q != k && !of_q_is_p) ENSURE("the others are as before", stored(c, q) == of_q);
  if (q != k && of_q_is_p) ENSURE("no object belongs to two keys", !has(c, q));
  ENSURE("not handed out any more", !c.checked_out_[t]);
  if (inside(c.lru_, a) && a != t) ENSURE("it is the one used last", newer(c.lru_, t, a));
  if (inside(c.lru_, a) && inside(c.lru_, b) && a != b && a != t && b != t) ENSURE("the order of the others is the same", newer(c.lru_, a, b) == order);
  ENSURE("invariant", extents(c) && key_ok(c, q) && key_ok(c, k) && slot_ok(c, s));
  ENSURE("unused slots stay listed", listed(c, s, w) || (w > 0 && listed(c, s, w - 1)) || listed(c, s, m) || (m > 0 && listed(c, s, m - 1)));
}
LEMMA(L_put_null, C& c, int k, int q)
{
  REQUIRE(extents(c) && key_ok(c, q));
  const C::Ptr of_q = stored(c, q);
  ENSURE("refused", !c.put(k, C::Ptr()));
  ENSURE("nothing changes", stored(c, q) == of_q);
}
LEMMA(L_acquire_hit, C& c, int k, int q, std::size_t s, std::size_t w, std::size_t a, std::size_t b)
{
  REQUIRE(extents(c) && slots(c) && key_ok(c, k) && key_ok(c, q) && slot_ok(c, s) && slot_ok(c, a) && slot_ok(c, b) && listed(c, s, w));
  REQUIRE(has(c, k) && slot_ok(c, slot_of(c, k)));
  const C::Ptr of_k = stored(c, k), of_q = stored(c, q);
  const bool order = newer(c.lru_, a, b);
  const C::AcquireResult r = c.getOrAcquire(k);
  ENSURE("exactly what was stored", r.second && r.first == of_k);
  ENSURE("nothing else changes", stored(c, q) == of_q && stored(c, k) == of_k);
  const std::size_t t = slot_of(c, k);
  if (inside(c.lru_, a) && a != t) ENSURE("it is the one used last", newer(c.lru_, t, a));
  if (inside(c.lru_, a) && inside(c.lru_, b) && a != b && a != t && b != t) ENSURE("the order of the others is the same", newer(c.lru_, a, b) == order);
  ENSURE("invariant", extents(c) && key_ok(c, q) && slot_ok(c, s) && listed(c, s, w));
}
/// a miss while something can be evicted
LEMMA(L_acquire, C& c, int k, int q, std::size_t s, std::size_t w, std::size_t u, std::size_t uw, std::size_t a, std::size_t b)
{
  REQUIRE(extents(c) && slots(c) && !has(c, k) && key_ok(c, q) && slot_ok(c, s) && slot_ok(c, a) && slot_ok(c, b) && slot_ok(c, u) && listed(c, s, w) && listed(c, u, uw));
  REQUIRE(c.lru_.size() > 0 && pool(c));
  const std::size_t old = c.lru_.back();
  REQUIRE(slot_ok(c, old) && key_ok(c, c.slot_key_[old]));
  if (has(c, q)) REQUIRE(slot_ok(c, slot_of(c, q)));
  const C::Ptr of_q = stored(c, q);
  const bool free = unused(c, u), had = has(c, q), out = s < c.capacity_ && c.checked_out_[s];
  const std::size_t t = had ? slot_of(c, q) : 0, m = c.free_slots_.size();
  const C::AcquireResult r = c.getOrAcquire(k);
  ENSURE("not found, but an object is handed out", !r.second && r.first != nullptr);
  if (free) ENSURE("nothing is evicted while an unassigned slot exists", has(c, q) == had && stored(c, q) == of_q);
  if (has(c, q)) ENSURE("what stays is unchanged", had && stored(c, q) == of_q);
  if (had && !has(c, q)) ENSURE("the least recently used entry is evicted", t == old);
  if (has(c, q)) ENSURE("the object handed out belongs to no key", stored(c, q) != r.first);
  if (out) ENSURE("it was not handed out before", c.pool_[s] != r.first && c.checked_out_[s]);
  if (s < c.capacity_ && c.pool_[s] == r.first) ENSURE("it is marked as handed out", c.checked_out_[s]);
  ENSURE("invariant", extents(c) && key_ok(c, q) && key_ok(c, k) && slot_ok(c, s));
  ENSURE("unused slots stay listed", listed(c, s, w) || listed(c, s, m));
}
/// a miss while nothing is stored: the pool grows if every object is handed out
LEMMA(L_acquire_grow, C& c, int k, std::size_t s, std::size_t w, std::size_t u, std::size_t uw)
{
  REQUIRE(extents(c) && slots(c) && pool(c) && slot_ok(c, s) && slot_ok(c, u) && listed(c, s, w) && listed(c, u, uw));
  REQUIRE(c.lru_.empty() && !has(c, k) && c.capacity_ < std::numeric_limits<std::size_t>::max() / 4);
  const bool free = unused(c, u), out = s < c.capacity_ && c.checked_out_[s];
  const std::size_t n = c.capacity_;
  const C::AcquireResult r = c.getOrAcquire(k);
  ENSURE("not found, but an object is handed out", !r.second && r.first != nullptr);
  if (free) ENSURE("the pool grows only when every object is handed out", c.capacity_ == n);
  ENSURE("it never shrinks", c.capacity_ >= n);
  if (out) ENSURE("it was not handed out before", c.pool_[s] != r.first && c.checked_out_[s]);
  if (s < c.capacity_ && c.pool_[s] == r.first) ENSURE("it is marked as handed out", c.checked_out_[s]);
  ENSURE("invariant", extents(c) && slot_ok(c, s));
}
/// a new cache
LEMMA(L_new, std::size_t n, int k, std::size_t s)
{
  REQUIRE(n < std::numeric_limits<std::size_t>::max() - 1);
  C c(n);
  ENSURE_EQI("capacity", c.capacity(), n == 0 ? 1 : n);
  ENSURE_EQI("no entries", c.size(), 0);
  ENSURE("nothing stored", c.get(k) == nullptr);
  ENSURE("invariant", extents(c) && slots(c) && pool(c) && slot_ok(c, s));
  ENSURE("every slot is free", s >= c.capacity_ || unused(c, s));
}
#ifndef VERIF_STATIC
/// the reference: which object every key has, which objects are handed out, what was used last
struct Reference
{
  std::map<int, int*> of;            // key -> object
  std::vector<int> used;             // keys, least recently used first
  std::set<int*> out;                // handed out for writing
  std::set<int*> pool;               // every object seen
  std::map<int*, int> content;
  std::size_t capacity;
  void touch(int k) { used.erase(std::remove(used.begin(), used.end(), k), used.end()); used.push_back(k); }
  void drop(int k) { of.erase(k); used.erase(std::remove(used.begin(), used.end(), k), used.end()); }
  int owner(int* p) const { for (const auto& e : of) if (e.second == p) return e.first; return -1; }
};
struct Worse { std::size_t operator()(int k) const { return static_cast<std::size_t>(k % 2); } };
template <class C> void history(const std::vector<int>& ops, std::size_t capacity)
{
  C c(capacity);
  using Ptr = typename C::Ptr;
  Reference g;
  g.capacity = capacity == 0 ? 1 : capacity;
  ENSURE("starts empty with the capacity asked for", c.size() == 0 && c.capacity() == g.capacity);
  std::vector<Ptr> held, seen;       // handed out; every object ever returned
  std::size_t k = 0;
  auto next = [&](int n) { return n <= 0 || k >= ops.size() ? 0 : ops[k++] % n; };
  int stamp = 0;
  while (k < ops.size())
  {
    const int op = next(12);
    const int key = next(static_cast<int>(g.capacity) + 3);
    if (op <= 2)
    {
      const Ptr p = c.get(key);
      auto it = g.of.find(key);
      ENSURE("get: exactly what was stored", it == g.of.end() ? p == nullptr : p.get() == it->second);
      if (p) { ENSURE_EQI("get: its content", *p, g.content[p.get()]); g.touch(key); }
    }
    else if (op <= 6)
    {
      const auto [p, hit] = c.getOrAcquire(key);
      auto it = g.of.find(key);
      ENSURE("acquire: found exactly when stored", hit == (it != g.of.end()) && p != nullptr);
      if (hit)
      {
        ENSURE("acquire: exactly what was stored", p.get() == it->second);
        g.touch(key);
      }
      else
      {
        ENSURE("acquire: not handed out twice", g.out.count(p.get()) == 0);
        if (g.of.size() + g.out.size() < g.capacity)
        {
          ENSURE("acquire: nothing is evicted while there is room", g.owner(p.get()) < 0 && c.size() == g.of.size());
          ENSURE("acquire: no growth while there is room", c.capacity() == g.capacity);
        }
        else if (!g.of.empty())
        {
          ENSURE("acquire: the least recently used entry is evicted", g.owner(p.get()) == g.used.front());
          g.drop(g.used.front());
          ENSURE("acquire: only that one", c.size() == g.of.size());
          ENSURE("acquire: no growth while an entry can be evicted", c.capacity() == g.capacity);
        }
        else
        {
          ENSURE("acquire: the pool grows when everything is handed out", c.capacity() > g.capacity);
          g.capacity = c.capacity();
        }
        g.out.insert(p.get());
        g.pool.insert(p.get());
        ENSURE("no more objects than the capacity", g.pool.size() <= g.capacity);
        held.push_back(p);
        seen.push_back(p);
      }
    }
    else if (op <= 9 && !held.empty())
    {
      const std::size_t i = static_cast<std::size_t>(next(static_cast<int>(held.size())));
      const Ptr p = held[i];
      *p = ++stamp;
      g.content[p.get()] = stamp;
      ENSURE("put: accepted", c.put(key, p));
      if (g.of.count(key) != 0 && g.of[key] != p.get()) g.drop(key);
      held.erase(held.begin() + static_cast<long>(i));
      g.out.erase(p.get());
      g.of[key] = p.get();
      g.touch(key);
    }
    else if (op == 10 && !seen.empty())
    {
      // an object returned earlier is stored again, perhaps under another key
      const Ptr p = seen[static_cast<std::size_t>(next(static_cast<int>(seen.size())))];
      *p = ++stamp;
      g.content[p.get()] = stamp;
      ENSURE("put again: accepted", c.put(key, p));
      const int o = g.owner(p.get());
      if (g.of.count(key) != 0 && g.of[key] != p.get()) g.drop(key);
      if (o >= 0 && o != key) g.drop(o);
      held.erase(std::remove(held.begin(), held.end(), p), held.end());
      g.out.erase(p.get());
      g.of[key] = p.get();
      g.touch(key);
    }
    else if (op == 11)
    {
      c.erase(key);
      if (g.of.count(key) != 0) g.drop(key);
    }
    ENSURE("number of entries", c.size() == g.of.size());
    ENSURE("null is not accepted", !c.put(key, Ptr{}));
    if (ops.size() % 3 == 0)
    {
      // looked at in the order of their last use, so that the order stays
      for (const int u : std::vector<int>(g.used)) { const Ptr p = c.get(u); ENSURE("every entry is the one stored last", p.get() == g.of[u] && *p == g.content[p.get()]); }
    }
  }
  std::set<int*> different;
  for (const auto& e : g.of)
  {
    const Ptr p = c.get(e.first);
    ENSURE("every entry is there at the end", p.get() == e.second && *p == g.content[e.second]);
    ENSURE("no object belongs to two keys", different.insert(p.get()).second);
  }
  for (int u = 0; u < static_cast<int>(g.capacity) + 3; ++u) ENSURE("no other entries", g.of.count(u) != 0 || c.get(u) == nullptr);
}
inline std::vector<int> script(const std::vector<int>& a, const std::vector<int>& b, const std::vector<int>& c, std::size_t n)
{
  std::vector<unsigned> s;
  for (const auto* v : { &a, &b, &c })
  {
    for (int x : *v) s.push_back(static_cast<unsigned>(x + 5));
    s.push_back(99);
  }
  std::seed_seq q(s.begin(), s.end());
  std::mt19937 g(q);
  std::vector<int> ops;
  for (std::size_t i = g() % n; i < n; ++i) ops.push_back(static_cast<int>(g() % 10000));
  return ops;
}
LEMMA(B_history, const std::vector<int>& a, const std::vector<int>& b, const std::vector<int>& c, std::size_t capacity) { history<Cache<int, int>>(script(a, b, c, 200), capacity); }
LEMMA(B_long_history, const std::vector<int>& a, const std::vector<int>& b, const std::vector<int>& c, std::size_t capacity) { history<Cache<int, int>>(script(a, b, c, 900), capacity); }
/// keys with the same hash value
LEMMA(B_colliding_keys, const std::vector<int>& a, const std::vector<int>& b, const std::vector<int>& c, std::size_t capacity) { history<Cache<int, int, Worse>>(script(a, b, c, 200), capacity); }
#endif
}  // namespace trajopt_common_lemmas
#ifndef VERIF_STATIC
#include "replay_main.inc"
#endif
