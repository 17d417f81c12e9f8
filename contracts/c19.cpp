// C19: messages between the library and the external QP solver process
#include "spec.h"
#ifdef VERIF_STATIC
#include <cstddef>
#include <sys/types.h>
// the operating system: accepts or delivers any part of what is asked for, or fails
namespace bpmpd_io
{
inline std::size_t done = 0, total = 0;
inline const char* base = nullptr;
inline bool ended = false;
inline ssize_t some(const char* p, std::size_t n)
{
  ssize_t k = 0;
  spec::arbitrary(k);
  REQUIRE(k <= static_cast<ssize_t>(n));
  ENSURE("continues where the last piece ended", p == base + done);
  ENSURE("asks for the rest", n == total - done);
  if (k > 0) done += static_cast<std::size_t>(k);
  return k;
}
bool all_read();      // nothing is left in the pipe
inline ssize_t write(int, const void* p, std::size_t n) { return some(static_cast<const char*>(p), n); }
inline ssize_t read(int, void* p, std::size_t n) { return some(static_cast<const char*>(p), n); }
}
#endif
#include <trajopt_sco/bpmpd_io.hpp>
#ifndef VERIF_STATIC
#include <csignal>
#include <thread>
#include <sys/mman.h>
#include <sys/socket.h>
namespace spec { void begin_trial(Rng&) { signal(SIGPIPE, SIG_IGN); } }
#endif
namespace bpmpd_io_lemmas
{
using namespace bpmpd_io;
#ifdef VERIF_STATIC
inline void loop_writeAll(const char* pos, std::size_t size)
{
  INVARIANT("rest", size + done == total);
  INVARIANT("not beyond", done <= total);
  INVARIANT("position", pos == base + done);
}
inline void loop_readAll(const char* pos, std::size_t size)
{
  INVARIANT("rest", size + done == total);
  INVARIANT("not beyond", done <= total);
  INVARIANT("position", pos == base + done);
}
/// every byte is handed over, in order, in pieces of any size; anything else is an error
LEMMA(L_write_all, std::vector<char>& d)
{
  base = d.data();
  total = d.size();
  done = 0;
  bool raised = false;
  try
  {
    writeAll(3, d.data(), d.size());
  }
  catch (const std::exception&)
  {
    raised = true;
  }
  ENSURE("complete, or an error", raised || done == d.size());
}
LEMMA(L_read_all, std::vector<char>& d)
{
  base = d.data();
  total = d.size();
  done = 0;
  bool raised = false;
  try
  {
    readAll(3, d.data(), d.size());
  }
  catch (const std::exception&)
  {
    raised = true;
  }
  ENSURE("complete, or an error", raised || done == d.size());
}
/// what one end writes the other end reads, field by field; afterwards the pipe is empty
LEMMA(L_message_input, const bpmpd_input& x, const bpmpd_input& old, std::size_t i)
{
  bpmpd_input z = x, y = old;
  ser(3, z, SER);
  ser(4, y, DESER);
  ENSURE("everything is read", all_read());
  ENSURE("numbers", x.m == y.m && x.n == y.n && x.nz == y.nz && x.qn == y.qn && x.qnz == y.qnz);
  ENSURE("size of acolcnt", x.acolcnt.size() == y.acolcnt.size());
  if (i < x.acolcnt.size()) ENSURE("element of acolcnt", x.acolcnt[i] == y.acolcnt[i]);
  ENSURE("size of acolidx", x.acolidx.size() == y.acolidx.size());
  if (i < x.acolidx.size()) ENSURE("element of acolidx", x.acolidx[i] == y.acolidx[i]);
  ENSURE("size of acolnzs", x.acolnzs.size() == y.acolnzs.size());
  if (i < x.acolnzs.size()) ENSURE("element of acolnzs", x.acolnzs[i] == y.acolnzs[i]);
  ENSURE("size of qcolcnt", x.qcolcnt.size() == y.qcolcnt.size());
  if (i < x.qcolcnt.size()) ENSURE("element of qcolcnt", x.qcolcnt[i] == y.qcolcnt[i]);
  ENSURE("size of qcolidx", x.qcolidx.size() == y.qcolidx.size());
  if (i < x.qcolidx.size()) ENSURE("element of qcolidx", x.qcolidx[i] == y.qcolidx[i]);
  ENSURE("size of qcolnzs", x.qcolnzs.size() == y.qcolnzs.size());
  if (i < x.qcolnzs.size()) ENSURE("element of qcolnzs", x.qcolnzs[i] == y.qcolnzs[i]);
  ENSURE("size of rhs", x.rhs.size() == y.rhs.size());
  if (i < x.rhs.size()) ENSURE("element of rhs", x.rhs[i] == y.rhs[i]);
  ENSURE("size of obj", x.obj.size() == y.obj.size());
  if (i < x.obj.size()) ENSURE("element of obj", x.obj[i] == y.obj[i]);
  ENSURE("size of lbound", x.lbound.size() == y.lbound.size());
  if (i < x.lbound.size()) ENSURE("element of lbound", x.lbound[i] == y.lbound[i]);
  ENSURE("size of ubound", x.ubound.size() == y.ubound.size());
  if (i < x.ubound.size()) ENSURE("element of ubound", x.ubound[i] == y.ubound[i]);
  ENSURE("the sender keeps its numbers", x.m == z.m && x.n == z.n && x.nz == z.nz && x.qn == z.qn && x.qnz == z.qnz);
  ENSURE("sender: size of acolnzs", x.acolnzs.size() == z.acolnzs.size());
  if (i < x.acolnzs.size()) ENSURE("sender: element of acolnzs", x.acolnzs[i] == z.acolnzs[i]);
  ENSURE("sender: size of lbound", x.lbound.size() == z.lbound.size());
  if (i < x.lbound.size()) ENSURE("sender: element of lbound", x.lbound[i] == z.lbound[i]);
}
LEMMA(L_message_output, const bpmpd_output& x, const bpmpd_output& old, std::size_t i)
{
  bpmpd_output z = x, y = old;
  ser(3, z, SER);
  ser(4, y, DESER);
  ENSURE("everything is read", all_read());
  ENSURE("numbers", x.code == y.code && x.opt == y.opt);
  ENSURE("size of primal", x.primal.size() == y.primal.size());
  if (i < x.primal.size()) ENSURE("element of primal", x.primal[i] == y.primal[i]);
  ENSURE("size of dual", x.dual.size() == y.dual.size());
  if (i < x.dual.size()) ENSURE("element of dual", x.dual[i] == y.dual[i]);
  ENSURE("size of status", x.status.size() == y.status.size());
  if (i < x.status.size()) ENSURE("element of status", x.status[i] == y.status[i]);
}
#else
inline bpmpd_input input(const std::vector<int>& a, const std::vector<double>& d, int m, std::size_t grow)
{
  auto big = [&](std::vector<int> v, std::size_t k) { for (std::size_t i = 0; i < grow + (grow > 0 ? k : 0); ++i) v.push_back(static_cast<int>(i * 7 + k)); return v; };
  auto dbl = [&](std::vector<double> v, std::size_t k) { for (std::size_t i = 0; i < grow + (grow > 0 ? k : 0); ++i) v.push_back(0.5 * static_cast<double>(i) - static_cast<double>(k)); if (!v.empty()) v[0] += static_cast<double>(k); return v; };
  return { m, m + 1, m + 2, m + 3, m + 4, big(a, 1), big({ 5, 6 }, 2), dbl(d, 3), big({}, 4), big(a, 5), dbl({ 1, 2 }, 6), dbl(d, 7), dbl({}, 8), dbl(d, 9), dbl(d, 10) };
}
inline bool same(const bpmpd_input& x, const bpmpd_input& y)
{
  return x.m == y.m && x.n == y.n && x.nz == y.nz && x.qn == y.qn && x.qnz == y.qnz && x.acolcnt == y.acolcnt && x.acolidx == y.acolidx && x.acolnzs == y.acolnzs && x.qcolcnt == y.qcolcnt && x.qcolidx == y.qcolidx &&
         x.qcolnzs == y.qcolnzs && x.rhs == y.rhs && x.obj == y.obj && x.lbound == y.lbound && x.ubound == y.ubound;
}
inline bpmpd_output output(const std::vector<int>& a, const std::vector<double>& d, int code, double opt, std::size_t grow)
{
  std::vector<double> p = d, q = d;
  std::vector<int> s = a;
  if (!q.empty()) q[0] += 1;
  for (std::size_t i = 0; i < grow; ++i) { p.push_back(static_cast<double>(i)); q.push_back(-0.5 * static_cast<double>(i)); s.push_back(static_cast<int>(i % 2)); }
  q.push_back(3);
  return { p, q, s, code, opt };
}
inline bool same(const bpmpd_output& x, const bpmpd_output& y) { return x.primal == y.primal && x.dual == y.dual && x.status == y.status && x.code == y.code && x.opt == y.opt; }
struct Fds
{
  int r{ -1 }, w{ -1 };
  Fds() { int p[2]; if (pipe(p) != 0) throw std::runtime_error("pipe"); r = p[0]; w = p[1]; }
  ~Fds() { stop(); if (r >= 0) close(r); }
  void stop() { if (w >= 0) close(w); w = -1; }
};
/// the other end sends the bytes in pieces
template <class T> inline std::string bytes(T x)
{
  const int f = memfd_create("m", 0);
  ser(f, x, SER);
  std::string s(static_cast<std::size_t>(lseek(f, 0, SEEK_END)), '\0');
  lseek(f, 0, SEEK_SET);
  for (std::size_t k = 0; k < s.size();)
  {
    const ssize_t n = read(f, &s[k], s.size() - k);
    if (n <= 0) break;
    k += static_cast<std::size_t>(n);
  }
  close(f);
  return s;
}
inline void feed(int fd, const std::string& s, unsigned seed, std::size_t piece)
{
  std::mt19937 g(seed);
  for (std::size_t k = 0; k < s.size();)
  {
    const std::size_t n = std::min(s.size() - k, 1 + g() % piece);
    const ssize_t w = write(fd, s.data() + k, n);
    if (w <= 0) return;
    k += static_cast<std::size_t>(w);
    if (g() % 8 == 0) std::this_thread::yield();
  }
}
template <class T> inline void through(T x)
{
  Fds p;
  T y;
  std::thread t([&] { T c = x; ser(p.w, c, SER); });
  std::string err;
  try { ser(p.r, y, DESER); } catch (const std::exception& e) { err = e.what(); }
  if (!err.empty()) { close(p.r); p.r = -1; }
  t.join();
  ENSURE("read without error", err.empty());
  ENSURE("the same at the other end", same(x, y));
}
LEMMA(B_input, const std::vector<int>& a, const std::vector<double>& d, int m, bool grown) { through(input(a, d, m, grown ? 40 : 0)); }
LEMMA(B_output, const std::vector<int>& a, const std::vector<double>& d, int m, double opt, bool grown) { through(output(a, d, m, opt, grown ? 40 : 0)); }
/// larger than what a pipe holds
LEMMA(B_large, const std::vector<int>& a, const std::vector<double>& d, int m, double opt, std::size_t k)
{
  through(input(a, d, m, 9000 + 5000 * k));
  through(output(a, d, m, opt, 9000 + 20000 * k));
}
LEMMA(B_split, const std::vector<int>& a, const std::vector<double>& d, int m, double opt, unsigned seed, std::size_t piece)
{
  const std::size_t n = piece == 0 ? 3 : piece * piece * 10;
  {
    const bpmpd_input x = input(a, d, m, 60);
    bpmpd_input y;
    Fds p;
    const std::string s = bytes(x);
    std::thread t([&] { feed(p.w, s, seed, n); });
    std::string err;
    try { ser(p.r, y, DESER); } catch (const std::exception& e) { err = e.what(); }
    if (!err.empty()) { close(p.r); p.r = -1; }
    t.join();
    ENSURE("input read in pieces", err.empty() && same(x, y));
  }
  {
    const bpmpd_output x = output(a, d, m, opt, 60);
    bpmpd_output y;
    Fds p;
    const std::string s = bytes(x);
    std::thread t([&] { feed(p.w, s, seed, n); });
    std::string err;
    try { ser(p.r, y, DESER); } catch (const std::exception& e) { err = e.what(); }
    if (!err.empty()) { close(p.r); p.r = -1; }
    t.join();
    ENSURE("result read in pieces", err.empty() && same(x, y));
  }
}
/// a stream that ends early
LEMMA(B_short, const std::vector<int>& a, const std::vector<double>& d, int m, double opt, unsigned seed, bool in)
{
  const std::string s = in ? bytes(input(a, d, m, 5)) : bytes(output(a, d, m, opt, 5));
  std::mt19937 g(seed * 31 + static_cast<unsigned>(a.size()) * 7 + static_cast<unsigned>(m));
  for (int k = 0; k < 20; ++k)
  {
    Fds p;
    const std::size_t n = k == 0 ? s.size() - 1 : k == 1 ? 0 : g() % s.size();
    feed(p.w, s.substr(0, n), seed, 64);
    p.stop();
    bool reported = false;
    bpmpd_input x;
    bpmpd_output y;
    try { if (in) ser(p.r, x, DESER); else ser(p.r, y, DESER); } catch (const std::exception&) { reported = true; }
    ENSURE("an early end is reported", reported);
  }
  Fds p;
  close(p.r);
  p.r = -1;
  bool reported = false;
  bpmpd_output y = output(a, d, m, opt, 5);
  try { ser(p.w, y, SER); } catch (const std::exception&) { reported = true; }
  ENSURE("a reader that is gone is reported", reported);
}
#endif
}  // namespace bpmpd_io_lemmas
#ifndef VERIF_STATIC
#include "replay_main.inc"
#endif
