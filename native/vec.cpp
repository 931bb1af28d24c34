// Directed search: bit_vector against a sequence of chars, random histories.  Usage: vec OP SEED SECONDS
#include <cstdint>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <sstream>
#include <vector>
#include <random>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include "bitlib/bitlib.hpp"
typedef WORD W;
constexpr int D = sizeof(W) * 8;
typedef long long ll;
typedef bit::bit_vector<W> V;
typedef std::vector<char> S;
static std::mt19937_64 rng;
static std::string hist; static int dead;
static void show(const char* what) {
  std::string h = hist.size() > 1500 ? "..." + hist.substr(hist.size() - 1500) : hist;
  std::string o = std::string("FAIL ") + what + " D=" + std::to_string(D) + " history:" + h + "\n";
  if (write(1, o.data(), o.size())) {}
}
static void onsig(int s) { if (dead) _exit(1); dead = 1; show(s == SIGALRM ? "does-not-terminate" : s == SIGABRT ? "abort(assertion-or-sanitizer)" : "crash"); _exit(1); }
#define CHECK(c, w) do { if (!(c)) { show(w); exit(1); } } while (0)
static void note(const char* f, ll a = -1, ll b = -1, ll c = -1) {
  char t[160]; int n = snprintf(t, sizeof t, " %s(", f); if (a >= 0) n += snprintf(t + n, 40, "%lld", a); if (b >= 0) n += snprintf(t + n, 40, ",%lld", b); if (c >= 0) n += snprintf(t + n, 40, ",%lld", c);
  hist += t; hist += ')';
}
static ll off(V& v, typename V::iterator i) { return i - v.begin(); }
static std::string text(const S& s) { std::string t; for (size_t i = 0; i < s.size(); ++i) { if (i && i % D == 0) t += ' '; else if (i && i % 8 == 0) t += '.'; t += s[i] ? '1' : '0'; } return t; }
static void same(V& v, const S& s, const char* what) {
  CHECK(v.size() == s.size() && v.empty() == s.empty(), what);
  CHECK(v.capacity() >= s.size(), "capacity smaller than size");
  for (size_t i = 0; i < s.size(); ++i) CHECK((v[i] == bit::bit1) == !!s[i], what);
}
static void observe(V& v, const S& s) {
  const V& c = v; size_t i = 0;
  CHECK(v.end() - v.begin() == (ll)s.size(), "end() - begin()");
  for (auto b : v) { CHECK((b == bit::bit1) == !!s[i], "iteration"); ++i; }
  CHECK(i == s.size(), "iteration length");
#ifndef NOCONST
  for (i = 0; i < s.size(); ++i) CHECK((c[i] == bit::bit1) == !!s[i] && (c.at(i) == bit::bit1) == !!s[i] && (v.at(i) == bit::bit1) == !!s[i], "const access");
  i = 0; for (auto b : c) { CHECK((b == bit::bit1) == !!s[i], "const iteration"); ++i; }
  CHECK(i == s.size() && c.cend() - c.cbegin() == (ll)i && c.end() - c.begin() == (ll)i, "const iteration length");
  if (s.size()) CHECK((c.front() == bit::bit1) == !!s[0] && (c.back() == bit::bit1) == !!s.back(), "const front/back");
  for (size_t p : {s.size(), s.size() + 1, s.size() + D, (size_t)-1}) { bool t = false; try { c.at(p); } catch (const std::out_of_range&) { t = true; } CHECK(t, "const at() must throw"); }
  CHECK(v.debug_string(v.cbegin(), v.cend()) == text(s), "debug_string(range)");
#endif
  for (size_t p : {s.size(), s.size() + 1, s.size() + D, (size_t)-1}) { bool t = false; try { v.at(p); } catch (const std::out_of_range&) { t = true; } CHECK(t, "at() must throw"); }
  if (s.size()) CHECK((v.front() == bit::bit1) == !!s[0] && (v.back() == bit::bit1) == !!s.back(), "front/back");
  if (s.size()) for (i = 0; i < s.size(); ++i) CHECK((v.data()[i / D] >> (i % D) & 1) == (W)s[i] && (c.data()[i / D] >> (i % D) & 1) == (W)s[i], "data");
  std::string t = v.debug_string(); CHECK(t == text(s), "debug_string");
  V back{std::string_view(t)}; same(back, s, "parsing the rendered text");
}
static S rnd(size_t n) { S s(n); int m = rng() % 3; for (auto& c : s) c = m == 0 ? rng() & 1 : m == 1; return s; }
static size_t len() { int k = rng() % 6; size_t m = k == 0 ? 3 : k == 1 ? D : k == 2 ? 2 * D + 2 : k == 3 ? 5 * D : k == 4 ? 40 * D : 9; size_t n = rng() % (m + 1); return rng() % 4 ? n : n / D * D + (rng() % 3 == 0 ? 1 : 0); }
static V build(S& s) {
  int k = rng() % 9;
  if (k == 0) { size_t n = len(); note("count", n); s.assign(n, 0); return V(n); }
  if (k == 1) { size_t n = len(); bool b = rng() & 1; note("count_value", n, b); s.assign(n, b); return V(n, bit::bit_value(b)); }
  if (k == 2) { S a = rnd(len() + 3 * D); size_t o = rng() % (2 * D), n = rng() % (a.size() - o + 1); std::vector<W> w(a.size() / D + 1); for (size_t i = 0; i < a.size(); ++i) if (a[i]) w[i / D] |= W(1) << (i % D);
    note("bit_range", o, n); s.assign(a.begin() + o, a.begin() + o + n); bit::bit_iterator<typename std::vector<W>::iterator> f(w.begin()); return V(f + o, f + (o + n)); }
  if (k == 3) { s = rnd(len()); std::vector<bool> b(s.begin(), s.end()); note("bools", s.size()); return V(b.begin(), b.end()); }
  if (k == 4) { size_t n = rng() % 5; std::vector<W> w(n); for (auto& x : w) x = rng(); s.resize(n * D); for (size_t i = 0; i < s.size(); ++i) s[i] = w[i / D] >> (i % D) & 1; note("words", n); return V(w.begin(), w.end()); }
  if (k == 5) { s = rnd(len()); std::string t; for (char c : s) { while (rng() % 5 == 0) t += (char)"23 .x/:\0-"[rng() % 9]; t += c ? '1' : '0'; } note("string", s.size()); return V(std::string_view(t)); }
  if (k == 6) { s = {1, 0, 1, 1, 0}; note("list<bool>"); return V({true, false, true, true, false}); }
#ifndef NOCONST
  if (k == 7) { s = {1, 0, 0, 1}; note("list<bit_value>"); return V({bit::bit1, bit::bit0, bit::bit0, bit::bit1}); }
#endif
  note("list<word>"); W a = rng(), b = rng(); s.resize(2 * D); for (int i = 0; i < D; ++i) { s[i] = a >> i & 1; s[i + D] = b >> i & 1; } return V({a, b});
}
static void step(V& v, S& s) {
  size_t n = s.size(), p = n ? rng() % (n + 1) : 0, c = len(), q = n ? rng() % n : 0; bool b = rng() & 1; bit::bit_value B(b);
  if (rng() % 4 == 0) p = n; if (rng() % 4 == 0) { p = p / D * D; q = q / D * D; }
  switch (rng() % 18) {
    case 0: case 1: note("push_back", b); v.push_back(B); s.push_back(b); break;
    case 2: case 3: if (n) { note("pop_back"); v.pop_back(); s.pop_back(); } break;
    case 4: { note("insert", p, b); auto r = v.insert(v.cbegin() + p, B); s.insert(s.begin() + p, b); CHECK(off(v, r) == (ll)p, "iterator of insert(pos,value)"); break; }
    case 5: { note("insert_n", p, c, b); auto r = v.insert(v.cbegin() + p, c, B); s.insert(s.begin() + p, c, b); CHECK(off(v, r) == (ll)p, "iterator of insert(pos,n,value)"); break; }
    case 6: { S a = rnd(c + D); size_t o = rng() % D, m = rng() % (c + 1); std::vector<W> w(a.size() / D + 1); for (size_t i = 0; i < a.size(); ++i) if (a[i]) w[i / D] |= W(1) << (i % D);
      typename V::iterator f(w.begin()); note("insert_range", p, o, m); auto r = v.insert(v.cbegin() + p, f + o, f + (o + m)); s.insert(s.begin() + p, a.begin() + o, a.begin() + o + m); CHECK(off(v, r) == (ll)p, "iterator of insert(pos,range)"); break; }
    case 7: case 8: if (n) { note("erase", q); auto r = v.erase(v.begin() + q); s.erase(s.begin() + q); CHECK(off(v, r) == (ll)q, "iterator of erase(pos)"); } break;
    case 9: { size_t e = q + rng() % (n - q + 1); if (!n) break; if (rng() % 3 == 0) e = n; note("erase_range", q, e); auto r = v.erase(v.begin() + q, v.begin() + e); s.erase(s.begin() + q, s.begin() + e); CHECK(off(v, r) == (ll)q, "iterator of erase(range)"); break; }
    case 10: case 11: if (rng() & 1) c = n + rng() % 9; note("resize", c); v.resize(c); s.resize(c); break;
    case 12: if (rng() & 1) c = n + rng() % (3 * D); note("resize_value", c, b); v.resize(c, B); s.resize(c, b); break;
    case 13: if (rng() % 4 == 0) { note("clear"); v.clear(); s.clear(); } break;
    case 14: if (n) { note("set", q, b); if (b) v[q] = B; else v.at(q) = B; s[q] = b; if (rng() & 1) { v.front() = B; v.back() = B; s[0] = s[n - 1] = b; } } break;
    case 15: { note("copy/move"); V x(v); V y(std::move(x)); V z; z = y; v.clear(); v = std::move(z); same(y, s, "copy"); 
#ifndef NOCONST
      V a(y, std::allocator<W>()); same(a, s, "allocator-extended copy");
#endif
      break; }
    case 16: note("reserve", c); v.reserve(c); CHECK(v.capacity() >= c, "capacity after reserve"); break;
    case 17: note("shrink_to_fit"); v.shrink_to_fit(); break;
  }
}
static void huge() {
  // counts beyond 2^24 (float), 2^32 (unsigned int) bits
  for (size_t n : {(size_t)(1 << 24) + 1, ((size_t)1 << 32) + 3, ((size_t)1 << 33) - 5}) {
    if (D != 64 && n > (1u << 30)) continue;
    hist.clear(); note("count_value", n, 1); V v(n, bit::bit1); CHECK(v.size() == n && v.capacity() >= n && v[n - 1] == bit::bit1, "huge count");
    note("insert_n", n, 2 * D, 0); v.insert(v.cend(), 2 * D, bit::bit0); CHECK(v.capacity() >= n + 2 * D && v[n - 1] == bit::bit1 && v[n] == bit::bit0 && v[n + 2 * D - 1] == bit::bit0, "huge insert");
    for (int i = 0; i < 2 * D; ++i) v[n + i] = bit::bit1; note("resize", n + 9 * D); v.resize(n + 9 * D); CHECK(v.capacity() >= n + 9 * D && v[n + 2 * D - 1] == bit::bit1 && v[n + 2 * D] == bit::bit0 && v[n + 9 * D - 1] == bit::bit0, "huge resize");
    note("erase_range", 1, n); v.erase(v.begin() + 1, v.begin() + n); CHECK(v.size() == 9 * D + 1 && v[0] == bit::bit1 && v[2 * D] == bit::bit1 && v[2 * D + 1] == bit::bit0, "huge erase");
    V r; hist.clear(); note("reserve", n); r.reserve(n); CHECK(r.capacity() >= n, "capacity after reserve");
  }
  if (D == 8) { size_t n = ((size_t)1 << 28) + 24; hist.clear(); note("count_value", n, 0); V v(n, bit::bit0); note("insert_n", n, 4, 1); v.insert(v.cend(), 4, bit::bit1); CHECK(v.capacity() >= n + 4 && v.size() == n + 4 && v[n + 3] == bit::bit1, "capacity smaller than size after insert"); 
    std::vector<W> w(3); bit::bit_iterator<typename std::vector<W>::iterator> f(w.begin()); V u(n, bit::bit0); hist.clear(); note("count_value", n, 0); note("insert_range", n, 4); u.insert(u.cend(), f, f + 4); CHECK(u.capacity() >= n + 4, "capacity smaller than size after insert"); }
  for (size_t n : {(size_t)-1, (size_t)-2, (size_t)0 - D}) { hist.clear(); hist = " reserve(2^64-" + std::to_string(-(ll)n) + ")"; V r; bool t = false; try { r.reserve(n); } catch (...) { t = true; } CHECK(t || r.capacity() >= n, "capacity after reserve"); }
}
static void streams() {
  for (int b = 0; b < 2; ++b) { std::ostringstream o; bit::bit_value x((bool)b); o << x; CHECK(o.str() == (b ? "1" : "0"), "operator<<(bit_value)"); }
  W w[3]; for (auto& y : w) y = rng() % 3 ? (W)rng() : rng() % 2 ? (W)-1 : 0;
  size_t n = rng() % 6; std::string t; for (size_t i = 0; i < n; ++i) t += "0123/.: \n\0ax\xff"[rng() % 6 ? rng() % 2 : rng() % 14];
  hist = " text:"; for (unsigned char c : t) hist += " " + std::to_string((int)c);
  for (int ref = 0; ref < 2; ++ref) {
    W z[3]; memcpy(z, w, sizeof w); size_t k = rng() % (3 * D); bit::bit_reference<W> r(z[k / D], k % D); bit::bit_value x((bool)(rng() & 1));
    { std::ostringstream o; o << r; CHECK(o.str() == ((w[k / D] >> (k % D) & 1) ? "1" : "0"), "operator<<(bit_reference)"); const W cw = z[k / D]; bit::bit_reference<const W> c(cw, k % D); std::ostringstream q; q << c; CHECK(q.str() == o.str(), "operator<<(bit_reference<const>)"); }
    bool skip = rng() & 1; std::istringstream is(t); if (!skip) is >> std::noskipws; size_t at = 0;
    for (int step = 0; step < 4; ++step) {
      bool old = ref ? (w[k / D] >> (k % D) & 1) : x == bit::bit1;
      if (is.good() && skip) while (at < t.size() && isspace((unsigned char)t[at])) ++at;
      bool was = is.good(), end = at == t.size(), got = was && !end && (t[at] == '0' || t[at] == '1');
      if (ref) is >> r; else is >> x;
      bool now = ref ? (z[k / D] >> (k % D) & 1) : x == bit::bit1;
      CHECK(now == (got ? t[at] == '1' : old), "operator>> value");
      if (ref) { if (now) w[k / D] |= (W)((W)1 << (k % D)); else w[k / D] &= (W)~((W)1 << (k % D)); CHECK(!memcmp(w, z, sizeof w), "operator>> changes other bits"); }
      CHECK(is.fail() == !got, "operator>> failbit");
      if (was && !got) CHECK(is.eof() == end, "operator>> eofbit");
      if (got) ++at; else break;
    }
    if (is.fail() && !is.eof()) { is.clear(); CHECK(at < t.size() && is.get() == (unsigned char)t[at], "operator>> consumes a character that is not 0 or 1"); }
    memcpy(w, z, sizeof w);
  }
}
static void render() {
  S s; V v = build(s); std::string t = v.debug_string(); CHECK(t == text(s), "debug_string");
  V back{std::string_view(t)}; same(back, s, "parsing the rendered text");
#ifndef NOCONST
  size_t a = rng() % (s.size() + 1), b = a + rng() % (s.size() - a + 1); note("debug_string", a, b);
  S p(s.begin() + a, s.begin() + b); t = v.debug_string(v.cbegin() + a, v.cbegin() + b); CHECK(t == text(p), "debug_string(first, last)");
  V q{std::string_view(t)}; same(q, p, "parsing the rendered text");
#endif
}
int main(int argc, char** argv) {
  std::string op = argc > 1 ? argv[1] : "all"; rng.seed(argc > 2 ? atoll(argv[2]) : 1); double secs = argc > 3 ? atof(argv[3]) : 5;
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, onsig);
  time_t t0 = time(0); long cnt = 0;
  bool ctor = op == "all" || op == "construct", mod = op == "all" || op == "modify", obs = op == "all" || op == "observe";
  alarm(120); if (op == "huge") huge();
  else while (time(0) - t0 < secs && cnt < 40000000) {
    alarm(20);
    if (op == "text") { for (int i = 0; i < 50; ++i) { hist.clear(); streams(); hist.clear(); render(); ++cnt; } continue; }
    for (int i = 0; i < 50; ++i) {
      hist.clear(); S s; V v = build(s); if (ctor || obs) same(v, s, "construction"); if (ctor) { V x(v), y(std::move(x)); v.clear(); same(y, s, "copy construction"); v = y; }
      int n = ctor && !mod && !obs ? 0 : rng() % 30;
      for (int k = 0; k < n; ++k) { step(v, s); same(v, s, "sequence"); if (obs && rng() % 4 == 0) observe(v, s); }
      if (obs) observe(v, s);
      ++cnt;
    }
  }
  printf("CASES %s D=%d %ld\n", op.c_str(), D, cnt);
}
