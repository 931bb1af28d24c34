// Directed search for a failing input, run only to replay a failed proof obligation on the real code.
// Every operation is compared with a bit-by-bit oracle on buffers with canary words (or, with -DEXACT, on exactly sized
// heap blocks for the sanitizers).   Usage: alg OP SEED SECONDS [case]
#include <cstdint>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <random>
#include <functional>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include "bitlib/bitlib.hpp"
typedef WORD W;
constexpr int D = sizeof(W) * 8;
typedef long long ll;
struct Case { ll op, f, n, d, g, k, val, seed, wf, wd, wg; } cur;
static const char* opname;
static volatile int dead = 0;
static void show(const char* what) {
  char buf[600];
  int len = snprintf(buf, sizeof buf, "FAIL %s D=%d op=%s f=%lld n=%lld d=%lld g=%lld k=%lld val=%lld seed=%lld wf=%lld wd=%lld wg=%lld\n", what, D, opname,
    cur.f, cur.n, cur.d, cur.g, cur.k, cur.val, cur.seed, cur.wf, cur.wd, cur.wg);
  if (write(1, buf, len)) {}
}
static void onsig(int s) {
  if (dead) _exit(1);
  dead = 1;
  show(s == SIGALRM ? "does-not-terminate" : s == SIGABRT ? "abort(assertion-or-sanitizer)" : "crash");
  _exit(1);
}
typedef std::vector<W> V;
using It = bit::bit_iterator<typename V::iterator>;
using CIt = bit::bit_iterator<typename V::const_iterator>;
using PIt = bit::bit_iterator<W*>;
static bool get(const V& v, ll b) { return (v[b / D] >> (b % D)) & 1; }
static void set(V& v, ll b, bool x) { W m = W(W(1) << (b % D)); v[b / D] = x ? W(v[b / D] | m) : W(v[b / D] & ~m); }
static It at(V& v, ll b) { return It(v.begin() + b / D, b % D); }
static CIt cat(const V& v, ll b) { return CIt(v.begin() + b / D, b % D); }
static bool isat(V& v, It i, ll b) { return (i.base() - v.begin()) * D + (ll)i.position() == b && i.position() < (unsigned)D; }
static std::mt19937_64 rng;
static V rnd(ll n, int mode) {
  V v(n);
  for (auto& x : v) { W r = W(rng()); x = mode == 1 ? W(r & rng() & rng() & rng()) : mode == 2 ? W(r | rng() | rng() | rng()) : mode == 3 ? W(0) : mode == 4 ? W(-1) : r; }
  return v;
}
static ll PAD() {
#ifdef EXACT
  return 0;
#else
  return 2;
#endif
}
// place range of n bits starting at bit position p (0..D-1) in a buffer: returns the start bit
struct Buf { V v; ll b; };
static ll words(ll p, ll n) { return (p + n + D - 1) / D; }
static Buf mk(ll p, ll n, int mode, ll w) { Buf r; ll z = words(p, n); if (!z && !PAD()) { z = 1; p = D; } r.v = rnd(z + 2 * PAD(), mode); r.b = PAD() * D + p; (void)w; return r; }
#define FAILIF(c, m) do { if (c) { show(m); return false; } } while (0)
typedef bool (*Test)(const Case&);

template <class F> static bool copylike(const Case& c, F fn, bool back) {
  int mode = c.seed % 5;
  if (c.k == 0) {   // distinct storage
    Buf s = mk(c.f, c.n, mode, 0), t = mk(c.d, c.n, (mode + 1) % 5, 0);
    V s0 = s.v, t0 = t.v;
    for (ll i = 0; i < c.n; i++) set(t0, t.b + i, get(s0, s.b + i));
    It r = fn(at(s.v, s.b), at(s.v, s.b + c.n), at(t.v, back ? t.b + c.n : t.b));
    FAILIF(!isat(t.v, r, back ? t.b : t.b + c.n), "wrong returned iterator");
    FAILIF(t.v != t0, "wrong destination memory");
    FAILIF(s.v != s0, "source changed");
  } else {          // same storage; distance k-1 in bits
    ll dist = c.k - 1, p = c.f;
    Buf s = mk(p, c.n + dist, mode, 0);
    V s0 = s.v, e = s.v;
    ll from = back ? s.b : s.b + dist, to = back ? s.b + dist : s.b;
    for (ll i = 0; i < c.n; i++) set(e, to + i, get(s0, from + i));
    It r = fn(at(s.v, from), at(s.v, from + c.n), at(s.v, back ? to + c.n : to));
    FAILIF(!isat(s.v, r, back ? to : to + c.n), "wrong returned iterator (same storage)");
    FAILIF(s.v != e, "wrong memory (same storage)");
  }
  return true;
}
static bool t_copy(const Case& c) { return copylike(c, [](It a, It b, It d) { return bit::copy(a, b, d); }, false); }
static bool t_move(const Case& c) { return copylike(c, [](It a, It b, It d) { return bit::move(a, b, d); }, false); }
static bool t_cb(const Case& c) { return copylike(c, [](It a, It b, It d) { return bit::copy_backward(a, b, d); }, true); }
static bool t_fill(const Case& c) {
  Buf s = mk(c.f, c.n, c.seed % 5, 0);
  V e = s.v;
  for (ll i = 0; i < c.n; i++) set(e, s.b + i, c.val & 1);
  bit::fill(at(s.v, s.b), at(s.v, s.b + c.n), bit::bit_value(bool(c.val & 1)));
  FAILIF(s.v != e, "wrong memory");
  return true;
}
static bool t_find(const Case& c) {
  Buf s = mk(c.f, c.n, c.seed % 5, 0);
  bool v = c.val & 1;
  if (c.k) {   // sparse: only few matches
    for (ll i = 0; i < c.n; i++) set(s.v, s.b + i, !v);
    if (c.n && (c.k & 1)) set(s.v, s.b + rng() % c.n, v);
  }
  V s0 = s.v;
  ll e = 0;
  while (e < c.n && get(s0, s.b + e) != v) e++;
  It r = bit::find(at(s.v, s.b), at(s.v, s.b + c.n), bit::bit_value(v));
  FAILIF(!isat(s.v, r, s.b + e), "wrong result");
  FAILIF(s.v != s0, "memory changed");
  return true;
}
static bool t_count(const Case& c) {
  Buf s = mk(c.f, c.n, c.seed % 5, 0);
  V s0 = s.v;
  bool v = c.val & 1;
  ll e = 0;
  for (ll i = 0; i < c.n; i++) e += get(s0, s.b + i) == v;
  ll r = bit::count(at(s.v, s.b), at(s.v, s.b + c.n), bit::bit_value(v));
  FAILIF(r != e, "wrong count");
  FAILIF(s.v != s0, "memory changed");
  return true;
}
static bool t_equal(const Case& c) {
  Buf s = mk(c.f, c.n, c.seed % 5, 0), t = mk(c.d, c.n, (c.seed / 5) % 5, 0);
  if (c.k) {
    for (ll i = 0; i < c.n; i++) set(t.v, t.b + i, get(s.v, s.b + i));
    if ((c.k & 1) && c.n) { ll i = (c.k == 1) ? rng() % c.n : (c.k == 3 ? 0 : c.n - 1); set(t.v, t.b + i, !get(t.v, t.b + i)); }
  }
  V s0 = s.v, t0 = t.v;
  bool e = true;
  for (ll i = 0; i < c.n; i++) e = e && get(s0, s.b + i) == get(t0, t.b + i);
  bool r = bit::equal(at(s.v, s.b), at(s.v, s.b + c.n), at(t.v, t.b));
  FAILIF(r != e, "wrong result");
  FAILIF(s.v != s0 || t.v != t0, "memory changed");
  return true;
}
static bool t_reverse(const Case& c) {
  Buf s = mk(c.f, c.n, c.seed % 5, 0);
  V s0 = s.v, e = s.v;
  for (ll i = 0; i < c.n; i++) set(e, s.b + i, get(s0, s.b + c.n - 1 - i));
  bit::reverse(at(s.v, s.b), at(s.v, s.b + c.n));
  FAILIF(s.v != e, "wrong memory");
  return true;
}
static bool shift(const Case& c, bool left) {
  Buf s = mk(c.f, c.n, c.seed % 5, 0);
  V s0 = s.v;
  ll k = c.k;
  It r = left ? bit::shift_left(at(s.v, s.b), at(s.v, s.b + c.n), k) : bit::shift_right(at(s.v, s.b), at(s.v, s.b + c.n), k);
  ll er = left ? (k <= 0 ? c.n : k >= c.n ? 0 : c.n - k) : (k <= 0 ? 0 : k >= c.n ? c.n : k);
  FAILIF(!isat(s.v, r, s.b + er), "wrong returned iterator");
  for (ll i = 0; i < (ll)s0.size() * D; i++) {
    if (i < s.b || i >= s.b + c.n) FAILIF(get(s.v, i) != get(s0, i), "bit outside the range changed");
    else if (k <= 0) FAILIF(get(s.v, i) != get(s0, i), "bit changed for n<=0");
    else if (k < c.n) {
      ll j = left ? i + k : i - k;
      if (j >= s.b && j < s.b + c.n) FAILIF(get(s.v, i) != get(s0, j), "surviving bit wrong");
    }
  }
  return true;
}
static bool t_sl(const Case& c) { return shift(c, true); }
static bool t_sr(const Case& c) { return shift(c, false); }
static bool t_rotate(const Case& c) {
  Buf s = mk(c.f, c.n, c.seed % 5, 0);
  V s0 = s.v, e = s.v;
  ll k = c.n ? c.k % (c.n + 1) : 0;
  if (k < 0) k += c.n + 1;
  for (ll i = 0; i < c.n; i++) set(e, s.b + i, get(s0, s.b + (i + k) % c.n));
  It r = bit::rotate(at(s.v, s.b), at(s.v, s.b + k), at(s.v, s.b + c.n));
  FAILIF(!isat(s.v, r, s.b + c.n - k), "wrong returned iterator");
  FAILIF(s.v != e, "wrong memory");
  return true;
}
static bool t_swap(const Case& c) {
  if (c.k == 0) {
    Buf s = mk(c.f, c.n, c.seed % 5, 0), t = mk(c.d, c.n, (c.seed / 5) % 5, 0);
    V s0 = s.v, t0 = t.v, es = s.v, et = t.v;
    for (ll i = 0; i < c.n; i++) { set(es, s.b + i, get(t0, t.b + i)); set(et, t.b + i, get(s0, s.b + i)); }
    It r = bit::swap_ranges(at(s.v, s.b), at(s.v, s.b + c.n), at(t.v, t.b));
    FAILIF(s.v != es || t.v != et, "wrong memory");
    FAILIF(!isat(t.v, r, t.b + c.n), "wrong returned iterator");
  } else {
    ll gap = (c.k - 1) / 2;
    Buf s = mk(c.f, 2 * c.n + gap, c.seed % 5, 0);
    V e = s.v, s0 = s.v;
    ll x = s.b, y = s.b + c.n + gap;
    if (!(c.k & 1)) std::swap(x, y);
    for (ll i = 0; i < c.n; i++) { set(e, x + i, get(s0, y + i)); set(e, y + i, get(s0, x + i)); }
    It r = bit::swap_ranges(at(s.v, x), at(s.v, x + c.n), at(s.v, y));
    FAILIF(s.v != e, "wrong memory (same storage)");
    FAILIF(!isat(s.v, r, y + c.n), "wrong returned iterator (same storage)");
  }
  return true;
}
static W tt1[2], tt2[4];
struct Op1 { W operator()(W x) const { return W((tt1[0] & ~x) | (tt1[1] & x)); } };
struct Op2 { W operator()(W x, W y) const { return W((tt2[0] & ~x & ~y) | (tt2[1] & x & ~y) | (tt2[2] & ~x & y) | (tt2[3] & x & y)); } };
static bool t_tr1(const Case& c) {
  for (int i = 0; i < 2; i++) tt1[i] = (c.val >> i) & 1 ? W(-1) : W(0);
  Buf s = mk(c.f, c.n, c.seed % 5, 0), t = mk(c.d, c.n, (c.seed / 5) % 5, 0);
  V s0 = s.v;
  bool inplace = c.k & 1;
  Buf& o = inplace ? s : t;
  V e = o.v;
  Op1 op;
  for (ll i = 0; i < c.n; i++) set(e, o.b + i, op(get(s0, s.b + i) ? W(1) : W(0)) & 1);
  It r = bit::transform(at(s.v, s.b), at(s.v, s.b + c.n), at(o.v, o.b), op);
  FAILIF(o.v != e, "wrong destination memory");
  FAILIF(!inplace && s.v != s0, "source changed");
  FAILIF(!isat(o.v, r, o.b + c.n), "wrong returned iterator");
  return true;
}
static bool t_tr2(const Case& c) {
  for (int i = 0; i < 4; i++) tt2[i] = (c.val >> i) & 1 ? W(-1) : W(0);
  Buf s = mk(c.f, c.n, c.seed % 5, 0), t = mk(c.d, c.n, (c.seed / 5) % 5, 0), g = mk(c.g, c.n, 0, 0);
  V s0 = s.v, g0 = g.v;
  bool inplace = c.k & 1;
  Buf& o = inplace ? s : t;
  V e = o.v;
  Op2 op;
  for (ll i = 0; i < c.n; i++) set(e, o.b + i, op(get(s0, s.b + i) ? W(1) : W(0), get(g0, g.b + i) ? W(1) : W(0)) & 1);
  It r = bit::transform(at(s.v, s.b), at(s.v, s.b + c.n), at(g.v, g.b), at(o.v, o.b), op);
  FAILIF(o.v != e, "wrong destination memory");
  FAILIF((!inplace && s.v != s0) || g.v != g0, "source changed");
  FAILIF(!isat(o.v, r, o.b + c.n), "wrong returned iterator");
  return true;
}
struct Op { const char* name; Test t; bool d, g; int kmode; };   // kmode 0: none 1: same-storage distance 2: shift amount 3: small flag 4: rotate
static Op ops[] = {
  {"copy", t_copy, true, false, 1}, {"move", t_move, true, false, 1}, {"copy_backward", t_cb, true, false, 1}, {"fill", t_fill, false, false, 0},
  {"find", t_find, false, false, 3}, {"count", t_count, false, false, 0}, {"equal", t_equal, true, false, 3}, {"reverse", t_reverse, false, false, 0},
  {"shift_left", t_sl, false, false, 2}, {"shift_right", t_sr, false, false, 2}, {"rotate", t_rotate, false, false, 4}, {"swap_ranges", t_swap, true, false, 1},
  {"transform1", t_tr1, true, false, 3}, {"transform2", t_tr2, true, true, 3}};
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static ll pick(ll lo, ll hi) { return lo + (ll)(rng() % (unsigned long long)(hi - lo + 1)); }
static ll ppos() { ll r = pick(0, 5); return r == 0 ? 0 : r == 1 ? D - 1 : r == 2 ? 1 : pick(0, D - 1); }
static ll kof(int mode, ll n) {
  switch (mode) {
    case 1: return pick(0, 2) == 0 ? 0 : pick(1, pick(0, 1) ? 2 * D + 2 : n + D + 2);
    case 2: { ll r = pick(0, 8); return r == 0 ? pick(-3, 0) : r == 1 ? n : r == 2 ? n + pick(0, 3 * D) : r == 3 ? n - pick(1, 4) : r == 4 ? D * pick(0, n / D + 1) : r == 5 ? -pick(0, 200) : pick(1, n + 1); }
    case 3: return pick(0, 4);
    case 4: { ll r = pick(0, 6); return r == 0 ? 0 : r == 1 ? n : r == 2 ? (D * pick(0, n / D + 1)) : r == 3 ? n / 2 : pick(0, n); }
  }
  return 0;
}
static bool one(const Op& o) { rng.seed(cur.seed); alarm(20); bool r = o.t(cur); alarm(0); return r; }
int main(int argc, char** argv) {
  const char* op = argv[1];
  ll seed = atoll(argv[2]);
  double end = now() + atof(argv[3]);
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) signal(s, onsig);
  for (auto& o : ops) {
    if (strcmp(op, "all") && strcmp(op, o.name)) continue;
    opname = o.name;
    if (argc > 4) {
      if (sscanf(argv[4], "f=%lld,n=%lld,d=%lld,g=%lld,k=%lld,val=%lld,seed=%lld", &cur.f, &cur.n, &cur.d, &cur.g, &cur.k, &cur.val, &cur.seed) != 7) return 2;
      if (!one(o)) return 1;
      printf("PASS\n");
      return 0;
    }
    double share = strcmp(op, "all") ? end : now() + atof(argv[3]) / (sizeof ops / sizeof *ops);
    // small ranges first, exhaustively over the alignments, then random
    long cases = 0;
    std::mt19937_64 g(seed);
    auto draw = [&](ll lo, ll hi) { return lo + (ll)(g() % (unsigned long long)(hi - lo + 1)); };
    std::vector<ll> ps;
    for (ll p = 0; p < D; p++) if (D == 8 || p < 3 || p >= D - 3 || p == D / 2) ps.push_back(p);
    double half = now() + (share - now()) * 0.5;
    for (ll n = 0; n <= 4 * D + 2 && now() < half; n += (D == 8 || n % D < 3 || n % D >= D - 2) ? 1 : (D / 7))
      for (ll f : ps)
        for (ll d : ps) {
          if (!o.d && d) break;
          for (int rep = 0; rep < (o.kmode ? 6 : 2); rep++) {
            rng.seed(g());
            cur = Case{0, f, n, d, draw(0, D - 1), 0, draw(0, 15), draw(0, 1 << 30), 0, 0, 0};
            cur.k = kof(o.kmode, n);
            if (!one(o)) return 1;
            cases++;
          }
        }
    while (now() < share) {
      rng.seed(g());
      ll n = pick(0, 3) == 0 ? pick(0, 3 * D) : pick(0, 1) ? pick(0, 40 * D) : D * pick(0, 20) + pick(0, 3);
      if (pick(0, 60) == 0) n = pick(0, 60000);
      cur = Case{0, ppos(), n, ppos(), ppos(), 0, pick(0, 15), pick(0, 1 << 30), 0, 0, 0};
      if (pick(0, 6) == 0) cur.d = cur.f;
      cur.k = kof(o.kmode, n);
      if (!one(o)) return 1;
      cases++;
    }
    printf("CASES %s D=%d %ld\n", o.name, D, cases);
  }
  return 0;
}
