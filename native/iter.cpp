// Directed search: bit iterators, pointers, references and values against plain integer arithmetic.  Usage: iter OP SEED SECONDS
#include <cstdint>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <random>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include "bitlib/bitlib.hpp"
typedef WORD W;
constexpr int D = sizeof(W) * 8;
typedef long long ll;
typedef std::vector<W> V;
typedef bit::bit_reference<W> BR;
typedef bit::bit_value BV;
static std::mt19937_64 rng;
static const char* opname = ""; static ll A[4]; static int dead;
static void show(const char* what) {
  char b[400]; int n = snprintf(b, sizeof b, "FAIL %s D=%d op=%s %lld %lld %lld %lld\n", what, D, opname, A[0], A[1], A[2], A[3]);
  if (write(1, b, n)) {}
}
static void onsig(int s) { if (dead) _exit(1); dead = 1; show(s == SIGALRM ? "does-not-terminate" : s == SIGABRT ? "abort(assertion-or-sanitizer)" : "crash"); _exit(1); }
#define CHECK(c, w) do { if (!(c)) { show(w); exit(1); } } while (0)
static V store(1 << 12);
static const ll NB = (ll)store.size() * D;
template <class I> struct Mk;
template <> struct Mk<V::iterator> { static bit::bit_iterator<V::iterator> at(ll b) { return {store.begin() + b / D, size_t(b % D)}; } };
template <> struct Mk<V::const_iterator> { static bit::bit_iterator<V::const_iterator> at(ll b) { return {store.cbegin() + b / D, size_t(b % D)}; } };
template <> struct Mk<W*> { static bit::bit_iterator<W*> at(ll b) { return {store.data() + b / D, size_t(b % D)}; } };
struct P {}; template <> struct Mk<P> { static bit::bit_pointer<W> at(ll b) { return {store.data() + b / D, size_t(b % D)}; } };
template <class I> static ll off(bit::bit_iterator<I> i) { return (&*i.base() - store.data()) * D + (ll)i.position(); }
static ll off(bit::bit_pointer<W> p) { BR r = *p; return (r.address() - store.data()) * D + (ll)r.position(); }
template <class T> static ll offr(bit::bit_reference<T> r) { ll k = r.position(); return r.mask() == W(W(1) << k) ? (r.address() - store.data()) * D + k : -1; }
template <class K> static void arith() {
  auto at = Mk<K>::at;
  ll a = rng() % NB, b = rng() % 3 ? rng() % NB : std::max<ll>(0, std::min<ll>(NB - 1, a + (ll)(rng() % 200) - 100)), n = b - a;
  A[0] = a; A[1] = b; A[2] = n;
  auto x = at(a), y = at(b);
  CHECK(off(x + n) == b && off(n + x) == b && off(y - n) == a, "plus/minus");
  auto z = x; z += n; CHECK(off(z) == b, "+="); z -= n; CHECK(off(z) == a, "-=");
  if (a + 1 < NB) { z = x; CHECK(off(++z) == a + 1, "++"); z = x; CHECK(off(z++) == a && off(z) == a + 1, "post++"); }
  if (a > 0) { z = x; CHECK(off(--z) == a - 1, "--"); z = x; CHECK(off(z--) == a && off(z) == a - 1, "post--"); }
  CHECK(y - x == n && x - y == -n, "difference");
  CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "comparison");
  CHECK(offr(x[n]) == b && offr(*x) == a, "dereference");
}
template <class K> static void itops() {
  auto at = Mk<K>::at;
  ll a = rng() % NB, b = rng() % 3 ? rng() % NB : std::max<ll>(0, std::min<ll>(NB - 1, a + (ll)(rng() % 200) - 100)), n = b - a;
  A[0] = a; A[1] = b; A[2] = n;
  auto x = at(a), y = at(b);
  CHECK(off(bit::next(x, n)) == b, "bit::next"); auto z = x; bit::advance(z, n); CHECK(off(z) == b, "bit::advance");
  CHECK(bit::distance(x, y) == n, "bit::distance"); CHECK(std::distance(x, y) == n && off(std::next(x, n)) == b && off(std::prev(y, n)) == a, "std");
  CHECK(x.mask() == W(W(1) << (a % D)), "mask"); bit::bit_iterator<typename std::decay<decltype(x.base())>::type> al(x.base()); CHECK(off(al) == a - a % D, "aligned");
}
static void mixed() {
  ll a = rng() % NB, b = rng() % 2 ? rng() % NB : std::max<ll>(0, std::min<ll>(NB - 1, a + (ll)(rng() % 200) - 100)); A[0] = a; A[1] = b;
  auto x = Mk<V::iterator>::at(a); auto y = Mk<V::const_iterator>::at(b);
  CHECK((x < y) == (a < b) && (x == y) == (a == b) && x - y == a - b, "mixed"); y = x; CHECK(off(y) == a, "converting assignment");
  bit::bit_iterator<V::const_iterator> c(x); CHECK(off(c) == a, "conversion");
  bit::bit_pointer<W> p = Mk<P>::at(a); bit::bit_pointer<const W> q(p); CHECK((*q).position() == size_t(a % D) && (*q).address() == store.data() + a / D, "pointer conversion");
  q = nullptr; q = p; CHECK((*q).address() == store.data() + a / D && (*q).position() == size_t(a % D), "pointer assignment"); CHECK(bool(p) && !bool(bit::bit_pointer<W>(nullptr)), "bool");
}
static bool g(const W* w, ll b) { return (w[b / D] >> (b % D)) & 1; }
static void st(W* w, ll b, bool v) { W m = W(W(1) << (b % D)); w[b / D] = v ? W(w[b / D] | m) : W(w[b / D] & ~m); }
static void refs() {
  W w[2] = {W(rng()), W(rng())}, e[2]; if (rng() % 4 == 0) w[0] = 0; if (rng() % 4 == 0) w[1] = W(-1);
  ll a = rng() % (2 * D), b = rng() % (2 * D); bool v = rng() & 1; W x = W(rng()); int k = rng() % D, op = rng() % 21;
  A[0] = a; A[1] = b; A[2] = op; A[3] = v; memcpy(e, w, sizeof w);
  BR r(w[a / D], a % D), q(w[b / D], b % D); bool ra = g(w, a), rb = g(w, b); BV bv(v); BV vb(rb);
  CHECK(bool(r) == ra && bool(BV(r)) == ra, "read");
  BR* c = nullptr; (void)c;
  switch (op) {
    case 0: r.set(); st(e, a, 1); break; case 1: r.reset(); st(e, a, 0); break; case 2: r.flip(); st(e, a, !ra); break;
    case 3: r.set(v); st(e, a, v); break; case 4: r = bv; st(e, a, v); break; case 5: r.assign(x); st(e, a, x & 1); break;
    case 6: r.assign(x, k); st(e, a, (x >> k) & 1); break; case 7: r &= bv; st(e, a, ra && v); break; case 8: r |= bv; st(e, a, ra || v); break;
    case 9: r ^= bv; st(e, a, ra != v); break; case 10: r = q; st(e, a, rb); break; case 11: { bit::bit_reference<const W> cq(q); r = cq; st(e, a, rb); break; }
    case 12: r &= q; st(e, a, ra && rb); break; case 13: r |= q; st(e, a, ra || rb); break; case 14: r ^= q; st(e, a, ra != rb); break;
    case 15: r.swap(q); st(e, a, rb); st(e, b, ra); break; case 16: bit::swap(r, q); st(e, a, rb); st(e, b, ra); break;
    case 17: r.swap(bv); CHECK(bool(bv) == ra, "swap value"); st(e, a, v); break; case 18: bit::swap(r, bv); CHECK(bool(bv) == ra, "swap value"); st(e, a, v); break;
    case 19: bit::swap(bv, r); CHECK(bool(bv) == ra, "swap value"); st(e, a, v); break; case 20: bv.swap(r); CHECK(bool(bv) == ra, "swap value"); st(e, a, v); break;
  }
  CHECK(w[0] == e[0] && w[1] == e[1], "memory");
  memcpy(w, e, sizeof w); ra = g(w, a); rb = g(w, b);
  CHECK((BV(r) == BV(q)) == (ra == rb) && (BV(r) != BV(q)) == (ra != rb) && (BV(r) < BV(q)) == (ra < rb) && bool(r & q) == (ra && rb) && bool(~r) == !ra, "reference operators");
}
static void vals() {
  bool v = rng() & 1, o = rng() & 1; W x = W(rng()); int k = rng() % D; A[0] = v; A[1] = o; A[2] = k;
  BV a(v), b(o);
  CHECK(!bool(BV()) && bool(BV(x)) == bool(x & 1) && bool(BV(x, k)) == bool((x >> k) & 1), "construct");
  BV t(v); t.assign(x); CHECK(bool(t) == bool(x & 1), "assign"); t.assign(x, k); CHECK(bool(t) == bool((x >> k) & 1), "assign");
  t = a; t &= b; CHECK(bool(t) == (v && o), "&="); t = a; t |= b; CHECK(bool(t) == (v || o), "|="); t = a; t ^= b; CHECK(bool(t) == (v != o), "^=");
  t = a; t.set(); CHECK(bool(t), "set"); t.reset(); CHECK(!bool(t), "reset"); t = a; t.flip(); CHECK(bool(t) == !v, "flip"); t.set(o); CHECK(bool(t) == o, "set");
  CHECK(bool(~a) == !v && bool(a & b) == (v && o) && bool(a | b) == (v || o) && bool(a ^ b) == (v != o), "operators");
  CHECK((a == b) == (v == o) && (a != b) == (v != o) && (a < b) == (v < o) && (a <= b) == (v <= o) && (a > b) == (v > o) && (a >= b) == (v >= o), "comparison");
  a.swap(b); CHECK(bool(a) == o && bool(b) == v, "swap"); CHECK(!bool(bit::bit0) && bool(bit::bit1) && !bool(bit::bit_off) && bool(bit::bit_on), "constants");
}
int main(int argc, char** argv) {
  std::string op = argc > 1 ? argv[1] : "all"; rng.seed(argc > 2 ? atoll(argv[2]) : 1); double secs = argc > 3 ? atof(argv[3]) : 5;
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, onsig);
  time_t t0 = time(0); long cnt = 0; bool c13 = op == "all" || op == "arith", c14 = op == "all" || op == "refs";
  while (time(0) - t0 < secs && cnt < 40000000) {
    alarm(10);
    for (int i = 0; i < 20000; ++i) {
      if (c13) { opname = "vector-iterator"; arith<V::iterator>(); itops<V::iterator>(); opname = "const_iterator"; arith<V::const_iterator>(); itops<V::const_iterator>();
        opname = "pointer-iterator"; arith<W*>(); itops<W*>(); opname = "bit_pointer"; arith<P>(); opname = "mixed"; mixed(); }
      if (c14) { opname = "reference"; refs(); opname = "value"; vals(); }
      ++cnt;
    }
  }
  printf("CASES %s D=%d %ld\n", op.c_str(), D, cnt);
}
