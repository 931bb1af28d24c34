// Directed search for a failing operand of the word-level primitives (bit by bit oracles).  Usage: prim OP SEED SECONDS
#include <cstdint>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <tuple>
#include <random>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include "bitlib/bitlib.hpp"
typedef WORD W;
constexpr int D = sizeof(W) * 8;
typedef unsigned long long u64;
static std::mt19937_64 rng;
static const char* opname; static u64 A[6]; static int dead;
static void show(const char* what) {
  char b[400]; int n = snprintf(b, sizeof b, "FAIL %s D=%d op=%s %llx %llx %llx %llx %llx %llx\n", what, D, opname, A[0], A[1], A[2], A[3], A[4], A[5]);
  if (write(1, b, n)) {}
}
static void onsig(int s) { if (dead) _exit(1); dead = 1; show(s == SIGALRM ? "does-not-terminate" : s == SIGABRT ? "abort(assertion-or-sanitizer)" : "crash"); _exit(1); }
static W rw() {
  W r = W(rng());
  switch (rng() % 8) {
    case 0: return 0; case 1: return W(-1); case 2: return W(W(1) << (rng() % D)); case 3: return W(r & rng() & rng());
    case 4: return W(W(-1) >> (rng() % D)); case 5: return W(W(-1) << (rng() % D)); default: return r;
  }
}
static int bt(W x, int i) { return (x >> i) & 1; }
#define CHECK(c, w) do { if (!(c)) { show(w); exit(1); } } while (0)
static W seqblend(W a, W b, unsigned s, unsigned n) { W r = a; for (unsigned i = 0; i < (unsigned)D; ++i) if (i >= s && i - s < n) r = W((r & ~(W(1) << i)) | (W(bt(b, i)) << i)); return r; }
static void one(int k) {
  W x = rw(), y = rw(), m = rw();
  unsigned s = rng() % (D + 1), t = rng() % D, n = rng() % (D + 1);
  A[0] = x; A[1] = y; A[2] = m; A[3] = s; A[4] = t; A[5] = n;
  auto ig = std::ignore;
  switch (k) {
  case 0: { opname = "popcnt"; int c = 0; for (int i = 0; i < D; ++i) c += bt(x, i); CHECK(bit::_popcnt(x) == c, "wrong"); CHECK(bit::_popcnt(x, ig) == c, "wrong(generic)"); break; }
  case 1: { opname = "lzcnt"; int c = 0; for (int i = D - 1; i >= 0 && !bt(x, i); --i) ++c; CHECK(bit::_lzcnt(x) == c, "wrong"); CHECK(bit::_lzcnt(x, ig) == c, "wrong(generic)"); break; }
  case 2: { opname = "tzcnt"; int c = 0; for (int i = 0; i < D && !bt(x, i); ++i) ++c; CHECK(bit::_tzcnt(x) == c, "wrong"); CHECK(bit::_tzcnt(x, ig) == c, "wrong(generic)"); break; }
  case 3: { opname = "bextr"; if (rng() % 8 == 0) s = D + rng() % 9; W r = 0; for (unsigned i = 0; i < n && s + i < (unsigned)D; ++i) r |= W(W(bt(x, s + i)) << i);
    A[3] = s; CHECK(bit::_bextr<W>(x, W(s), W(n)) == r, "wrong"); CHECK(bit::_bextr(x, W(s), W(n), ig) == r, "wrong(generic)"); break; }
  case 4: { opname = "pdep"; W r = 0; int j = 0; for (int i = 0; i < D; ++i) if (bt(m, i)) r |= W(W(bt(x, j++)) << i); CHECK(bit::_pdep(x, m) == r, "wrong"); CHECK(bit::_pdep(x, m, ig) == r, "wrong(generic)"); break; }
  case 5: { opname = "pext"; W r = 0; int j = 0; for (int i = 0; i < D; ++i) if (bt(m, i)) r |= W(W(bt(x, i)) << j++); CHECK(bit::_pext(x, m) == r, "wrong"); CHECK(bit::_pext(x, m, ig) == r, "wrong(generic)"); break; }
  case 6: { opname = "byteswap"; W r = 0; for (int i = 0; i < D / 8; ++i) r |= W(W((x >> (8 * i)) & 0xff) << (D - 8 - 8 * i)); CHECK(bit::_byteswap(x) == r, "wrong"); CHECK(bit::_byteswap(x, ig) == r, "wrong(generic)"); break; }
  case 7: { opname = "bitswap"; W r = 0; for (int i = 0; i < D; ++i) r |= W(W(bt(x, i)) << (D - 1 - i)); CHECK(bit::_bitswap(x) == r, "wrong"); break; }
  case 8: { opname = "bitblend"; W r = 0; for (int i = 0; i < D; ++i) r |= W(W(bt(m, i) ? bt(y, i) : bt(x, i)) << i); CHECK(bit::_bitblend<W>(x, y, m) == r, "wrong(mask)");
    if (rng() % 8 == 0) { s = D + rng() % 9; A[3] = s; } CHECK(bit::_bitblend<W>(x, y, W(s), W(n)) == seqblend(x, y, s, n), "wrong(field)"); break; }
  case 9: { opname = "bitexch"; W a = x, b = y; bit::_bitexch<W>(a, b, m); CHECK(a == W((x & ~m) | (y & m)) && b == W((y & ~m) | (x & m)), "wrong(mask)");
    s = t; n = rng() % (D - s + 1); A[3] = s; A[5] = n; a = x; b = y; bit::_bitexch<W, W>(a, b, W(s), W(n)); CHECK(a == seqblend(x, y, s, n) && b == seqblend(y, x, s, n), "wrong(field)"); break; }
  case 10: { opname = "bitexch_offset"; s = rng() % D; int q = s > t ? s : t; n = rng() % (D - q + 1); A[3] = s; A[5] = n; W a = x, b = y; bit::_bitexch<W, W>(a, b, W(s), W(t), W(n));
    W ra = x, rb = y; for (unsigned i = 0; i < n; ++i) { ra = W((ra & ~(W(1) << (s + i))) | (W(bt(y, t + i)) << (s + i))); rb = W((rb & ~(W(1) << (t + i))) | (W(bt(x, s + i)) << (t + i))); }
    CHECK(a == ra && b == rb, "wrong"); break; }
  case 11: { opname = "shld"; unsigned c = rng() % (2 * D + 6); A[3] = c; W r = 0; for (int i = 0; i < D; ++i) { int j = D + i - (int)c; int v = j < 0 ? 0 : j < D ? bt(y, j) : bt(x, j - D); r |= W(W(v) << i); } CHECK(bit::_shld<W>(x, y, W(c)) == r, "wrong"); break; }
  case 12: { opname = "shrd"; unsigned c = rng() % (2 * D + 6); A[3] = c; W r = 0; for (int i = 0; i < D; ++i) { unsigned j = i + c; int v = j >= 2u * D ? 0 : j < (unsigned)D ? bt(x, j) : bt(y, j - D); r |= W(W(v) << i); } CHECK(bit::_shrd<W>(x, y, W(c)) == r, "wrong"); break; }
  case 13: { opname = "addcarry"; unsigned char c = rng() & 1; A[3] = c; unsigned __int128 r = (unsigned __int128)x + y + c; W d = 0; unsigned char o = bit::_addcarry(c, x, y, &d); CHECK(d == W(r) && o == (unsigned char)(r >> D), "wrong");
    d = 0; o = bit::_addcarry(c, x, y, &d, ig); CHECK(d == W(r) && o == (unsigned char)(r >> D), "wrong(generic)"); break; }
  case 14: { opname = "subborrow"; unsigned char c = rng() & 1; A[3] = c; unsigned __int128 r = (unsigned __int128)x - y - c; W d = 0; unsigned char o = bit::_subborrow(c, x, y, &d); CHECK(d == W(r) && o == (unsigned char)((r >> D) & 1), "wrong");
    d = 0; o = bit::_subborrow(c, x, y, &d, ig); CHECK(d == W(r) && o == (unsigned char)((r >> D) & 1), "wrong(generic)"); break; }
  case 15: { opname = "mulx"; unsigned __int128 r = (unsigned __int128)x * y; W h = 0; W l = bit::_mulx(x, y, &h); CHECK(l == W(r) && h == W(r >> D), "wrong"); h = 0; l = bit::_mulx(x, y, &h, ig); CHECK(l == W(r) && h == W(r >> D), "wrong(generic)"); break; }
  }
}
static const char* N[] = {"popcnt","lzcnt","tzcnt","bextr","pdep","pext","byteswap","bitswap","bitblend","bitexch","bitexch_offset","shld","shrd","addcarry","subborrow","mulx"};
int main(int argc, char** argv) {
  std::string op = argc > 1 ? argv[1] : "all"; rng.seed(argc > 2 ? atoll(argv[2]) : 1); double secs = argc > 3 ? atof(argv[3]) : 5;
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, onsig);
  time_t t0 = time(0); long cnt = 0;
  while (time(0) - t0 < secs && cnt < 40000000) { alarm(10); for (int i = 0; i < 20000; ++i) for (int k = 0; k < 16; ++k) if (op == "all" || op == N[k]) { one(k); ++cnt; } }
  printf("CASES %s D=%d %ld\n", op.c_str(), D, cnt);
}
