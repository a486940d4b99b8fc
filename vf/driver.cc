// Drives the native code of py-edge-eval for valgrind: driver SEED COUNT
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include "Matrix.hh"
#include "match.hh"
#include "benms.hh"

// Matrix.cc has a matrix product that nothing here calls
extern "C" __attribute__((weak)) void dgemm_() { abort(); }

static unsigned long long s;
static double rnd() {
  s ^= s << 13; s ^= s >> 7; s ^= s << 17;
  return (s >> 11) * (1.0 / 9007199254740992.0);
}

int main(int argc, char** argv) {
  s = 88172645463325252ull ^ (strtoull(argv[1], 0, 10) * 2654435761ull);
  for (int i = 0; i < 20; i++) rnd();
  int n = atoi(argv[2]);
  double sink = 0;
  for (int c = 0; c < n; c++) {
    int h = 1 + int(rnd() * 14), w = 1 + int(rnd() * 14);
    if (rnd() < 0.2) h = 1;
    if (rnd() < 0.2) w = 1;
    double d1 = rnd() * rnd(), d2 = rnd() * rnd();
    if (rnd() < 0.1) d1 = 0;
    if (rnd() < 0.1) d2 = 1;
    Matrix a(h, w), b(h, w), m1, m2;
    for (int x = 0; x < w; x++)
      for (int y = 0; y < h; y++) { a(y, x) = rnd() < d1; b(y, x) = rnd() < d2; }
    double diag = sqrt(double(h * h + w * w));
    double md = (rnd() < 0.5 ? 0.02 : 0.15) * diag;
    double cost = matchEdgeMaps(a, b, md, 100 * md, m1, m2);
    if (cost > 1e9) printf("huge\n");
    for (int x = 0; x < w; x++)
      for (int y = 0; y < h; y++) { if (m1(y, x) > 0) sink += 1; if (m2(y, x) > 0) sink += 1; }
    Matrix e(h, w), o(h, w), out;
    for (int x = 0; x < w; x++)
      for (int y = 0; y < h; y++) { e(y, x) = rnd(); o(y, x) = rnd() * 8 - 4; }
    benms(out, e, o, int(rnd() * 4), int(rnd() * 8), 1.01f);
    for (int x = 0; x < w; x++)
      for (int y = 0; y < h; y++) if (out(y, x) > 0) sink += out(y, x);
    printf("call\ncall\n");
  }
  if (sink < 0) printf("negative\n");
  return 0;
}
