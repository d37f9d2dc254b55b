/* Objective functions and constraints shared by the interpreter's side and by
 * the reference's side of the checks of the plug-in. */
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdint.h>

#define MAXN 64
long vp_evals = 0;
static uint64_t mix(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30))*0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27))*0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static double uni(long seed, long i, double a, double b) {
  return a + (b - a)*(double)(mix(mix((uint64_t)seed)*31 + (uint64_t)i) >> 11)/9007199254740992.0;
}
/* Value and, if G is not NULL, gradient.  (The interpreter traps overflows:
   the function is that of the variables limited to a thousand.) */
double vp_eval(long kind, long seed, long n, const double* xx, double* g) {
  double f = 0, G[MAXN], x[MAXN]; long i;
  if (n > MAXN) abort();
  for (i = 0; i < n; ++i) x[i] = xx[i] < -1e3 ? -1e3 : xx[i] > 1e3 ? 1e3 : xx[i];
  for (i = 0; i < n; ++i) G[i] = 0;
  switch (kind) {
  case 5: /* the gradient is not that of the function */
    for (i = 0; i < n; ++i) { double t = x[i] - uni(seed, i, -2, 2); f -= t*t; G[i] = 2*t; } break;
  case 0: for (i = 0; i < n; ++i) { double w = uni(seed, i, 0.5, 4), t = x[i] - uni(seed, 100 + i, -2, 2); f += w*t*t; G[i] = 2*w*t; } break;
  case 1: for (i = 0; i < n; ++i) { double t = x[i] - 1; f += 0.5*t*t; G[i] += t; 
      if (i + 1 < n) { double s = x[i + 1] - x[i]*x[i]; f += 5*s*s; G[i + 1] += 10*s; G[i] -= 20*s*x[i]; } } break;
  case 2: for (i = 0; i < n; ++i) { double t = x[i] - uni(seed, i, -2, 2); f += 0.25*t*t*t*t + 0.05*t*t; G[i] = t*t*t + 0.1*t; } break;
  case 3: for (i = 0; i < n; ++i) { double w = uni(seed, i, 0.5, 4), t = x[i] - uni(seed, 100 + i, -2, 2), r = sqrt(1 + t*t); f += w*r; G[i] = w*t/r; } break;
  default: for (i = 0; i < n; ++i) { double t = x[i] - uni(seed, i, -2, 2), s = i ? x[i] - x[i - 1] : 0; f += 1 - cos(t) + 0.05*t*t + 0.1*s*s; G[i] += sin(t) + 0.1*t + 0.2*s; if (i) G[i - 1] -= 0.2*s; }
  }
  if (g) for (i = 0; i < n; ++i) g[i] = G[i];
  return f;
}
/* M constraints (to become nonnegative). */
void vp_cons(long seed, long m, long n, const double* x, double* c) {
  long i, j;
  for (j = 0; j < m; ++j) {
    if (j % 2 == 0) { c[j] = uni(seed, 1000 + j, 1, 4); for (i = 0; i < n; ++i) c[j] -= x[i]*x[i]; }
    else { c[j] = uni(seed, 1000 + j, 0.1, 1); for (i = 0; i < n; ++i) c[j] += uni(seed, 2000 + 64*j + i, -1, 1)*x[i]; }
  }
}
