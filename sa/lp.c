/* Exact rational simplex: minimise c*l subject to A l = b, l >= 0 (b >= 0).
   Returns 0 ok (value in out[0]/out[1]), 1 infeasible, 2 unbounded, 3 give up. */
#include <stdlib.h>
#include <string.h>
typedef long long ll;
typedef __int128 i128;
typedef struct { ll n, d; } Q;
static int ovf;
static unsigned long long gcd64(unsigned long long a, unsigned long long b) {
  if (!a) return b;
  if (!b) return a;
  int s = __builtin_ctzll(a | b);
  a >>= __builtin_ctzll(a);
  while (b) {
    b >>= __builtin_ctzll(b);
    if (a > b) { unsigned long long t = a; a = b; b = t; }
    b -= a;
  }
  return a << s;
}
static i128 gcd128(i128 a, i128 b) {
  if (a < 0) a = -a;
  if (b < 0) b = -b;
  while (b) {
    if (a <= 0x7fffffffffffffffLL && b <= 0x7fffffffffffffffLL) return gcd64((ll)a, (ll)b);
    i128 t = a % b; a = b; b = t;
  }
  return a;
}
static Q mk(i128 n, i128 d) {
  Q r = {0, 1};
  if (n == 0) return r;
  if (d != 1) {
    i128 g = gcd128(n, d);
    n /= g; d /= g;
    if (d < 0) { n = -n; d = -d; }
  }
  if (n > 0x3fffffffffffffffLL || n < -0x3fffffffffffffffLL || d > 0x3fffffffffffffffLL) { ovf = 1; return r; }
  r.n = (ll)n; r.d = (ll)d;
  return r;
}
static Q mul(Q a, Q b) {
  if (a.d == 1 && b.d == 1) return mk((i128)a.n * b.n, 1);
  return mk((i128)a.n * b.n, (i128)a.d * b.d);
}
static Q sub(Q a, Q b) {
  if (a.d == b.d) return mk((i128)a.n - b.n, a.d);
  i128 x = (i128)a.n * b.d - (i128)b.n * a.d;
  return mk(x, (i128)a.d * b.d);
}
static Q dv(Q a, Q b) {
  i128 n = (i128)a.n * b.d, d = (i128)a.d * b.n;
  if (d < 0) { n = -n; d = -d; }
  return mk(n, d);
}
static int cmp(Q a, Q b) {
  i128 x = (i128)a.n * b.d - (i128)b.n * a.d;
  return x < 0 ? -1 : x > 0;
}
/* rows 0..nr-1 constraints, nr phase 1, nr+1 phase 2; column nc is the right-hand side */
static void pivot(Q *T, int rows, int w, int pi, int pj, int *nz) {
  Q *R = T + (long)pi * w;
  Q pv = R[pj];
  int k = 0;
  for (int j = 0; j < w; j++) if (R[j].n) {
    if (!(pv.n == 1 && pv.d == 1)) R[j] = dv(R[j], pv);
    nz[k++] = j;
  }
  for (int i = 0; i < rows; i++) {
    if (i == pi) continue;
    Q *S = T + (long)i * w;
    Q f = S[pj];
    if (!f.n) continue;
    for (int t = 0; t < k; t++) {
      int j = nz[t];
      S[j] = S[j].n ? sub(S[j], mul(f, R[j])) : mul((Q){-f.n, f.d}, R[j]);
    }
  }
}
int lp(int nr, int nc, const ll *A, const ll *b, const ll *c, ll *out) {
  int w = nc + 1, rc = 3, it;
  Q *T = calloc((size_t)(nr + 2) * w, sizeof(Q));
  int *bas = malloc((nr + 1) * sizeof(int)), *nz = malloc(w * sizeof(int));
  ovf = 0;
  for (int i = 0; i < nr; i++) {
    bas[i] = nc + i;
    for (int j = 0; j < nc; j++) T[(long)i * w + j] = (Q){A[(long)i * nc + j], 1};
    T[(long)i * w + nc] = (Q){b[i], 1};
  }
  for (int j = 0; j <= nc; j++) {
    ll s = 0;
    for (int i = 0; i < nr; i++) s += T[(long)i * w + j].n;
    T[(long)nr * w + j] = (Q){-s, 1};
    T[(long)(nr + 1) * w + j] = (Q){j < nc ? c[j] : 0, 1};
  }
  for (int phase = 0; phase < 2; phase++) {
    Q *Z = T + (long)(nr + phase) * w;
    for (it = 0; it < 600; it++) {
      int e = -1;
      for (int j = 0; j < nc; j++) if (Z[j].n < 0) {
        if (e < 0) { e = j; if (it > 60) break; }
        else if (cmp(Z[j], Z[e]) < 0) e = j;
      }
      if (e < 0) break;
      int l = -1;
      Q best = {0, 1};
      for (int i = 0; i < nr; i++) {
        Q v = T[(long)i * w + e];
        if (v.n > 0) {
          Q t = dv(T[(long)i * w + nc], v);
          int cc = l < 0 ? -1 : cmp(t, best);
          if (l < 0 || cc < 0 || (cc == 0 && bas[i] < bas[l])) { best = t; l = i; }
        }
      }
      if (l < 0) { rc = 2; goto end; }
      pivot(T, nr + 2, w, l, e, nz);
      bas[l] = e;
      if (ovf) goto end;
    }
    if (it >= 600) goto end;
    if (phase == 0) {
      if (Z[nc].n != 0) { rc = 1; goto end; }
      for (int i = 0; i < nr; i++) if (bas[i] >= nc) {
        for (int j = 0; j < nc; j++) if (T[(long)i * w + j].n) {
          pivot(T, nr + 2, w, i, j, nz);
          bas[i] = j;
          if (ovf) goto end;
          break;
        }
      }
    }
  }
  rc = 0;
  out[0] = -T[(long)(nr + 1) * w + nc].n;
  out[1] = T[(long)(nr + 1) * w + nc].d;
end:
  if (ovf) rc = 3;
  free(T); free(bas); free(nz);
  return rc;
}
