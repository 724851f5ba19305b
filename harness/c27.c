/* C27: every step of NEWUOA and BOBYQA is that of the published method.
 *
 * A reference automaton, in extended precision and with dense linear algebra (the system of the least
 * Frobenius norm interpolation is inverted at every step), follows the evaluations.  The solutions of the
 * subproblems (trust-region step, improvement of the geometry) are only compared by the reduction of the model
 * or the denominator which they achieve, the points being taken as they are evaluated.  The choices which are
 * ties in exact arithmetic are followed as a set of hypotheses, the executions in which another decision is a
 * matter of rounding errors are not followed further. */
#include "powell.h"
typedef long double R;
#define PI_ 3.14159265358979323846L
#define MN 4
#define MP 15
#define MK (MP + MN + 1)
#define MB 24
enum { TR, GEO, LAST, STOP };
typedef struct {
  R y[MP][MN], f[MP], g[MN], H[MN][MN];  /* points relative to the start, values, model at the best point */
  R delta, rho, ratio, dnorm, adelt, diff[3], red, base[MN]; int kopt, itest, type, knew, nf, nfsav;
  R Z[MK][MK]; int nosys;                /* inverse of the system (centered at the best point, unit RHOBEG) */
} hyp;
typedef struct { int n, npt, alg, nh; R rb, rhoend; R x0[MN], lo[MN], hi[MN]; hyp h[MB]; } ref;
static ref G; static pw_t P; static char W[300]; static FILE *MF;
static double C_TR[2] = {0.97, 0.97}, C_GEO[2] = {0.95, 0.95};
/* ------------------------------------------------------------------ linear algebra */
static int invert(int m, R a[MK][MK], R z[MK][MK])
{
  int i, j, k, p; R t;
  for (i = 0; i < m; ++i) for (j = 0; j < m; ++j) z[i][j] = i == j;
  for (k = 0; k < m; ++k) {
    for (p = k, i = k + 1; i < m; ++i) if (fabsl(a[i][k]) > fabsl(a[p][k])) p = i;
    if (!(fabsl(a[p][k]) > 1e-13L)) return 0;
    if (p != k) for (j = 0; j < m; ++j) { t = a[p][j]; a[p][j] = a[k][j]; a[k][j] = t; t = z[p][j]; z[p][j] = z[k][j]; z[k][j] = t; }
    t = 1/a[k][k]; for (j = 0; j < m; ++j) { a[k][j] *= t; z[k][j] *= t; }
    for (i = 0; i < m; ++i) if (i != k && a[i][k] != 0) { t = a[i][k]; for (j = 0; j < m; ++j) { a[i][j] -= t*a[k][j]; z[i][j] -= t*z[k][j]; } }
  }
  return 1;
}
static R quad(int n, const R *g, R H[MN][MN], const R *d)
{ R q = 0; int i, j; for (i = 0; i < n; ++i) { R t = 0; for (j = 0; j < n; ++j) t += H[i][j]*d[j]; q += d[i]*(g[i] + t/2); } return q; }
static int tie(R a, R b) { return fabsl(a - b) <= 1e-6L*(fabsl(a) + fabsl(b)); }
#define TIE(a, b) do { if (tie(a, b)) mc_prune(); } while (0)
static R dotp(int n, const R *a, const R *b) { R s = 0; int i; for (i = 0; i < n; ++i) s += a[i]*b[i]; return s; }
static void hmul(int n, R H[MN][MN], const R *d, R *o) { int i; for (i = 0; i < n; ++i) o[i] = dotp(n, H[i], d); }
static R sqrn(const R *a) { return dotp(G.n, a, a); }
static R noise(const hyp *h)
{ R m = 0, t = 0; int i, j; for (i = 0; i < G.npt; ++i) if (fabsl(h->f[i] - h->f[h->kopt]) > m) m = fabsl(h->f[i] - h->f[h->kopt]);
  for (i = 0; i < G.n; ++i) for (j = 0; j < G.n; ++j) t += fabsl(h->H[i][j]); return 1e-11L*(m/G.rb + t*G.rb + fabsl(h->f[h->kopt])/G.rb); }
/* Truncated conjugate gradients and moves on the boundary within planes, whole circles (NEWUOA). */
static void trs_app(const hyp *h, R *d, R *crv)
{
  R s[MN], t[MN], hs[MN], gg, gg0, gs, c, bst, al, qa, ss = 0, ds = 0, dd, del2 = h->delta*h->delta; int it = 0, i, bd = 0, n = G.n;
  memset(d, 0, sizeof(R)*MN); *crv = 0; memcpy(t, h->g, sizeof t); gg = gg0 = dd = sqrn(t);
  if (gg0 == 0) return;
  for (i = 0; i < n; ++i) s[i] = -t[i];
  for (;;) {
    R red;
    ++it; bst = (del2 - ss)/(ds + sqrtl(ds*ds + dd*(del2 - ss))); hmul(n, (R(*)[MN])h->H, s, hs); c = dotp(n, s, hs); al = bst; bd = 1;
    if (c > 0) { R k = c/dd; *crv = it == 1 ? k : k < *crv ? k : *crv; TIE(gg/c, bst); if (gg/c < bst) { al = gg/c; bd = 0; } }
    qa = al*(gg - al*c/2); for (i = 0; i < n; ++i) { d[i] += al*s[i]; t[i] += al*hs[i]; }
    red = -quad(n, h->g, (R(*)[MN])h->H, d); gs = gg; gg = sqrn(t);
    if (bd) break;
    if (it >= n) return;
    TIE(qa, 0.01L*red); TIE(gg, 1e-4L*gg0); if (qa <= 0.01L*red || gg <= 1e-4L*gg0) return;
    for (i = 0; i < n; ++i) s[i] = gg/gs*s[i] - t[i];
    dd = sqrn(s); ds = dotp(n, d, s); ss = sqrn(d); if (ds <= 0) return; if (!(ss < del2)) break;
  }
  *crv = 0;
  for (;;) {
    R e[MN], hd[MN], sg, shs, dg, dhd, dhs, cf, q0, qm, q, qs, a = 0, b = 0, k, th; int is = 0, red_;
    TIE(gg, 1e-4L*gg0); if (gg <= 1e-4L*gg0) return;
    sg = dotp(n, d, h->g); for (shs = i = 0; i < n; ++i) shs += d[i]*(t[i] - h->g[i]);
    k = (sg + shs)/sqrtl(gg*del2); TIE(1 + k, 0.01L); if (k <= -0.99L) return;
    ++it; b = sqrtl(del2*gg - (sg + shs)*(sg + shs));
    for (i = 0; i < n; ++i) e[i] = del2/b*t[i] - (sg + shs)/b*d[i];
    hmul(n, (R(*)[MN])h->H, e, hd); dg = dotp(n, e, h->g); dhd = dotp(n, e, hd); dhs = dotp(n, d, hd);
    cf = (shs - dhd)/2; q0 = qs = qm = sg + cf; a = b = 0;
    for (i = 1; i <= 49; ++i) { th = 2*PI_*i/50; q = (sg + cf*cosl(th))*cosl(th) + (dg + dhs*cosl(th))*sinl(th);
      if (q < qm) { qm = q; is = i; a = qs; } else if (i == is + 1) b = q; qs = q; }
    if (is == 0) a = qs; if (is == 49) b = q0;
    th = 0; if (a != b) { a -= qm; b -= qm; th = (a - b)/(a + b)/2; } th = 2*PI_*(is + th)/50;
    hmul(n, (R(*)[MN])h->H, e, hd); for (i = 0; i < n; ++i) d[i] = cosl(th)*d[i] + sinl(th)*e[i];
    hmul(n, (R(*)[MN])h->H, d, hd); for (i = 0; i < n; ++i) t[i] = h->g[i] + hd[i]; gg = sqrn(t);
    qa = q0 - (sg + cf*cosl(th))*cosl(th) - (dg + dhs*cosl(th))*sinl(th);
    red_ = it < n; if (!red_) return;
    { R red = -quad(n, h->g, (R(*)[MN])h->H, d); TIE(qa, 0.01L*red); if (!(qa > 0.01L*red)) return; }
  }
}
/* The same within bounds, with quarters of circle (BOBYQA).  GN is the final gradient of the model. */
static void trs_box(const hyp *h, R *d, R *crv, R *gn)
{
  const R *xo = h->y[h->kopt]; R s[MN], hs[MN], gr = 0, gs, sq, resid, ds, shs, bl, st, dec, qr = 0, del2 = h->delta*h->delta, beta = 0, nz = noise(h); int fix[MN], it = 0, itmax = 0, na = 0, i, n = G.n, ia, restart = 1;
  memset(d, 0, sizeof(R)*MN); memset(s, 0, sizeof s); memcpy(gn, h->g, sizeof(R)*MN); *crv = -1;
  for (i = 0; i < n; ++i) { fix[i] = xo[i] <= G.lo[i] && gn[i] >= 0 ? -1 : xo[i] >= G.hi[i] && gn[i] <= 0 ? 1 : 0; if ((xo[i] <= G.lo[i] || xo[i] >= G.hi[i]) && fabsl(gn[i]) < nz) mc_prune(); na += fix[i] != 0; }
  for (;;) {
    if (restart) beta = 0;
    for (sq = i = 0; i < n; ++i) { s[i] = fix[i] ? 0 : beta*s[i] - gn[i]; sq += s[i]*s[i]; }
    if (sq == 0) goto end;
    if (restart) { gr = sq; itmax = it + n - na; }
    restart = 0;
    TIE(gr*del2, qr*1e-4L*qr); if (gr*del2 <= qr*1e-4L*qr) goto end;
    hmul(n, (R(*)[MN])h->H, s, hs);
    resid = del2; for (ds = shs = i = 0; i < n; ++i) if (!fix[i]) { resid -= d[i]*d[i]; ds += s[i]*d[i]; shs += s[i]*hs[i]; }
    if (resid <= 0) break;
    { R t = sqrtl(sq*resid + ds*ds); bl = ds < 0 ? (t - ds)/sq : resid/(t + ds); }
    st = bl; if (shs > 0) { TIE(gr/shs, bl); if (gr/shs < st) st = gr/shs; }
    for (ia = -1, i = 0; i < n; ++i) if (s[i] != 0) { R t = ((s[i] > 0 ? G.hi[i] : G.lo[i]) - xo[i] - d[i])/s[i]; TIE(t, st); if (t < st) { st = t; ia = i; } }
    dec = 0;
    if (st > 0) { R c = shs/sq;
      ++it; if (ia < 0 && c > 0) *crv = *crv == -1 ? c : c < *crv ? c : *crv;
      gs = gr; gr = 0;
      for (i = 0; i < n; ++i) { gn[i] += st*hs[i]; if (!fix[i]) gr += gn[i]*gn[i]; d[i] += st*s[i]; }
      dec = st*(gs - st*shs/2); if (dec < 0) dec = 0; qr += dec;
    } else gs = gr;
    if (ia >= 0) { ++na; fix[ia] = s[ia] < 0 ? -1 : 1; del2 -= d[ia]*d[ia]; if (del2 <= 0) break; restart = 1; continue; }
    if (st < bl) { if (it == itmax) goto end; TIE(dec, 0.01L*qr); if (dec <= 0.01L*qr) goto end; beta = gr/gs; continue; }
    break;
  }
  *crv = 0;
 again:
  if (na >= n - 1) goto end;
  { R dr = 0, dg = 0, hr[MN], t, ab, a1, a2, best, bp, bn, prev, th; int iu, is; R side;
    gr = 0; for (i = 0; i < n; ++i) { s[i] = fix[i] ? 0 : d[i]; if (!fix[i]) { dr += d[i]*d[i]; dg += d[i]*gn[i]; gr += gn[i]*gn[i]; } }
    hmul(n, (R(*)[MN])h->H, s, hr);
    for (;;) {
      R sh = 0, dh = 0, hh = 0, ct, sn;
      t = gr*dr - dg*dg; TIE(t, qr*1e-4L*qr); if (t <= qr*1e-4L*qr) goto end;
      t = sqrtl(t); for (i = 0; i < n; ++i) s[i] = fix[i] ? 0 : (dg*d[i] - dr*gn[i])/t;
      ab = 1; ia = -1; side = 0;
      for (i = 0; i < n; ++i) if (!fix[i]) { R u, ssq;
        a1 = xo[i] + d[i] - G.lo[i]; a2 = G.hi[i] - xo[i] - d[i];
        if (a1 <= 0) { ++na; fix[i] = -1; goto again; } if (a2 <= 0) { ++na; fix[i] = 1; goto again; }
        ssq = d[i]*d[i] + s[i]*s[i];
        u = xo[i] - G.lo[i]; TIE(ssq, u*u); u = ssq - u*u; if (u > 0) { u = sqrtl(u) - s[i]; TIE(ab*u, a1); if (ab*u > a1) { ab = a1/u; ia = i; side = -1; } }
        u = G.hi[i] - xo[i]; TIE(ssq, u*u); u = ssq - u*u; if (u > 0) { u = sqrtl(u) + s[i]; TIE(ab*u, a2); if (ab*u > a2) { ab = a2/u; ia = i; side = 1; } } }
      hmul(n, (R(*)[MN])h->H, s, hs);
      for (i = 0; i < n; ++i) if (!fix[i]) { sh += s[i]*hs[i]; dh += d[i]*hs[i]; hh += d[i]*hr[i]; }
      best = bp = bn = prev = 0; is = 0; iu = (int)(ab*17 + 3.1L);
#define RED_(a) (sn = 2*(a)/(1 + (a)*(a)), sn*((a)*dg + t - sn*(sh + (a)*((a)*hh - 2*dh))/2))
      for (i = 1; i <= iu; ++i) { R a = ab*i/iu, r = RED_(a); if (r > best) { best = r; is = i; bp = prev; } else if (i == is + 1) bn = r; prev = r; }
      if (is == 0) goto end;
      th = ab*is/iu; if (is < iu) th = ab*(is + (bn - bp)/(2*best - bp - bn)/2)/iu;
      ct = (1 - th*th)/(1 + th*th); dec = RED_(th); sn = 2*th/(1 + th*th); if (dec <= 0) goto end;
      dg = gr = 0;
      for (i = 0; i < n; ++i) { gn[i] += (ct - 1)*hr[i] + sn*hs[i]; if (!fix[i]) { d[i] = ct*d[i] + sn*s[i]; dg += d[i]*gn[i]; gr += gn[i]*gn[i]; } hr[i] = ct*hr[i] + sn*hs[i]; }
      qr += dec;
      if (ia >= 0 && is == iu) { ++na; fix[ia] = (int)side; goto again; }
      TIE(dec, 0.01L*qr); if (!(dec > 0.01L*qr)) goto end;
    } }
 end:
  for (i = 0; i < n; ++i) { R v = xo[i] + d[i]; if (v < G.lo[i] || fix[i] == -1) v = G.lo[i]; if (v > G.hi[i] || fix[i] == 1) v = G.hi[i]; d[i] = v - xo[i]; }
}
/* ------------------------------------------------------------------ interpolation */
static void system_(hyp *h)
{ /* inverse of the system centered at the best point */
  int m = G.npt + G.n + 1, i, j, k; R a[MK][MK], u[MP][MN];
  for (i = 0; i < G.npt; ++i) for (j = 0; j < G.n; ++j) u[i][j] = (h->y[i][j] - h->y[h->kopt][j])/G.rb;
  memset(a, 0, sizeof a);
  for (i = 0; i < G.npt; ++i) {
    for (j = 0; j < G.npt; ++j) { R s = 0; for (k = 0; k < G.n; ++k) s += u[i][k]*u[j][k]; a[i][j] = s*s/2; }
    a[i][G.npt] = a[G.npt][i] = 1; for (k = 0; k < G.n; ++k) a[i][G.npt + 1 + k] = a[G.npt + 1 + k][i] = u[i][k];
  }
  if (!invert(m, a, h->Z)) mc_prune();
}
/* Values of the Lagrange functions at best point + D, and the parameter of the update. */
static R lagrange(const hyp *h, const R *d, R *tau)
{
  int m = G.npt + G.n + 1, i, j, k; R w[MK], s, b, dd = 0;
  for (i = 0; i < G.npt; ++i) { for (s = k = 0; k < G.n; ++k) s += (h->y[i][k] - h->y[h->kopt][k])/G.rb*d[k]/G.rb; w[i] = s*s/2; }
  w[G.npt] = 1; for (k = 0; k < G.n; ++k) { w[G.npt + 1 + k] = d[k]/G.rb; dd += d[k]*d[k]/G.rb/G.rb; }
  b = dd*dd/2;
  for (i = 0; i < m; ++i) { for (s = j = 0; j < m; ++j) s += h->Z[i][j]*w[j]; if (i < G.npt) tau[i] = s; b -= w[i]*s; }
  return b;
}
/* Gradient (at the best point) and Hessian of sum of V[i]*(i-th Lagrange function). */
static void combine(const hyp *h, const R *v, R *g, R H[MN][MN])
{
  int i, j, k, l; R lam[MP], u;
  memset(H, 0, sizeof(R)*MN*MN);
  for (j = 0; j < G.n; ++j) g[j] = 0;
  for (i = 0; i < G.npt; ++i) { lam[i] = 0; for (j = 0; j < G.npt; ++j) lam[i] += h->Z[i][j]*v[j]; }
  for (k = 0; k < G.n; ++k) { for (u = j = 0; j < G.npt; ++j) u += h->Z[G.npt + 1 + k][j]*v[j]; g[k] = u/G.rb; }
  for (i = 0; i < G.npt; ++i) for (k = 0; k < G.n; ++k) for (l = 0; l < G.n; ++l)
    H[k][l] += lam[i]*(h->y[i][k] - h->y[h->kopt][k])*(h->y[i][l] - h->y[h->kopt][l])/(G.rb*G.rb*G.rb*G.rb);
}
static int near(R a, R b) { return fabsl(a - b) <= 1e-6L*(fabsl(a) + fabsl(b)); }
static R dist2(const R *a, const R *b) { R s = 0; int i; for (i = 0; i < G.n; ++i) s += (a[i] - b[i])*(a[i] - b[i]); return s; }
/* Square of the denominator's square root when point KNEW is replaced by the best point plus D. */
static R denominator(const hyp *h, const R *d, int k) { R tau[MP], b = lagrange(h, d, tau); return b*h->Z[k][k] + tau[k]*tau[k]; }
/* Denominator obtained by the published improving step of NEWUOA: great Lagrange function on the sphere. */
static int amb_bits, amb_n;
static int more(R a, R b) { return !tie(a, b) ? a > b : a == b ? 0 : (amb_bits >> amb_n++) & 1; }
static R biglag1(const hyp *h)
{
  R v[MP], g[MN], H[MN][MN], d[MN], s[MN], gd[MN], w[MN], gg, dd, sp, dhd, sc, tau, t = 0, D = h->adelt; int i, it, n = G.n;
  memset(v, 0, sizeof v); v[h->knew] = 1; combine(h, v, g, H);
  for (i = 0; i < n; ++i) d[i] = h->y[h->knew][i] - h->y[h->kopt][i];
  hmul(n, H, d, gd); gg = sqrn(g); dd = sqrn(d); sp = dotp(n, d, g); dhd = dotp(n, d, gd);
  sc = D/sqrtl(dd); if (fabsl(sp) < 1e-10L*sqrtl(dd*gg) || fabsl(dhd) < 1e-10L*sqrtl(dd*sqrn(gd)) || sqrtl(gg) < 1e-10L*D/sqrtl(dd)*sqrtl(sqrn(gd))) { if ((amb_bits >> amb_n++) & 1) sc = -sc; } else if (sp*dhd < 0) sc = -sc;
  if (more(sp*sp, dd*0.99L*gg)) t = 1;
  tau = sc*(fabsl(sp) + sc*fabsl(dhd)/2); if (more(tau*tau/100, gg*D*D)) t = 1;
  for (i = 0; i < n; ++i) { d[i] *= sc; gd[i] *= sc; s[i] = g[i] + t*gd[i]; }
  for (it = 1; it <= n; ++it) {
    R ss, c1, c2, c3, c4, c5, tb, tm, to, th, a = 0, b = 0; int is = 0;
    dd = sqrn(d); sp = dotp(n, d, s); ss = sqrn(s); t = dd*ss - sp*sp; if (fabsl(t - 1e-8L*dd*ss) < 1e-9L*dd*ss) mc_prune(); if (t <= 1e-8L*dd*ss) break;
    t = sqrtl(t); for (i = 0; i < n; ++i) s[i] = (dd*s[i] - sp*d[i])/t;
    hmul(n, H, s, w); c1 = dotp(n, s, w)/2; c2 = dotp(n, d, g); c3 = dotp(n, s, g); c4 = dotp(n, d, gd)/2 - c1; c5 = dotp(n, s, gd);
    tb = tm = to = c1 + c2 + c4;
    for (i = 1; i <= 49; ++i) { th = 2*PI_*i/50; tau = c1 + (c2 + c4*cosl(th))*cosl(th) + (c3 + c5*cosl(th))*sinl(th);
      if (more(fabsl(tau), fabsl(tm))) { tm = tau; is = i; a = to; } else if (i == is + 1) b = tau; to = tau; }
    if (is == 0) a = to; if (is == 49) b = tb;
    th = 0; if (a != b) { a -= tm; b -= tm; th = (a - b)/(a + b)/2; } th = 2*PI_*(is + th)/50;
    tau = c1 + (c2 + c4*cosl(th))*cosl(th) + (c3 + c5*cosl(th))*sinl(th);
    for (i = 0; i < n; ++i) { d[i] = cosl(th)*d[i] + sinl(th)*s[i]; gd[i] = cosl(th)*gd[i] + sinl(th)*w[i]; s[i] = g[i] + gd[i]; }
    if (!more(fabsl(tau), 1.1L*fabsl(tb))) break;
  }
  return denominator(h, d, h->knew);
}
/* The least one for all the choices which are ties. */
static R biglag(const hyp *h)
{
  R v = -1, t; int b = 0, m = 0;
  do { amb_bits = b; amb_n = 0; t = biglag1(h); if (v < 0 || t < v) v = t; if (amb_n > m) m = amb_n; if (m > 6) mc_prune(); } while (++b < (1 << m));
  return v;
}
/* Denominator obtained by the published alternative step of BOBYQA. */
static R altmov(const hyp *h)
{
  R v[MP], g[MN], H[MN][MN], bestp = -1, den, cp[4*MP], cq[4*MP], ca[2] = {0, 0}, alt[2][MN], ha = h->Z[h->knew][h->knew]/2; const R *xo = h->y[h->kopt]; int k, i, sg, nc = 0; R D = h->adelt, lowest = -1;
  memset(v, 0, sizeof v); v[h->knew] = 1; combine(h, v, g, H);
  { R t = 0; for (i = 0; i < G.n; ++i) t += sqrn(H[i]); if (sqrn(g) < 1e-14L*t*D*D) mc_prune(); }   /* stationary */
  for (k = 0; k < G.npt; ++k) if (k != h->kopt) {
    R u[MN], dd = 0, dq, lo, hi, lo0, hi0, one, step, val, t, p, least = -1; int o, edge = 0;
    for (dq = i = 0; i < G.n; ++i) { u[i] = h->y[k][i] - xo[i]; dd += g[i]*u[i]; dq += u[i]*u[i]; if (u[i] == 0 && (xo[i] == G.lo[i] || xo[i] == G.hi[i])) edge = 1; }
    hi = D/sqrtl(dq); lo = -hi; one = hi < 1 ? hi : 1;
    for (i = 0; i < G.n; ++i) { R l = G.lo[i] - xo[i], m = G.hi[i] - xo[i];
      if (u[i] > 0) { if (lo*u[i] < l) lo = l/u[i]; if (hi*u[i] > m) hi = m/u[i] > one ? m/u[i] : one; }
      else if (u[i] < 0) { if (lo*u[i] > m) lo = m/u[i]; if (hi*u[i] < l) hi = l/u[i] > one ? l/u[i] : one; } }
    lo0 = lo; hi0 = hi;
    /* Two points on the same bound may differ by some rounding error, which then restricts the line. */
    for (o = 0; o < (edge ? 4 : 1); ++o) { lo = o & 1 ? 0 : lo0; hi = o & 2 ? one : hi0;
    if (k == h->knew) { R df = dd - 1;
      step = lo; val = lo*(dd - lo*df); t = hi*(dd - hi*df); if (fabsl(t) > fabsl(val)) { step = hi; val = t; }
      if ((dd/2 - df*lo)*(dd/2 - df*hi) < 0) { t = dd*dd/4/df; if (fabsl(t) > fabsl(val)) { step = dd/2/df; val = t; } }
    } else {
      step = lo; val = lo*(1 - lo); t = hi*(1 - hi); if (fabsl(t) > fabsl(val)) { step = hi; val = t; }
      if (hi > 0.5L && fabsl(val) < 0.25L) { step = 0.5L; val = 0.25L; }
      val *= dd;
    }
    t = step*(1 - step)*dq/(G.rb*G.rb); p = val*val*(val*val + ha*t*t);
    { R e[MN]; for (i = 0; i < G.n; ++i) { e[i] = xo[i] + step*u[i]; if (e[i] < G.lo[i]) e[i] = G.lo[i]; if (e[i] > G.hi[i]) e[i] = G.hi[i]; e[i] -= xo[i]; }
      cp[nc] = p; cq[nc++] = denominator(h, e, h->knew); if (least < 0 || p < least) least = p; } }
    if (least > bestp) bestp = least;
  }
  for (k = 0; k < nc; ++k) if ((cp[k] > bestp || near(cp[k], bestp)) && (lowest < 0 || cq[k] < lowest)) lowest = cq[k];
  if (!(bestp > 0)) return 0;
  den = lowest;
  for (sg = 0; sg < 2; ++sg) { R w[MN], gf = 0, wf = 0, ws, step = 0, gw = 0, cv, sc = 1, tv[MN]; int fr[MN];
    if (sg) for (i = 0; i < G.n; ++i) g[i] = -g[i];
    for (i = 0; i < G.n; ++i) { R a = fminl(xo[i] - G.lo[i], g[i]), b = fmaxl(xo[i] - G.hi[i], g[i]); w[i] = 0; fr[i] = a > 0 || b < 0; if (fr[i]) gf += g[i]*g[i]; }
    memset(alt[sg], 0, sizeof alt[sg]);
    if (gf < 1e-16L*sqrn(g)) { if (gf != 0) mc_prune(); ca[0] = 0; break; }
    do { R t = D*D - wf; if (t <= 0) break; ws = wf; step = sqrtl(t/gf); gf = 0;
      for (i = 0; i < G.n; ++i) if (fr[i] == 1) { t = xo[i] - step*g[i]; if (t <= G.lo[i]) { w[i] = G.lo[i] - xo[i]; wf += w[i]*w[i]; fr[i] = 2; } else if (t >= G.hi[i]) { w[i] = G.hi[i] - xo[i]; wf += w[i]*w[i]; fr[i] = 2; } else gf += g[i]*g[i]; }
    } while (wf > ws && gf > 0);
    for (i = 0; i < G.n; ++i) { if (fr[i] == 1) w[i] = -step*g[i]; gw += g[i]*w[i]; tv[i] = w[i]; }
    for (cv = i = 0; i < G.n; ++i) cv += w[i]*dotp(G.n, H[i], w); if (sg) cv = -cv;
    if (cv > -gw && cv < -(1 + sqrtl(2))*gw) { sc = -gw/cv; ca[sg] = gw*sc/2; for (i = 0; i < G.n; ++i) tv[i] = sc*w[i]; } else ca[sg] = gw + cv/2;
    ca[sg] *= ca[sg];
    for (i = 0; i < G.n; ++i) { R t = xo[i] + tv[i]; alt[sg][i] = (t < G.lo[i] ? G.lo[i] : t > G.hi[i] ? G.hi[i] : t) - xo[i]; }
  }
  { R c = ca[0] > ca[1] ? ca[0] : ca[1];
    if (c > 0) { R d0 = denominator(h, alt[ca[0] > ca[1] ? 0 : 1], h->knew), d1 = denominator(h, alt[ca[0] > ca[1] ? 1 : 0], h->knew), r = -1;
      if (near(ca[0], ca[1]) && d1 < d0) d0 = d1;
      for (k = 0; k < nc; ++k) if (cp[k] > bestp || near(cp[k], bestp)) {
        if ((cq[k] > c || near(cq[k], c)) && (r < 0 || cq[k] < r)) r = cq[k];
        if ((cq[k] < c || near(cq[k], c)) && (r < 0 || d0 < r)) r = d0; }
      return r; } }
  return den;
}
/* ------------------------------------------------------------------ the automaton */
static hyp N[MB]; static int nn;
static void push(const hyp *h) { if (nn >= MB) mc_prune(); N[nn] = *h; ++nn; }
static void advance(const hyp *h0, int level);
static void next_rho(const hyp *h0, int last, int level)
{
  R q = h0->rho/G.rhoend; hyp h = *h0;
  if (!(h.rho > G.rhoend)) { h.type = last ? LAST : STOP; push(&h); return; }
  TIE(q, 16); TIE(q, 250);
  h.delta = h.rho/2; h.rho = q <= 16 ? G.rhoend : q <= 250 ? sqrtl(q)*G.rhoend : h.rho/10;
  if (h.delta < h.rho) h.delta = h.rho;
  h.nfsav = h.nf; advance(&h, level + 1);
}
/* Improve the geometry if a point is too far, otherwise take another trust-region step or reduce the radius. */
static void far_point(const hyp *h, int last, int level)
{
  R lim = 4*h->delta*h->delta, best = 0, d[MP], t; int k, any = 0; hyp c;
  if (G.alg == BOBYQA) lim = last ? 100*h->rho*h->rho : fmaxl(lim, 100*h->rho*h->rho);
  for (k = 0; k < G.npt; ++k) { d[k] = dist2(h->y[k], h->y[h->kopt]); if (d[k] > lim && !tie(d[k], lim) && d[k] > best) best = d[k]; }
  for (k = 0; k < G.npt; ++k) if (best > 0 ? d[k] == best || near(d[k], best) : tie(d[k], lim)) {
    c = *h; c.type = GEO; c.knew = k; t = sqrtl(d[k]); if (best > 0) any = 1;
    if (G.alg == NEWUOA) { t /= 10; if (t > h->delta/2) t = h->delta/2; if (t < h->rho) t = h->rho; }
    else { if (last) { c.delta = fminl(c.delta/10, t/2); TIE(c.delta, 1.5L*c.rho); if (c.delta <= 1.5L*c.rho) c.delta = c.rho; }
      t /= 10; t = t < c.rho ? c.rho : t > c.delta ? c.delta : t; }
    c.adelt = t; c.red = G.alg == BOBYQA ? altmov(&c) : biglag(&c); push(&c);
  }
  if (any) return;
  if (last && G.alg == BOBYQA) { next_rho(h, 1, level); return; }
  t = h->delta > h->dnorm ? h->delta : h->dnorm;
  if (t != h->rho && near(t, h->rho)) mc_prune();
  if (h->ratio > 0 || t > h->rho) advance(h, level + 1); else next_rho(h, last, level);
}
/* Trust-region step from the current state, with what follows when it is too short to be tried. */
static void advance(const hyp *h0, int level)
{
  R d[MN], gn[MN], crv, nrm, temp, err, gg, nz; hyp h = *h0; int i, j, noisy;
  if (level > 30) mc_prune();
  if (G.alg == NEWUOA) trs_app(&h, d, &crv); else trs_box(&h, d, &crv, gn);
  nz = noise(&h); gg = sqrtl(sqrn(h.g)); noisy = gg < nz; if (!noisy && gg < 1e3L*nz) mc_prune();
  nrm = sqrtl(sqrn(d)); if (nrm > h.delta) nrm = h.delta; h.dnorm = nrm; h.red = -quad(G.n, h.g, h.H, d);
  TIE(nrm, h.rho/2);
  if (nrm >= h.rho/2) { if (noisy) mc_prune(); h.type = TR; push(&h); return; }
  if (G.alg == NEWUOA) { h.ratio = -1; h.delta /= 10; TIE(h.delta, 1.5L*h.rho); if (h.delta <= 1.5L*h.rho) h.delta = h.rho; }
  if (h.nf <= h.nfsav + 2) { far_point(&h, 1, level); return; }
  err = fmaxl(fmaxl(h.diff[0], h.diff[1]), h.diff[2]); temp = crv*h.rho*h.rho/8;
  if (fabsl(temp - err) <= 1e-6L*(fabsl(temp) + fabsl(err)) + nz*G.rb || (noisy && temp < 1e4L*err)) mc_prune();
  if (G.alg == NEWUOA) { if (temp <= err) far_point(&h, 1, level); else next_rho(&h, 1, level); return; }
  if (crv > 0 && err > temp) { far_point(&h, 1, level); return; }
  for (j = 0; j < G.n; ++j) { R tol = err/h.rho, x = h.y[h.kopt][j] + d[j], b = x == G.hi[j] ? -gn[j] : x == G.lo[j] ? gn[j] : tol;
    if (b != tol && fabsl(b - tol) < nz) mc_prune();
    if (b < tol) { R c = 0; c = h.H[j][j]; b += c*h.rho/2; if (fabsl(b - tol) < nz) mc_prune(); if (b < tol) { far_point(&h, 1, level); return; } } }
  (void)i; next_rho(&h, 1, level);
}
/* Put the best point + D of value F in place of point K and go to what follows. */
static void replaced(const hyp *h0, int k, const R *d, R f, R fsave, R vquad)
{
  hyp h = *h0; R v[MP], gg[MN], HH[MN][MN], diff = f - fsave - vquad; int i, j, tr = h.type == TR, fork = 0;
  if (k >= 0) {
    R yn[MN]; for (i = 0; i < G.n; ++i) yn[i] = h.y[h.kopt][i] + d[i];
    if (k == h.kopt) {
      hyp t = h; memcpy(t.y[k], yn, sizeof yn); t.f[k] = f; t.kopt = k; system_(&t);
      memset(v, 0, sizeof v); v[k] = diff; combine(&t, v, gg, HH);
      for (i = 0; i < G.n; ++i) { R s = h.g[i]; for (j = 0; j < G.n; ++j) s += h.H[i][j]*d[j]; t.g[i] = s + gg[i]; }
      for (i = 0; i < G.n; ++i) for (j = 0; j < G.n; ++j) t.H[i][j] = h.H[i][j] + HH[i][j];
      h = t;
    } else {
      memcpy(h.y[k], yn, sizeof yn); h.f[k] = f; system_(&h);
      memset(v, 0, sizeof v); v[k] = diff; combine(&h, v, gg, HH);
      for (i = 0; i < G.n; ++i) { h.g[i] += gg[i]; for (j = 0; j < G.n; ++j) h.H[i][j] += HH[i][j]; }
      if (f < fsave) { hmul(G.n, h.H, d, gg); for (i = 0; i < G.n; ++i) h.g[i] += gg[i]; h.kopt = k; system_(&h); }
    }
    /* Least Frobenius norm interpolant when the model is much worse. */
    if (tr && (G.alg == BOBYQA || (h.delta == h.rho))) {
      R gi = 0, gq = 0, lim = G.alg == BOBYQA ? 10 : 100, nz = noise(&h);
      if (G.alg == NEWUOA && near(fabsl(h.ratio), 0.01L)) mc_prune();
      if (G.alg == NEWUOA && fabsl(h.ratio) > 0.01L) h.itest = 0;
      else {
        for (i = 0; i < G.npt; ++i) v[i] = h.f[i] - h.f[h.kopt];
        combine(&h, v, gg, HH);
        for (i = 0; i < G.n; ++i) { R a = h.g[i], b = gg[i], p = h.y[h.kopt][i];
          if (G.alg == NEWUOA) for (j = 0; j < G.n; ++j) { R u = h.y[h.kopt][j] - h.base[j]; a -= h.H[i][j]*u; b -= HH[i][j]*u; }
          else if (p <= G.lo[i]) { if (a > 0) a = 0; if (b > 0) b = 0; } else if (p >= G.hi[i]) { if (a < 0) a = 0; if (b < 0) b = 0; }
          gq += a*a; gi += b*b; }
        if (near(gq, lim*gi)) mc_prune();
        if (gq < nz*nz && lim*gi < nz*nz) fork = 1; else if (fabsl(sqrtl(gq) - sqrtl(lim*gi)) < nz) mc_prune();
        if (fork) { hyp t = h; t.itest = 0; if (!tr || f <= fsave + vquad/10) advance(&t, 0); else far_point(&t, 0, 0); }
        h.itest = !fork && gq < lim*gi ? 0 : h.itest + 1;
        if (h.itest >= 3) { memcpy(h.g, gg, sizeof gg); memcpy(h.H, HH, sizeof HH); h.itest = 0; mc_outcome("%s least norm interpolant", ALG[G.alg]); }
      }
    }
  }
  if (!tr || (k >= 0 && f <= fsave + vquad/10)) advance(&h, 0);
  else far_point(&h, 0, 0);
}
static void shift(hyp *h, R dsq) { R u[MN], x; int i; if (G.alg != NEWUOA) return; for (i = 0; i < G.n; ++i) u[i] = h->y[h->kopt][i] - h->base[i]; x = sqrn(u)/1000; if (x > 0) TIE(dsq, x); if (dsq <= x) memcpy(h->base, h->y[h->kopt], sizeof h->base); }
/* Choice of the point to be dropped after a trust-region step, then all the consequences. */
static void evaluated(hyp *h, const R *d, R f)
{
  R fsave = h->f[h->kopt], vq = quad(G.n, h->g, h->H, d), tau[MP], beta, crit[MP], rs, best = 0, dn = sqrtl(sqrn(d)), delta0 = h->delta, yn[MN]; int k, i;
  ++h->nf; shift(h, h->type == TR ? dn*dn : h->adelt*h->adelt);
  h->diff[2] = h->diff[1]; h->diff[1] = h->diff[0]; h->diff[0] = fabsl(f - fsave - vq);
  if (h->type == TR) { if (dn > h->delta) dn = h->delta; h->dnorm = dn; if (dn != h->rho && near(dn, h->rho) && dn != h->delta) dn = h->dnorm = h->rho; if (h->delta == h->rho && near(dn, h->rho)) dn = h->dnorm = h->rho; }
  if (h->dnorm > h->rho) h->nfsav = h->nf;
  if (h->type == GEO) { replaced(h, h->knew, d, f, fsave, vq); return; }
  h->ratio = (f - fsave)/vq;
  if (near(h->ratio, 0.1L) || near(h->ratio, 0.7L) || fabsl(h->ratio) < 1e-6L) mc_prune();
  if (G.alg == NEWUOA) h->delta = h->ratio <= 0.1L ? dn/2 : h->ratio <= 0.7L ? fmaxl(h->delta/2, dn) : fmaxl(h->delta/2, 2*dn);
  else h->delta = h->ratio <= 0.1L ? fminl(h->delta/2, dn) : h->ratio <= 0.7L ? fmaxl(h->delta/2, dn) : fmaxl(h->delta/2, 2*dn);
  TIE(h->delta, 1.5L*h->rho);
  if (h->delta <= 1.5L*h->rho) h->delta = h->rho;
  beta = lagrange(h, d, tau);
  for (i = 0; i < G.n; ++i) yn[i] = h->y[h->kopt][i] + d[i];
  for (k = 0; k < G.npt; ++k) {
    const R *c = f < fsave ? yn : h->y[h->kopt]; R w, dd = dist2(h->y[k], c);
    crit[k] = beta*h->Z[k][k] + tau[k]*tau[k];
    if (G.alg == NEWUOA) { rs = fmaxl(h->delta/10, h->rho); w = dd/(rs*rs); w = w > 1 ? w*w*w : 1; crit[k] = fabsl(crit[k])*w; }
    else { R del = f < fsave ? h->delta : delta0; w = dd/(del*del); w = w*w; if (w < 1) w = 1; crit[k] *= w; }
    if (f >= fsave && k == h->kopt) crit[k] = -1;
    if (crit[k] > best) best = crit[k];
  }
  if (G.alg == NEWUOA && f >= fsave) {
    if (best < 1 || near(best, 1)) replaced(h, -1, d, f, fsave, vq);
    if (best < 1 && !near(best, 1)) return;
  }
  if (!(best > 0)) mc_prune();
  for (k = 0; k < G.npt; ++k) if (crit[k] == best || near(crit[k], best)) replaced(h, k, d, f, fsave, vq);
}
/* Is D the next step of hypothesis H? */
static char wbuf[300]; static double worst;
static const char *TYPE[] = {"trust-region", "improving", "last", "none"};
static int consistent(hyp *h, const R *d)
{
  R dd = sqrtl(sqrn(d)), red; int i;
  worst = 1;
  if (h->type == STOP) { snprintf(wbuf, sizeof wbuf, "the run should have ended"); return 0; }
  if (h->type != GEO) {
    R lim = h->type == TR ? h->delta : h->rho/2;
    red = -quad(G.n, h->g, h->H, d);
    if (dd > lim*(1 + 1e-7L)) { snprintf(wbuf, sizeof wbuf, "%s step of length %.10Lg while at most %.10Lg is expected", TYPE[h->type], dd, lim); return 0; }
    if (h->type == TR && dd < h->rho*0.49L) { snprintf(wbuf, sizeof wbuf, "trust-region step of length %.10Lg while the least radius is %.10Lg", dd, h->rho); return 0; }
    if (h->red > 0) worst = (double)(red/h->red); 
    if (!(red >= C_TR[G.alg != NEWUOA]*h->red - noise(h)*G.rb)) { snprintf(wbuf, sizeof wbuf, "%s step (%.6Lg,%.6Lg,..) reduces the model by %.8Lg instead of %.8Lg within radius %.6Lg", TYPE[h->type], d[0], d[1], red, h->red, h->delta); return 0; }
    if (h->type == LAST) worst = 1;
  } else {
    R a = h->red, b = denominator(h, d, h->knew);
    if (dd > h->adelt*(1 + 1e-7L)) { snprintf(wbuf, sizeof wbuf, "improving step of length %.10Lg while the radius is %.10Lg", dd, h->adelt); return 0; }
    worst = (double)(sqrtl(fabsl(b))/sqrtl(a));
    if (!(worst >= C_GEO[G.alg != NEWUOA])) { snprintf(wbuf, sizeof wbuf, "improving step (%.6Lg,%.6Lg,..) for point (%.6Lg,%.6Lg,..): square root of denominator %.6Lg instead of %.6Lg within %.6Lg", d[0], d[1], h->y[h->knew][0], h->y[h->knew][1], sqrtl(fabsl(b)), sqrtl(a), h->adelt); return 0; }
  }
  return 1;
}
/* ------------------------------------------------------------------ scenarios */
typedef struct { int nalpha, depth, nt, ng, dev, kind; double rt[6], rg[4]; } scen;
static const double IRR[MP] = {0.1, 0.023, 0.051, -0.037, 0.011, -0.017, 0.043, 0.007, -0.029, 0.019, 0.003, -0.041, 0.013, 0.031, -0.005};
static int left;
static int answer(int n, int dev) { int t; if (!dev) return mc_choose(n); if (left <= 0) return 0; t = mc_choose(n); if (t) --left; return t; }
/* An actual function of the displacement. */
static R actual(int kind, const R *y)
{
  R f = 0, u[MN]; int i;
  for (i = 0; i < G.n; ++i) u[i] = y[i]/G.rb - (i % 2 ? -1.37L : 2.13L)*(1 + i/2);
  switch (kind) {
  case 1: for (i = 0; i < G.n; ++i) f += (i + 1)*u[i]*u[i]/2 + (i ? 0.31L*u[i]*u[i-1] : 0); break;
  case 2: for (i = 0; i < G.n; ++i) f += u[i]*u[i]*(0.5L + 0.11L*u[i]*u[i]) + (i ? 0.37L*u[i]*u[i-1] : 0); break;
  case 3: for (i = 1; i < G.n; ++i) { R a = u[i] - u[i-1]*u[i-1]/3, b = 1 - u[i-1]; f += a*a + 0.3L*b*b; } break;
  default: for (i = 0; i < G.n; ++i) f += expl(0.4L*u[i]) - 0.7L*u[i] + (i ? 0.13L*u[i]*u[i-1]*u[i]*u[i-1] : 0); break;
  }
  return f;
}
static double follow(pw_t *p, const double *x, double *c)
{
  static const double A[3] = {0, 1, -0.7}; const scen *S = p->ptr;
  int k = p->nev, i, j, nk; R y[MN], d[MN]; double f;
  (void)c;
  for (i = 0; i < G.n; ++i) { y[i] = (R)x[i] - G.x0[i]; if (x[i] == p->xl[i]) y[i] = G.lo[i]; else if (x[i] == p->xu[i]) y[i] = G.hi[i]; }
  if (G.alg == BOBYQA) for (i = 0; i < G.n; ++i) MC_CHECK(x[i] >= p->xl[i] && x[i] <= p->xu[i], "bounds", "%s: evaluation %d: variable %d is %.17g, bounds %.17g %.17g", W, k + 1, i, x[i], p->xl[i], p->xu[i]);
  if (k < G.npt) { hyp *h = &G.h[0]; R e[MN]; int a, b;
    f = S->kind ? (double)actual(S->kind, y)*p->par[0] : A[mc_choose(S->nalpha)]*p->par[0] + IRR[k]*p->par[0];
    if (k == 0) memset(h, 0, sizeof *h), left = S->dev;
    for (i = 0; i < G.n; ++i) e[i] = 0;                   /* published initial points */
    if (k >= 1 && k <= G.n) e[k - 1] = G.hi[k - 1] == 0 && G.alg == BOBYQA ? -G.rb : G.rb;
    else if (k > G.n && k <= 2*G.n) { a = k - G.n - 1; e[a] = -G.rb; if (G.alg == BOBYQA) { if (G.lo[a] == 0) e[a] = 2*G.rb; if (G.hi[a] == 0) e[a] = -2*G.rb; } }
    else if (k > 2*G.n) { int it = (k - G.n - 1)/G.n, jp = k - it*G.n - G.n, ip = jp + it; if (ip > G.n) { it = jp; jp = ip - G.n; ip = it; }
      a = ip - 1; b = jp - 1;
      e[a] = G.alg == NEWUOA ? (h->f[ip + G.n] < h->f[ip] ? -G.rb : G.rb) : h->y[ip][a];
      e[b] = G.alg == NEWUOA ? (h->f[jp + G.n] < h->f[jp] ? -G.rb : G.rb) : h->y[jp][b]; }
    for (i = 0; i < G.n; ++i) MC_CHECK(fabsl(y[i] - e[i]) <= 1e-12L*(1 + fabsl(G.x0[i])), "initial-points", "%s: initial point %d: displacement %d is %.17Lg instead of %.17Lg", W, k, i, y[i], e[i]);
    for (i = 0; i < G.n; ++i) h->y[k][i] = y[i];
    h->f[k] = f; if (f < h->f[h->kopt]) h->kopt = k;
    if (G.alg == BOBYQA && k > G.n && k <= 2*G.n && f < h->f[k - G.n] && h->y[k][k - G.n - 1]*h->y[k - G.n][k - G.n - 1] < 0) { R t; for (i = 0; i < G.n; ++i) { t = h->y[k][i]; h->y[k][i] = h->y[k - G.n][i]; h->y[k - G.n][i] = t; } t = h->f[k]; h->f[k] = h->f[k - G.n]; h->f[k - G.n] = t; if (h->kopt == k) h->kopt = k - G.n; else if (h->kopt == k - G.n) h->kopt = k; }
    if (k == G.npt - 1) { R v[MP]; hyp s;
      h->delta = h->rho = G.rb; h->itest = 0; h->nf = h->nfsav = G.npt; h->ratio = -1; system_(h);
      for (i = 0; i < G.npt; ++i) v[i] = h->f[i] - h->f[h->kopt];
      combine(h, v, h->g, h->H); s = *h; nn = 0; advance(&s, 0); memcpy(G.h, N, nn*sizeof *N); G.nh = nn; }
    return f;
  }
  if (k >= G.npt + S->depth) mc_prune();
  for (snprintf(wbuf, sizeof wbuf, "no hypothesis is left"), nk = i = 0; i < G.nh; ++i) {
    for (j = 0; j < G.n; ++j) d[j] = y[j] - G.h[i].y[G.h[i].kopt][j];
    if (consistent(&G.h[i], d)) { if (MF) fprintf(MF, "%s %d %d %d %s %d %g\n", ALG[G.alg], G.n, G.npt, k - G.npt, G.h[i].type == TR ? "tr" : G.h[i].type == GEO ? "geo" : "last", G.nh, worst); if (nk != i) G.h[nk] = G.h[i]; ++nk; }
  }
  MC_CHECK(nk > 0, "step", "%s: evaluation %d: %s (%d hypotheses)", W, k + 1, wbuf, G.nh);
  G.nh = nk; mc_traces(1);
  for (j = 0; j < G.n; ++j) d[j] = y[j] - G.h[0].y[G.h[0].kopt][j];
  { hyp *h = &G.h[0]; R vq = quad(G.n, h->g, h->H, d), fo = h->f[h->kopt];
    if (S->kind) { int a = answer(h->type == LAST ? 1 : S->nt, 1); if (h->delta > 50*G.rb) mc_prune(); f = a ? (double)(fo + S->rt[a - 1]*vq) : (double)actual(S->kind, y)*p->par[0]; }
    else if (h->type == TR) f = (double)(fo + S->rt[answer(S->nt, S->dev)]*vq);
    else if (h->type == LAST) f = (double)(fo + (mc_choose(2) ? -1 : 1)*p->par[0]/100);
    else { R s = fabsl(vq); for (i = 0; i < G.npt; ++i) if (fabsl(h->f[i] - fo) > s*4) s = fabsl(h->f[i] - fo)/4; f = (double)(fo + vq + S->rg[answer(S->ng, S->dev)]*s); }
    mc_log("evaluation %d %s d=(%Lg,%Lg) delta=%Lg rho=%Lg predicted %Lg answer %g (%d hypotheses)", k + 1, TYPE[h->type], d[0], d[1], h->delta, h->rho, vq, f, G.nh);
    mc_state_u64(mc_hash((uint64_t)(h->type + 4*k), x, sizeof(double)*G.n)); mc_outcome("%s %s step", ALG[G.alg], TYPE[h->type]); }
  for (nn = 0, i = 0; i < nk; ++i) { hyp *h = &G.h[i];
    for (j = 0; j < G.n; ++j) d[j] = y[j] - h->y[h->kopt][j];
    if (h->type == LAST) { h->type = STOP; push(h); } else evaluated(h, d, f); }
  memcpy(G.h, N, nn*sizeof *N); G.nh = nn;
  return f;
}
/* BOX: digit of each variable: 0 free, 1 starts at the lower bound, 2 at the upper one, 3 near the lower bound (moved), 4 lower bound at 1.2 radius */
static void run(int alg, int n, int npt, scen *S, int variant, int box)
{
  int i, k;
  if (!P.X) pw_init(&P);
  P.alg = alg; P.n = n; P.npt = npt; P.fun = follow; P.plain = 1; P.maxfun = npt + S->depth + 1; P.ptr = S;
  P.rhobeg = variant == 1 ? 0.01 : 0.5; P.rhoend = P.rhobeg*(variant == 2 ? 0.3 : variant == 3 ? 0.01 : variant == 4 ? 1./150 : variant == 5 ? 0.05 : 0.001); P.par[0] = variant == 1 ? 1e4 : 1;
  G.alg = alg; G.n = n; G.npt = npt; G.rb = P.rhobeg; G.rhoend = P.rhoend; G.nh = 0;
  for (i = 0; i < n; ++i) { double x0 = variant == 2 ? 0 : 0.25*i - 0.125, rb = P.rhobeg; long b = box; int t; for (t = 0; t < i; ++t) b /= 5; t = (int)(b % 5);
    P.x0[i] = x0; P.xl[i] = -1e3; P.xu[i] = 1e3;
    if (t == 1) P.xl[i] = x0; else if (t == 2) P.xu[i] = x0; else if (t == 3) { P.xl[i] = x0 - 0.25*rb; x0 = P.xl[i] + rb; } else if (t == 4) { P.xl[i] = x0 - 1.25*rb; P.xu[i] = x0 + 1.5*rb; }
    G.x0[i] = x0; G.lo[i] = (R)P.xl[i] - x0; G.hi[i] = (R)P.xu[i] - x0; }
  snprintf(W, sizeof W, "%s(n=%d, npt=%d, radius %g, variant %d, box %d)", ALG[alg], n, npt, P.rhobeg, variant, box);
  pw_run(&P);
  if (P.nev > npt && P.status != (alg == NEWUOA ? (int)NEWUOA_SUCCESS : (int)BOBYQA_SUCCESS)) return; /* see C20, C24 */
  for (i = 0; i < G.nh; ++i) if (G.h[i].type == STOP) break;
  MC_CHECK(i < G.nh, "end", "%s: the run ends after %d evaluations (status %d) while the next step is %s within %Lg (%d hypotheses)", W, P.nev, P.status, TYPE[G.h[0].type], G.h[0].delta, G.nh);
  for (k = 0, i = 1; i < P.nev; ++i) if (P.F[i] < P.F[k]) k = i;
  MC_CHECK(P.f == P.F[k] && !memcmp(P.x, P.X[k], n*sizeof *P.x), "result", "%s: final value %.17g at (%.17g,...), the least one is %.17g at (%.17g,...)", W, P.f, P.x[0], P.F[k], P.X[k][0]);
  mc_outcome("%s complete run", ALG[alg]);
}
#define S_ANY(na, dep, t, g) { na, dep, t, g, 0, 0, {0.8, 0.4, -0.6, 1.4, 0.05, -3}, {0.4, -0.7, 1.3, -4} }
static long n_two(void) { return 2*3*QT(2, 3); }
static void run_two(long c) { int alg = mc_digit(&c, 2), np = mc_digit(&c, 3); scen s = S_ANY(3, QT(4, 5), 6, 4); run(alg, 2, 4 + np, &s, c == 1 ? 2 : c == 2 ? 1 : 0, 0); }
static long n_three(void) { return 2*4*QT(2, 3); }
static void run_three(long c) { static const int NP[4] = {5, 6, 7, 10}; int alg = mc_digit(&c, 2), np = mc_digit(&c, 4); scen s = S_ANY(np < 3 ? 3 : 2, QT(3, 4), 4, 2); run(alg, 3, NP[np], &s, c == 1 ? 2 : c == 2 ? 1 : 0, 0); }
static long n_four(void) { return 2*3*2; }
static void run_four(long c) { static const int NP[3] = {6, 9, 15}; int alg = mc_digit(&c, 2), np = mc_digit(&c, 3); scen s = S_ANY(2, np == 2 ? QT(1, 2) : QT(3, 4), 3, 2); run(alg, 4, NP[np], &s, (int)c, 0); }
static long n_box(void) { return 25*3*2; }
static void run_box(long c) { int box = mc_digit(&c, 25), np = mc_digit(&c, 3); scen s = S_ANY(3, QT(3, 4), 5, 3); run(BOBYQA, 2, 4 + np, &s, c ? 0 : 1, box); }
static long n_box3(void) { return 125*2; }
static void run_box3(long c) { int box = mc_digit(&c, 125), np = mc_digit(&c, 2); scen s = S_ANY(2, QT(3, 4), 4, 2); run(BOBYQA, 3, np ? 7 : 5, &s, 0, box); }
#define LB 20
static long n_life(void) { return 2*4*5*5*LB; }
static void run_life(long c)
{ static const int B[LB] = {0, 13, 1,2,3,4,6,7,8,9,11,12,16,17,18,19,21,22,23,24};
  static const int NN[5] = {2, 2, 3, 3, 4}, NP[5] = {5, 6, 7, 10, 9};
  int alg = mc_digit(&c, 2), kind = mc_digit(&c, 4), w = mc_digit(&c, 5), v = mc_digit(&c, 5);
  scen s = { 0, 70, 5, 0, QT(1, 2), 1 + kind, {0.4, -0.6, 0.05, 1.5}, {0} }; if (c && alg != BOBYQA) return;
  run(alg, NN[w], NP[w], &s, v + 1, alg == BOBYQA ? B[c] : 0); }
static long n_flat(void) { return 2*3*2*2; }
static void run_flat(long c) { int alg = mc_digit(&c, 2), np = mc_digit(&c, 3); scen s = { 2, QT(7, 8), 3, 2, 0, 0, {0.005, -0.005, 0.8}, {0.1, -0.3} }; if (mc_digit(&c, 2)) s.rt[0] = 0.05, s.rt[1] = -0.05, s.depth = QT(5, 7); run(alg, 2, 4 + np, &s, c ? 0 : 2, 0); }
static mc_suite suites[] = {
  { "two", "2 variables, 4 to 6 points: all initial values over 3, then all answers", 0, run_two, 1 },
  { "three", "3 variables, 5 to 10 points", 0, run_three, 1 },
  { "four", "4 variables, 6 to 15 points", 0, run_four, 1 },
  { "box", "2 variables within bounds of all kinds (BOBYQA)", 0, run_box, 1 },
  { "box3", "3 variables within bounds of all kinds (BOBYQA)", 0, run_box3, 1 },
  { "life", "complete runs on 4 functions, except for the answers at a few evaluations", 0, run_life, 1 },
  { "flat", "2 variables, the values hardly change: replacement of the model by the least norm interpolant", 0, run_flat, 1 },
};
int mc_suites(const mc_suite **list)
{ suites[0].ncfg = n_two(); suites[1].ncfg = n_three(); suites[2].ncfg = n_four(); suites[3].ncfg = n_box(); suites[4].ncfg = n_box3(); suites[5].ncfg = n_life(); suites[6].ncfg = n_flat(); *list = suites; return (int)(sizeof suites/sizeof *suites); }
void mc_harness_init(void) { const char *s = getenv("C27_MEASURE"); if (s) { MF = fopen(s, "a"); setvbuf(MF, NULL, _IOLBF, 0); if ((s = getenv("C27_TR"))) C_TR[0] = C_TR[1] = atof(s); if ((s = getenv("C27_GEO"))) C_GEO[0] = C_GEO[1] = atof(s); } }
