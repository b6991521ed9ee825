/* Runs the real library code against the contracts, on concrete inputs. Used to replay a
 * failed obligation and as the bounded stand-in where a function is out of the verifier's
 * reach. Every case is one text line; "case <line>" runs exactly that one.
 *
 * usage: oracle search <mode> <fn> <S> <seed> <count> <seconds>     oracle case <line>
 * prints FAIL class=<c> case=<line> what=<...>                      exit 1 if it fails */
#define _GNU_SOURCE
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <math.h>
#include <limits.h>
#include <stdint.h>
#include <time.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include "ta_libc.h"
#include "fntab.h"
#include "params.h"
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(a,b)
#define ASAN_UNPOISON_MEMORY_REGION(a,b)
#endif

/* ---- allocation hooks (linked with --wrap) */
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void __real_free(void*); void *__real_realloc(void*, size_t);
static int hook, nalloc, failat, live, filled; static unsigned char fillb;
#define MAXL 4096
static void *lv[MAXL];
static void *note(void *p, size_t n, int f) {
  if (p) { for (int i = 0; i < MAXL; i++) if (!lv[i]) { lv[i] = p; live++; break; } if (f) memset(p, fillb, n); }
  return p;
}
void *__wrap_malloc(size_t n) { if (!hook) return __real_malloc(n); if (++nalloc == failat) return 0; return note(__real_malloc(n ? n : 1), n, 1); }
void *__wrap_calloc(size_t a, size_t b) { if (!hook) return __real_calloc(a, b); if (++nalloc == failat) return 0; return note(__real_calloc(a, b), a * b, 0); }
void *__wrap_realloc(void *p, size_t n) { if (!hook) return __real_realloc(p, n); if (++nalloc == failat) return 0;
  if (p) for (int i = 0; i < MAXL; i++) if (lv[i] == p) { lv[i] = 0; live--; break; }
  return note(__real_realloc(p, n), n, 0); }
void __wrap_free(void *p) { if (hook && p) for (int i = 0; i < MAXL; i++) if (lv[i] == p) { lv[i] = 0; live--; break; } __real_free(p); }

/* ---- PRNG */
static uint64_t rs;
static uint32_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (uint32_t)(rs >> 16); }
static int ri(int a, int b) { return b <= a ? a : a + (int)(rnd() % (uint32_t)(b - a + 1)); }
static double rd(void) { return (rnd() & 0xffffff) / 16777216.0; }

typedef struct { const fnent *f; const fnpar *p; int s; optv o[10]; int start, end, unst, compat, cand, dk; uint32_t ds; int ai, ao, fail, null; } tcase;
#define NOPT(c) ((int)strlen((c)->f->opt))
#define NOUT(c) ((int)strlen((c)->f->out))

static char linebuf[1200];
static const char *show(const tcase *c) {
  int n = sprintf(linebuf, "fn=%s;s=%d;start=%d;end=%d;unst=%d;compat=%d;cand=%d;data=%d:%u;alias=%d:%d;fail=%d;null=%d;opts=", c->f->name, c->s, c->start, c->end, c->unst, c->compat, c->cand, c->dk, c->ds, c->ai, c->ao, c->fail, c->null);
  for (int i = 0; i < NOPT(c); i++) n += c->f->opt[i] == 'd' ? sprintf(linebuf + n, "%.17g,", c->o[i].d) : sprintf(linebuf + n, "%d,", c->o[i].i);
  return linebuf;
}
static const fnent *find(const char *n) { for (int i = 0; i < fntab_n; i++) if (!strcmp(fntab[i].name, n)) return fntab + i; return 0; }
static const fnpar *findp(const char *n) { for (int i = 0; i < fnpar_n; i++) if (!strcmp(fnpar_tab[i].name, n)) return fnpar_tab + i; return 0; }
static int parse(tcase *c, const char *l) {
  char nm[64]; int n = 0; memset(c, 0, sizeof *c);
  if (sscanf(l, "fn=%63[^;];s=%d;start=%d;end=%d;unst=%d;compat=%d;cand=%d;data=%d:%u;alias=%d:%d;fail=%d;null=%d;opts=%n", nm, &c->s, &c->start, &c->end, &c->unst, &c->compat, &c->cand, &c->dk, &c->ds, &c->ai, &c->ao, &c->fail, &c->null, &n) != 13) return 0;
  if (!(c->f = find(nm)) || !(c->p = findp(nm))) return 0;
  const char *q = l + n;
  for (int i = 0; i < NOPT(c); i++) { char *e; if (c->f->opt[i] == 'd') c->o[i].d = strtod(q, &e); else c->o[i].i = (int)strtol(q, &e, 10); q = *e ? e + 1 : e; }
  return 1;
}

static int okopt(const tcase *c, int i) {
  const optpar *p = c->p->o + i;
  if (c->f->opt[i] == 'd') return c->o[i].d == TA_REAL_DEFAULT || (c->o[i].d >= p->min && c->o[i].d <= p->max);
  return c->o[i].i == TA_INTEGER_DEFAULT || (c->o[i].i >= p->min && c->o[i].i <= p->max);
}

/* ---- input data: OHLCV-consistent random walk, and adverse variants */
static double *base[8]; static int basen;
static void data(uint32_t seed, int kind, int n) {
  uint64_t sv = rs; rs = 0x9E3779B97F4A7C15ull ^ ((uint64_t)seed << 20) ^ seed; for (int i = 0; i < 8; i++) rnd();
  if (n > basen) { for (int i = 0; i < 8; i++) { free(base[i]); base[i] = malloc(sizeof(double) * (n + 1)); } basen = n; }
  double p = 50 + 100 * rd();
  for (int t = 0; t < n; t++) {
    double o = p, v = kind == 5 ? 3.0 : 1 + rd();
    double c = o + (rd() - 0.5) * v; if (c < 1) c = 1 + rd();
    if (kind == 1 && rnd() % 3 == 0) c = o;                        /* dojis */
    double h = (o > c ? o : c) + rd() * v * (rnd() % 4 == 0 ? 0 : 1), l = (o < c ? o : c) - rd() * v * (rnd() % 4 == 0 ? 0 : 1);
    if (l <= 0) l = 0.5 * (o < c ? o : c);
    if (kind == 2) { o = h = l = c = 7.0; }                        /* constant */
    if (kind == 1 && rnd() % 5 == 0) { h = o > c ? o : c; l = o < c ? o : c; }
    if (kind == 6) { o = floor(o); c = floor(c); h = floor(h) + 1; l = floor(l); }
    base[0][t] = o; base[1][t] = h; base[2][t] = l; base[3][t] = c; base[4][t] = floor((kind == 6 ? 900000 : 1000) * rd()); base[5][t] = floor(100 * rd());
    base[6][t] = c; base[7][t] = o;
    p = c + (rnd() % 5 == 0 ? (rd() - 0.5) * 3 : 0); if (p < 1) p = 1;
    if (kind == 3) for (int k = 0; k < 8; k++) { uint32_t q = rnd() % 40; base[k][t] = q == 0 ? NAN : q == 1 ? INFINITY : q == 2 ? -INFINITY : q == 3 ? 1e300 : q == 4 ? 0 : q == 5 ? -base[k][t] : base[k][t]; }
    if (kind == 4) for (int k = 0; k < 8; k++) base[k][t] = rnd() % 3 ? base[k][t] : 0;
  }
  rs = sv;
}
static int col(const char *ins, int k) {   /* which series feeds input k */
  static const char *nm[] = {"inOpen", "inHigh", "inLow", "inClose", "inVolume", "inOpenInterest"};
  char b[64]; int i = 0; const char *q = ins; while (k && *q) { if (*q == ',') k--; q++; }
  while (*q && *q != ',' && i < 63) b[i++] = *q++; b[i] = 0;
  for (int j = 0; j < 6; j++) if (!strcmp(b, nm[j])) return j;
  if (!strcmp(b, "inReal1") || !strcmp(b, "inPeriods")) return 7;
  return 6;
}

static void settings(const tcase *c) {
  for (int i = 0; i < TA_FUNC_UNST_ALL; i++) TA_SetUnstablePeriod((TA_FuncUnstId)i, c->unst < 0 ? (unsigned)(i % 7) : (unsigned)c->unst);
  TA_SetCompatibility(c->compat ? TA_COMPATIBILITY_METASTOCK : TA_COMPATIBILITY_DEFAULT);
  TA_RestoreCandleDefaultSettings(TA_AllCandleSettings);
  if (c->cand) for (int i = 0; i < TA_AllCandleSettings; i++) {
    static const int per[] = {0, 1, 2, 5, 10, 13};
    TA_SetCandleSettings((TA_CandleSettingType)i, (TA_RangeType)((c->cand + i) % 3), per[(c->cand * 7 + i) % 6], 0.1 + 0.3 * (i % 4));
  }
}

static char why[400]; static const char *cls; static char *shcls;
/* class of a crash while a call of this kind is running */
static void phase(const char *p) { cls = p; if (shcls) strcpy(shcls, p); }
static int bad(const char *c, const char *fmt, ...) { va_list a; va_start(a, fmt); cls = c; vsnprintf(why, sizeof why, fmt, a); va_end(a); return 1; }

static const uint64_t MARK = 0x7ff4dead5eedbeefull;
static void *hbuf(size_t n) { void *p = malloc(n ? n : 1); if (!n) ASAN_POISON_MEMORY_REGION(p, 1); return p; }
static void hfree(void *p, size_t n) { if (!p) return; ASAN_UNPOISON_MEMORY_REGION(p, n ? n : 1); free(p); }

typedef struct { int r, b, n, live; void *out[8]; size_t sz[8]; } res;

/* one call; out buffers hold exactly what the contract promises to write */
static int lbk, beg, nb, good;
static void run1(const tcase *c, unsigned char fill, int fail, int useAlias, res *R) {
  void *in[8] = {0}; size_t isz[8]; int es = c->s ? 4 : 8;
  int len = c->end >= 0 ? c->end + 1 : 0;
  for (int i = 0; i < c->f->nin; i++) {
    isz[i] = (size_t)len * es; in[i] = hbuf(isz[i]);
    int k = col(c->f->ins, i);
    for (int t = 0; t < len; t++) { double v = base[k][t]; if (!strcmp(c->f->name, "MAVP") && i == 1) v = 1 + fmod(fabs(base[5][t]), 40); if (c->s) ((float*)in[i])[t] = (float)v; else ((double*)in[i])[t] = v; }
  }
  for (int i = 0; i < NOUT(c); i++) {
    int e = c->f->out[i] == 'd' ? 8 : 4; R->sz[i] = (size_t)nb * e; R->out[i] = hbuf(R->sz[i]);
    for (int t = 0; t < nb; t++) if (e == 8) ((uint64_t*)R->out[i])[t] = MARK; else ((int*)R->out[i])[t] = 0x5eedbeef;
  }
  void *outp[8]; const void *inp[8];
  for (int i = 0; i < NOUT(c); i++) outp[i] = R->out[i];
  for (int i = 0; i < c->f->nin; i++) inp[i] = in[i];
  if (useAlias) outp[c->ao] = in[c->ai];
  for (int i = 0; i < c->f->nin; i++) if (c->null & (1 << i)) inp[i] = 0;
  for (int i = 0; i < NOUT(c); i++) if (c->null & (256 << i)) outp[i] = 0;
  /* nothing below the input window may be read */
  int lo = good && nb ? beg - lbk : len; if (c->compat && c->p->readlo0 && nb) lo = 0; if (lo < 0) lo = 0;
  if (!useAlias) for (int i = 0; i < c->f->nin; i++) { size_t z = (size_t)lo * es; z &= ~(size_t)7; if (lo >= len) z = isz[i]; if (z) ASAN_POISON_MEMORY_REGION(in[i], z); }
  R->b = R->n = -77; fillb = fill; failat = fail; nalloc = 0; live = 0; memset(lv, 0, sizeof lv); hook = 1;
  R->r = (c->s ? c->f->sbatch : c->f->batch)(c->start, c->end, inp, c->o, &R->b, &R->n, outp);
  hook = 0; R->live = live;
  if (useAlias && !(c->null)) { if (R->sz[c->ao] && isz[c->ai] >= R->sz[c->ao]) memcpy(R->out[c->ao], in[c->ai], R->sz[c->ao]); }
  for (int i = 0; i < c->f->nin; i++) hfree(in[i], isz[i]);
}
static void freeR(const tcase *c, res *R) { for (int i = 0; i < NOUT(c); i++) hfree(R->out[i], R->sz[i]); }

/* float variant against double variant on the same (float-representable) data */
static int sd_case(const tcase *c0) {
  tcase c = *c0; int tol = c.s == 3, f = 0; phase("sd"); why[0] = 0;
  settings(&c);
  int len = c.end >= 0 ? c.end + 1 : 0; data(c.ds, c.dk, len);
  for (int k = 0; k < 8; k++) for (int t = 0; t < len; t++) { double v = base[k][t]; base[k][t] = isfinite(v) && fabs(v) < 1e6 ? floor(v * 4) / 4 : (double)(float)v; }
  int v = 1; for (int i = 0; i < NOPT(&c); i++) v = v && okopt(&c, i);
  lbk = c.f->lookback(c.o); good = v && c.start >= 0 && c.end >= c.start; if (!good) return 0;
  beg = c.start > lbk ? c.start : lbk; nb = beg <= c.end ? c.end - beg + 1 : 0;
  res A, B; c.s = 0; run1(&c, 0, 0, 0, &A); c.s = 1; run1(&c, 0, 0, 0, &B);
  if (A.r != B.r || A.b != B.b || A.n != B.n) f = bad("sd", "double: retCode %d beg %d n %d, float: %d %d %d", A.r, A.b, A.n, B.r, B.b, B.n);
  for (int i = 0; !f && i < NOUT(&c); i++) {
    int d = 0, at = -1;
    for (int t = 0; t < nb; t++) {
      double a, b; if (c.f->out[i] == 'd') { a = ((double*)A.out[i])[t]; b = ((double*)B.out[i])[t]; } else { a = ((int*)A.out[i])[t]; b = ((int*)B.out[i])[t]; }
      if ((a != b && !(isnan(a) && isnan(b))) && !(tol && !(fabs(a - b) > 1e-2 * (fabs(a) + fabs(b))))) { if (at < 0) at = t; d++; }
    }
    if (tol ? d > 4 && d * 4 > nb : d) f = bad("sd", "output %d element %d: double %.17g float %.17g", i, at, c.f->out[i] == 'd' ? ((double*)A.out[i])[at] : ((int*)A.out[i])[at], c.f->out[i] == 'd' ? ((double*)B.out[i])[at] : ((int*)B.out[i])[at]);
  }
  freeR(&c, &A); freeR(&c, &B);
  return f;
}

static int run_case(const tcase *c) {
  if (c->s >= 2) return sd_case(c);
  phase("memory"); why[0] = 0;
  settings(c);
  int len = c->end >= 0 ? c->end + 1 : 0; data(c->ds, c->dk, len);
  int v = 1; for (int i = 0; i < NOPT(c); i++) v = v && okopt(c, i);
  lbk = c->f->lookback(c->o);
  int bs = c->start < 0, be = !bs && (c->end < 0 || c->end < c->start);
  good = v && !bs && !be && !c->null;
  beg = c->start > lbk ? c->start : lbk; nb = good && beg <= c->end ? c->end - beg + 1 : 0;
  phase(good ? "memory" : "argsmem"); res A; run1(c, 0, 0, 0, &A); int na = nalloc; phase("memory");
  int f = 0;
  if (bs) { if (A.r != TA_OUT_OF_RANGE_START_INDEX) f = bad("args", "startIdx=%d gives retCode %d", c->start, A.r); }
  else if (be) { if (A.r != TA_OUT_OF_RANGE_END_INDEX) f = bad("args", "startIdx=%d endIdx=%d gives retCode %d", c->start, c->end, A.r); }
  else if (!good) { if (A.r != TA_BAD_PARAM) f = bad("args", "invalid option or null array gives retCode %d", A.r); }
  else if (A.r != TA_SUCCESS) f = bad("range", "valid call returns %d", A.r);
  else if (A.n != nb) f = bad("range", "outNBElement=%d, expected %d (lookback %d)", A.n, nb, lbk);
  else if (A.b != (nb ? beg : 0)) f = bad("range", "outBegIdx=%d, expected %d", A.b, nb ? beg : 0);
  if (!f && A.live) f = bad("alloc", "%d blocks still allocated after return", A.live);
  if (!f && good) {
    for (int i = 0; !f && i < NOUT(c); i++) for (int t = 0; t < nb; t++)
      if (c->f->out[i] == 'd' ? ((uint64_t*)A.out[i])[t] == MARK : ((int*)A.out[i])[t] == 0x5eedbeef) { f = bad("range", "output %d element %d not written", i, t); break; }
    res B; run1(c, 0xA5, 0, 0, &B);
    if (!f) for (int i = 0; i < NOUT(c); i++) if (memcmp(A.out[i], B.out[i], A.sz[i])) f = bad("memory", "output %d depends on uninitialised memory", i);
    freeR(c, &B);
    for (int k = 1; !f && k <= na && k <= 12; k++) {
      if (c->fail && k != c->fail) continue;
      phase("allocmem"); run1(c, 0, k, 0, &B); phase("memory");
      if (B.r != TA_ALLOC_ERR) f = bad("alloc", "allocation %d fails: retCode %d", k, B.r);
      else if (B.live) f = bad("alloc", "allocation %d fails: %d blocks leaked", k, B.live);
      freeR(c, &B);
    }
    if (!f && c->ai >= 0 && !c->s && c->f->out[c->ao] == 'd') {
      phase("inplacemem"); run1(c, 0, 0, 1, &B); phase("memory");
      if (B.r != A.r || B.b != A.b || B.n != A.n) f = bad("inplace", "in place: retCode %d beg %d n %d, separate buffers: %d %d %d", B.r, B.b, B.n, A.r, A.b, A.n);
      else for (int i = 0; !f && i < NOUT(c); i++) for (size_t t = 0; t < A.sz[i]; t++) if (((char*)A.out[i])[t] != ((char*)B.out[i])[t]) { f = bad("inplace", "output %d element %d differs from the call with separate buffers", i, (int)(t / (c->f->out[i] == 'd' ? 8 : 4))); break; }
      freeR(c, &B);
    }
  } else if (!f) {
    for (int i = 0; i < NOUT(c); i++) ; /* zero-size output buffers: any write is caught by ASan */
  }
  freeR(c, &A);
  return f;
}

#include "stream.h"

static void gen(tcase *c, const fnent *f, int s, const char *mode, uint64_t seed, int idx) {
  memset(c, 0, sizeof *c); rs = seed * 0x9E3779B97F4A7C15ull + (uint64_t)idx * 0xD1B54A32D192ED03ull + 88172645463325252ull; for (int i = 0; i < 6; i++) rnd();
  c->f = f; c->p = findp(f->name); c->s = s; c->ai = -1;
  int args = !strcmp(mode, "args");
  int big = rnd() % 97 == 0 && !args;
  for (int i = 0; i < NOPT(c); i++) {
    const optpar *p = c->p->o + i; uint32_t k = rnd() % 16;
    if (f->opt[i] == 'd') c->o[i].d = k == 0 ? TA_REAL_DEFAULT : k == 1 ? p->min : k == 2 ? p->max : k < 6 ? p->def : (p->min > 0 ? p->min : 0) + rd() * ((p->max > 5 ? 5 : p->max) - (p->min > 0 ? p->min : 0));
    else {
      int mn = (int)p->min, mx = (int)p->max;
      c->o[i].i = k == 0 ? TA_INTEGER_DEFAULT : k == 1 ? mn : k == 2 ? mn + (mn < mx) : k == 3 ? (int)p->def : k < 8 ? ri(mn, mx > 8 ? 8 : mx) : ri(mn, mx > 60 ? 60 : mx);
      if (big && mx > 1000 && rnd() % 2) c->o[i].i = rnd() % 2 ? mx : ri(40000, mx);
    }
  }
  c->unst = rnd() % 3 == 0 ? -1 : rnd() % 3 == 0 ? ri(1, 60) : 0;
  c->compat = rnd() % 4 == 0; c->cand = rnd() % 3 == 0 ? ri(1, 40) : 0;
  c->dk = ri(0, 6); c->ds = rnd();
  settings(c);
  int lb = f->lookback(c->o); if (lb < 0) lb = 5;
  if (lb > 3000000) { c->unst = 0; settings(c); lb = f->lookback(c->o); if (lb < 0) lb = 5; }
  uint32_t k = rnd() % 8;
  c->start = k == 0 ? 0 : k == 1 ? lb : k == 2 ? lb + 1 : k == 3 ? (lb ? lb - 1 : 0) : k == 4 ? ri(0, lb) : lb + ri(0, 120);
  int b = c->start > lb ? c->start : lb;
  k = rnd() % 8; c->end = k == 0 ? c->start : k == 1 ? b : k == 2 ? b + 1 : k == 3 ? (b > c->start ? b - 1 : c->start) : b + ri(0, big ? 60 : 200);
  if (args) {
    k = rnd() % 8;
    if (k == 0) c->start = -ri(1, 5); else if (k == 1) c->end = -ri(1, 3); else if (k == 2) c->end = c->start - 1;
    else if (k == 3) c->null = 1 << ri(0, f->nin - 1); else if (k == 4) c->null = 256 << ri(0, NOUT(c) - 1);
    else if (NOPT(c)) { int i = ri(0, NOPT(c) - 1); const optpar *p = c->p->o + i;
      if (f->opt[i] == 'd') { int q = ri(0, 2); c->o[i].d = q == 0 ? p->min - (fabs(p->min) > 1 ? fabs(p->min) * 1e-9 : 1e-9) : q == 1 ? p->max + (fabs(p->max) > 1 ? fabs(p->max) * 1e-9 : 1e-9) : -5e37; }
      else { int q = ri(0, 4); c->o[i].i = q == 0 ? (int)p->min - 1 : q == 1 ? (int)p->max + 1 : q == 2 ? INT_MIN + 1 : q == 3 ? INT_MAX : ri(-5, 3); } }
    if (k == 0 && rnd() % 3 == 0) c->end = -1;
    if (c->end > 5000) c->end = 5000;
  }
  if (!strncmp(mode, "inplace", 7)) { c->ai = ri(0, f->nin - 1); c->ao = ri(0, NOUT(c) - 1); sscanf(mode + 7, ":%d:%d", &c->ai, &c->ao); if (c->dk == 3) c->dk = 0; }
}

typedef struct { char line[1200]; char cls[24]; char why[400]; int bad, n; } shm;

int main(int argc, char **argv) {
  if (argc >= 3 && !strcmp(argv[1], "case")) {
    tcase c; const char *l = argv[2]; int st = !strncmp(l, "stream;", 7); if (st) l += 7;
    TA_Initialize();
    if (!parse(&c, l)) { fprintf(stderr, "bad case\n"); return 2; }
    if (st ? stream_case(&c) : run_case(&c)) { printf("FAIL class=%s case=%s what=%s\n", cls, argv[2], why); return 1; }
    printf("holds: %s\n", argv[2]); return 0;
  }
  if (argc < 8) return 2;
  const char *mode = argv[2]; const fnent *f = find(argv[3]); int s = atoi(argv[4]); uint64_t seed = strtoull(argv[5], 0, 10); int count = atoi(argv[6]); double secs = atof(argv[7]);
  if (!f || !findp(f->name)) { fprintf(stderr, "unknown function %s\n", argv[3]); return 2; }
  int st = !strncmp(mode, "stream", 6);
  shm *S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int idx = 0, nf = 0; time_t t0 = time(0);
  while (idx < count && nf < 3) {
    fflush(0);
    pid_t p = fork();
    if (!p) {
      TA_Initialize(); shcls = S->cls;
      for (; idx < count; idx++) {
        if (difftime(time(0), t0) > secs) break;
        tcase c; if (st) sgen(&c, f, mode, seed, idx); else gen(&c, f, s, mode, seed, idx);
        S->n = idx; S->bad = 0; snprintf(S->line, sizeof S->line, "%s%s", st ? "stream;" : "", show(&c)); phase("memory");
        alarm(60);
        if (st ? stream_case(&c) : run_case(&c)) { S->bad = 1; snprintf(S->cls, sizeof S->cls, "%s", cls); snprintf(S->why, sizeof S->why, "%s", why); _exit(9); }
        alarm(0);
      }
      S->n = count; _exit(0);
    }
    int w; waitpid(p, &w, 0);
    if (WIFEXITED(w) && WEXITSTATUS(w) == 0) break;
    if (S->bad) printf("FAIL class=%s case=%s what=%s\n", S->cls, S->line, S->why);
    else if (WIFSIGNALED(w) && WTERMSIG(w) == SIGALRM) printf("FAIL class=hang case=%s what=no result within 60 s\n", S->line);
    else printf("FAIL class=%s case=%s what=crashed or stopped by a sanitizer\n", S->cls, S->line);
    nf++; idx = S->n + 1;
  }
  printf("cases=%d\n", idx < count ? S->n : count);
  return nf ? 1 : 0;
}
