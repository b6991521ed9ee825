/* Concrete search for a violation of the streaming properties on the real code.
 * usage: stmdrv <C07|C08|C09|C10|C11> <function|-> [case]
 * prints FAIL <case> what=<...>; every case runs in a child process, so that a crash is that case's failure */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <limits.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include "ta_libc.h"
#include "fntab.h"
#include "params.h"

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void __real_free(void*); void *__real_realloc(void*, size_t);
static int hook, nalloc, failat, failed, live;
#define MAXL 4096
static void *lv[MAXL];
static void *note(void *p) { if (p) for (int i = 0; i < MAXL; i++) if (!lv[i]) { lv[i] = p; live++; break; } return p; }
void *__wrap_malloc(size_t n) { if (!hook) return __real_malloc(n); if (++nalloc == failat) { failed = 1; return 0; } void *p = note(__real_malloc(n ? n : 1)); if (p) memset(p, 0xA5, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (!hook) return __real_calloc(a, b); if (++nalloc == failat) { failed = 1; return 0; } return note(__real_calloc(a, b)); }
void *__wrap_realloc(void *p, size_t n) { return __real_realloc(p, n); }
void __wrap_free(void *p) { if (p) for (int i = 0; i < MAXL; i++) if (lv[i] == p) { lv[i] = 0; live--; break; } __real_free(p); }

static uint64_t rs;
static uint32_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (uint32_t)(rs >> 16); }
static double rd(void) { return (rnd() & 0xffffff) / 16777216.0; }

#define N 420
static double base[8][N + 8];
static double out1[4][N + 8], out2[4][N + 8];
static int bad; static char cur[300];
static void ck(int ok, const char *what) { if (!ok && bad < 8) { printf("FAIL %s what=%s\n", cur, what); fflush(stdout); } if (!ok) bad++; }

static const fnent *F; static const fnpar *P; static optv O[10]; static int NO, NU, valid, unst, dk;
static const fnpar *findp(const char *n) { for (int i = 0; i < fnpar_n; i++) if (!strcmp(fnpar_tab[i].name, n)) return fnpar_tab + i; return 0; }
static int col(int k) {
  static char b[200]; strcpy(b, F->ins); char *s = strtok(b, ","); while (k-- > 0) s = strtok(0, ",");
  const char *nm[] = {"inOpen", "inHigh", "inLow", "inClose", "inVolume"};
  for (int i = 0; i < 5; i++) if (!strcmp(s, nm[i])) return i;
  return !strcmp(s, "inPeriods") ? 5 : !strcmp(s, "inReal1") ? 6 : 7;
}
static void data(int kind, uint32_t seed) {
  rs = 0x9E3779B97F4A7C15ull ^ ((uint64_t)seed << 20) ^ seed; for (int i = 0; i < 8; i++) rnd();
  double p = 100;
  for (int t = 0; t < N; t++) {
    double v = kind == 2 ? 0 : 1 + 4 * rd(), o = p, c = o + (rd() - 0.5) * 2 * v;
    if (kind == 1) { v = (double)(rnd() % 5); c = o + (double)((int)(rnd() % 9) - 4) / 2; }
    if (kind == 2) c = o;
    if (kind == 4) { c = t % 7 < 4 ? o + 2 : o - 1; if (rnd() % 4 == 0) c = o; }
    double h = (o > c ? o : c) + (rnd() % 4 ? (kind == 1 ? rnd() % 3 : rd() * v) : 0), l = (o < c ? o : c) - (rnd() % 4 ? (kind == 1 ? rnd() % 3 : rd() * v) : 0);
    if (l < 1) { l = 1; if (o < 1) o = 1; if (c < 1) c = 1; if (h < 1) h = 1; }
    base[0][t] = o; base[1][t] = h; base[2][t] = l; base[3][t] = c; base[4][t] = 1000 + rnd() % 900; base[5][t] = 2 + rnd() % 12; base[6][t] = c + rd(); base[7][t] = c;
    if (kind == 3) base[7][t] = rd() * 1.8 - 0.9;
    p = c + (rnd() % 5 == 0 ? (rd() - 0.5) * 3 : 0); if (p < 2) p = 2;
  }
}
static void vals(int t, double *v) { for (int k = 0; k < F->nin; k++) v[k] = base[col(k)][t]; }
static int step(void *s, int t, double out[4][N + 8], int at) {
  double v[8]; void *o[4]; vals(t, v);
  for (int k = 0; k < NU; k++) { o[k] = (char*)(out[k]) + 8 * at; memset(o[k], 0x5A, 8); }
  return F->state(s, v, o);
}
static int same1(int k, double *a, double *b) { if (F->out[k] == 'i') return *(int*)a == *(int*)b; return !memcmp(a, b, 8) || (isnan(*a) && isnan(*b)); }

static int dinit(void **s) { return F->init(s, O); }
static long lbv(void) { return F->lookback(O); }

/* ---- a stream with limited capacity, unbuffered */
typedef struct { char *b; long n, pos, cap; } mem;
static ssize_t mw(void *c, const char *b, size_t n) { mem *m = c; if (m->pos + (long)n > m->cap) n = m->cap - m->pos; memcpy(m->b + m->pos, b, n); m->pos += n; if (m->pos > m->n) m->n = m->pos; return n; }
static ssize_t mr(void *c, char *b, size_t n) { mem *m = c; if (m->pos + (long)n > m->n) n = m->n - m->pos; memcpy(b, m->b + m->pos, n); m->pos += n; return n; }
static FILE *mopen(mem *m, const char *md) { cookie_io_functions_t io = { mr, mw, 0, 0 }; FILE *f = fopencookie(m, md, io); setvbuf(f, 0, _IONBF, 0); return f; }
static char store[1 << 24];

static void c11(void) {
  int rc;
  hook = 1; nalloc = failat = 0; live = 0;
  rc = F->init(0, O); ck(rc == TA_BAD_PARAM, "StateInit(NULL) is refused with TA_BAD_PARAM"); ck(!live, "StateInit(NULL) allocates nothing");
  rc = F->sfree(0); ck(rc == TA_BAD_PARAM, "StateFree(NULL) is refused with TA_BAD_PARAM");
  void *s = 0; rc = F->sfree(&s); ck(rc == TA_SUCCESS && !s, "StateFree of a null state succeeds");
  if (!valid) { rc = dinit(&s); ck(rc == TA_BAD_PARAM, "an option outside its range is refused with TA_BAD_PARAM"); ck(!s, "a refused StateInit leaves the pointer alone"); ck(!live, "a refused StateInit allocates nothing"); return; }
  for (int k = 0; k < 60; k++) {
    s = 0; nalloc = 0; failat = k; failed = 0;
    rc = dinit(&s); failat = 0;
    if (k && !failed) { F->sfree(&s); break; }
    if (failed) ck(rc == TA_ALLOC_ERR, "a failed allocation in StateInit is reported as TA_ALLOC_ERR");
    else { ck(rc == TA_SUCCESS && s, "valid options and enough memory: StateInit succeeds"); if (rc == TA_SUCCESS) ck(((size_t*)s)[1] == 0, "mem_index starts at 0"); }
    if (!k && rc == TA_SUCCESS && lbv() < 300) for (int t = 0; t < 60; t++) step(s, t, out1, 0);
    rc = F->sfree(&s);
    ck(rc == TA_SUCCESS && !s, "StateFree succeeds and resets the pointer");
    ck(!live, k ? "StateFree after a failed StateInit releases everything" : "StateFree releases everything");
    live = 0; memset(lv, 0, sizeof lv);
  }
  if (lbv() > 300) return;
  { optv sv[10]; memcpy(sv, O, sizeof O); int d = 0; void *a = 0, *b = 0; dinit(&a);
    for (int i = 0; i < NO; i++) if (F->opt[i] == 'd') { if (O[i].d == -4e37) { d = 1; O[i].d = P->o[i].def; } } else if (O[i].i == INT_MIN) { d = 1; O[i].i = (int)P->o[i].def; }
    if (d && a && dinit(&b) == TA_SUCCESS && b) for (int t = 0; t < 400; t++) {
      int x = step(a, t, out1, 0), y = step(b, t, out2, 0), k = 0; if (x == y && x == TA_SUCCESS) for (k = 0; k < NU; k++) if (!same1(k, out1[k], out2[k])) break;
      if (x != y || (x == TA_SUCCESS && k < NU)) { ck(0, "default markers give the stream of the documented defaults"); break; } }
    memcpy(O, sv, sizeof O); F->sfree(&a); F->sfree(&b); live = 0; memset(lv, 0, sizeof lv); }
  s = 0; if (dinit(&s) != TA_SUCCESS) return;
  for (int t = 0; t < 40; t++) step(s, t, out1, 0);
  mem m = { store, 0, 0, sizeof store }; FILE *f = mopen(&m, "w"); rc = F->ssave(s, f); fclose(f);
  if (rc != TA_SUCCESS) return;
  long full = m.n; int base_live = live;
  for (long cut = 0; cut <= full; cut += full > 400 && cut > 120 ? 61 : 4) {
    mem r = { store, cut > full ? full : cut, 0, 0 }; f = mopen(&r, "r"); void *q = 0; F->sload(&q, f); fclose(f);
    F->sfree(&q); ck(!q && live == base_live, "StateFree after an interrupted StateLoad releases everything"); live = base_live;
  }
  for (int k = 1; k < 60; k++) {
    mem r = { store, full, 0, 0 }; f = mopen(&r, "r"); void *q = 0; failed = 0; nalloc = 0; failat = k; rc = F->sload(&q, f); failat = 0; fclose(f);
    if (failed) ck(rc != TA_SUCCESS, "a failed allocation in StateLoad is reported");
    F->sfree(&q); ck(!q && live == base_live, "StateFree after StateLoad releases everything"); live = base_live;
    if (!failed) break;
  }
}

static void c10(void) {
  if (!valid || lbv() > 250) return;
  for (int pre = 0; pre < 5; pre++) {
    int n0 = (int[]){0, 1, 7, 60, 130}[pre];
    void *s = 0, *q = 0; int rc;
    if (dinit(&s) != TA_SUCCESS) return;
    for (int t = 0; t < n0; t++) step(s, t, out1, 0);
    mem m = { store, 0, 0, sizeof store }; FILE *f = mopen(&m, "w"); rc = F->ssave(s, f); fclose(f);
    ck(rc == TA_SUCCESS, "StateSave succeeds");
    mem r = { store, m.n, 0, 0 }; f = mopen(&r, "r"); rc = F->sload(&q, f); fclose(f);
    ck(rc == TA_SUCCESS && q, "StateLoad succeeds"); ck(r.pos == m.n, "StateLoad consumes the record");
    if (rc != TA_SUCCESS || !q) return;
    { void *o = s; mem r2 = { store, m.n, 0, 0 }; f = mopen(&r2, "r"); rc = F->sload(&o, f); fclose(f); ck(rc != TA_SUCCESS && o == s, "StateLoad refuses an occupied slot"); }
    for (int t = n0; t < n0 + 120; t++) {
      int a = step(s, t, out1, 0), b = step(q, t, out2, 0); char w[120];
      if (a != b) { snprintf(w, sizeof w, "after %d values, save and load: step %d returns %d, the original %d", n0, t - n0, b, a); ck(0, w); break; }
      if (a == TA_SUCCESS) { int k; for (k = 0; k < NU; k++) if (!same1(k, out1[k], out2[k])) break;
        if (k < NU) { snprintf(w, sizeof w, "after %d values, save and load: output %d of step %d differs from the original", n0, k, t - n0); ck(0, w); break; } }
    }
    F->sfree(&q); 
    if (pre == 3) for (long cut = 0; cut < m.n; cut += m.n > 400 && cut > 120 ? 61 : 4) {
      mem r3 = { store, cut, 0, 0 }; f = mopen(&r3, "r"); void *z = 0; rc = F->sload(&z, f); fclose(f); ck(rc != TA_SUCCESS, "a short read is not reported as success"); F->sfree(&z);
      static char st2[1 << 20]; if (m.n < (long)sizeof st2) { mem w3 = { st2, 0, 0, cut }; f = mopen(&w3, "w"); rc = F->ssave(s, f); fclose(f); ck(rc != TA_SUCCESS, "a short write is not reported as success"); }
    }
    F->sfree(&s);
  }
  void *q = 0; mem m = { store, 0, 0, 64 }; FILE *f = mopen(&m, "w"); int rc = F->ssave(0, f); fclose(f); ck(rc == TA_SUCCESS, "StateSave of a null state succeeds");
  mem r = { store, m.n, 0, 0 }; f = mopen(&r, "r"); rc = F->sload(&q, f); fclose(f); ck(rc == TA_SUCCESS && !q, "a saved null state loads as null");
}

static void c09(void) {
  if (!valid || lbv() > 250) return;
  int rg[][2] = {{0, 0}, {0, 1}, {3, 3}, {0, 200}, {17, 150}, {5, 4}, {250, 300}};
  for (int g = 0; g < 7; g++) {
    int a = rg[g][0], b = rg[g][1], beg = -77, nb = -77; void *s = 0, *q = 0; int code = 0, rc, n = 0, bd = 0;
    if (dinit(&s) != TA_SUCCESS || dinit(&q) != TA_SUCCESS) return;
    const void *in[8]; void *o[4];
    for (int round = 0; round < 2; round++) {
      for (int k = 0; k < F->nin; k++) in[k] = base[col(k)];
      for (int k = 0; k < NU; k++) { o[k] = out2[k]; memset(out2[k], 0x33, sizeof out2[k]); memset(out1[k], 0x33, sizeof out1[k]); }
      rc = F->bstate(q, a, b, in, &beg, &nb, o);
      if (a > b) { ck(rc == TA_SUCCESS && beg == 0 && nb == 0, "an empty range gives no output"); continue; }
      n = 0; code = 0;
      for (int t = a; t <= b; t++) { double tmp[4][N + 8]; memset(tmp, 0, sizeof tmp); code = step(s, t, tmp, 0); if (code != TA_SUCCESS && code != TA_NEED_MORE_DATA) break;
        for (int k = 0; k < NU; k++) if (F->out[k] == 'i') ((int*)out1[k])[n] = code == TA_SUCCESS ? *(int*)tmp[k] : ((int*)out2[k])[n]; else out1[k][n] = code == TA_SUCCESS ? tmp[k][0] : NAN;
        n++; }
      ck(rc == code, "BatchState returns the code of the last State call"); ck(beg == a, "outBegIdx is startIdx"); ck(nb == n, "outNBElement is the number of values consumed");
      for (int k = 0; k < NU && !bd; k++) for (int t = 0; t < N && !bd; t++) if (F->out[k] == 'i' ? ((int*)out1[k])[t] != ((int*)out2[k])[t] : !same1(k, &out1[k][t], &out2[k][t])) {
        char w[140]; snprintf(w, sizeof w, "BatchState(%d,%d) output %d element %d differs from State called one by one", a, b, k, t); ck(0, w); bd = 1; }
    }
    for (int k = 0; k <= F->nin + NU; k++) {
      for (int j = 0; j < F->nin; j++) in[j] = base[col(j)];
      for (int j = 0; j < NU; j++) o[j] = out2[j];
      void *st = q; if (k == 0) st = 0; else if (k <= F->nin) in[k - 1] = 0; else o[k - 1 - F->nin] = 0;
      rc = F->bstate(st, 0, 3, in, &beg, &nb, o); ck(rc == TA_BAD_PARAM, "a missing argument is refused with TA_BAD_PARAM");
    }
    F->sfree(&s); F->sfree(&q);
  }
}

static void c08(int only7) {
  if (!valid) return;
  long lb = lbv(); if (lb > 300) return;
  for (int kind = 0; kind < 5; kind++) {
    data(kind, 11 + kind + dk * 5);
    void *s = 0; if (dinit(&s) != TA_SUCCESS) { ck(0, "StateInit succeeds"); return; }
    const void *in[8]; void *o[4]; int beg = 0, nb = 0;
    for (int k = 0; k < F->nin; k++) in[k] = base[col(k)];
    for (int k = 0; k < NU; k++) o[k] = out2[k];
    int brc = F->batch(0, N - 1, in, O, &beg, &nb, o); int need = 0;
    for (int t = 0; t < N; t++) {
      int rc = step(s, t, out1, 0); char w[200];
      if (rc == TA_NEED_MORE_DATA) { need++; if (t >= lb) { snprintf(w, sizeof w, "value %d: TA_NEED_MORE_DATA although the lookback is %ld", t, lb); ck(0, w); break; } continue; }
      if (rc != TA_SUCCESS) { snprintf(w, sizeof w, "value %d: code %d", t, rc); ck(0, w); break; }
      if (t < lb) { snprintf(w, sizeof w, "value %d: an output although the lookback is %ld", t, lb); ck(0, w); break; }
      if (only7 || brc != TA_SUCCESS) continue;
      int i = t - beg; int k;
      for (k = 0; k < NU; k++) if (F->out[k] == 'i' ? *(int*)out1[k] != ((int*)out2[k])[i] : !same1(k, out1[k], &out2[k][i])) break;
      if (k < NU && i >= 0 && i < nb) {
        double x = F->out[k] == 'i' ? *(int*)out1[k] : out1[k][0], y = F->out[k] == 'i' ? ((int*)out2[k])[i] : out2[k][i];
        snprintf(w, sizeof w, "data %d, output %d at index %d: streaming %.17g, batch %.17g%s", kind, k, t, x, y, fabs(x - y) <= 1e-9 * (1 + fabs(y)) ? " (rounding)" : ""); ck(0, w); break;
      }
    }
    F->sfree(&s);
  }
}

static int incase(const char *part, const char *only, int idx) {
  snprintf(cur, sizeof cur, "%s:%d", F->name, idx);
  if (only && strcmp(only, cur)) return 0;
  int p[2]; fflush(stdout);
  pid_t pid = fork();
  if (!pid) {
    alarm(60); data(0, 5 + idx);
    TA_Initialize();
    if (unst) TA_SetUnstablePeriod(TA_FUNC_UNST_ALL, unst);
    if (!strcmp(part, "C11")) c11(); else if (!strcmp(part, "C10")) c10(); else if (!strcmp(part, "C09")) c09(); else c08(!strcmp(part, "C07"));
    fflush(stdout); _exit(bad ? 1 : 0);
  }
  int st; waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) < 2) return 1;
  printf("FAIL %s what=crash or sanitizer report (%s %d)\n", cur, WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); fflush(stdout);
  return 1;
}
static void describe(void) { printf("OPTS %s", cur); for (int i = 0; i < NO; i++) if (F->opt[i] == 'd') printf(" %.9g", O[i].d); else printf(" %d", O[i].i); printf("%s\n", unst ? " unst" : ""); fflush(stdout); }

int main(int ac, char **av) {
  const char *part = av[1], *fn = ac > 2 && strcmp(av[2], "-") ? av[2] : 0, *only = ac > 3 ? av[3] : 0; int cases = 0;
  for (int j = 0; j < fntab_n; j++) {
    F = fntab + j; if (fn && strcmp(fn, F->name)) continue;
    P = findp(F->name); NO = strlen(F->opt); NU = strlen(F->out); int idx = 0;
    optv mid[10];
    for (int v = 0; v < 5; v++) {       /* base vectors: defaults, ascending, descending, large, minimal */
      for (int i = 0; i < NO; i++) if (F->opt[i] == 'd') mid[i].d = v == 0 ? -4e37 : v == 4 ? P->o[i].min : (double[]){0, 1.5, 0.5, 0.3}[v]; else mid[i].i = v == 0 ? INT_MIN : F->opt[i] == 'm' ? (v == 1 ? 1 : v == 2 ? 2 : 0) : v == 1 ? 4 + 3 * i : v == 2 ? 19 - 6 * i : v == 3 ? 14 : (int)P->o[i].min;
      for (int i = 0; i < NO; i++) { double lo = P->o[i].min, hi = P->o[i].max; if (v == 0) continue; if (F->opt[i] == 'd') { if (mid[i].d < lo) mid[i].d = lo; if (mid[i].d > hi) mid[i].d = hi; } else { if (mid[i].i < lo) mid[i].i = lo; if (mid[i].i > hi) mid[i].i = hi; } }
      for (int i = -1; i < NO; i++) for (int e = 0; e < (i < 0 ? 1 : 14); e++) {
        if (v && v != 1 && v != 2 && i >= 0 && !(i >= 0 && F->opt[i] == 'm')) continue;
        memcpy(O, mid, sizeof mid);
        if (i >= 0) { double lo = P->o[i].min, hi = P->o[i].max;
          if (F->opt[i] == 'd') { if (e > 8) continue; O[i].d = (double[]){lo, hi, 0, 1, -1, 0.02, -4e37, lo == -3e37 ? -5e38 : lo - 0.5, hi == 3e37 ? 5e38 : hi + 1}[e]; if (O[i].d == -4e37 && e != 6) continue; }
          else if (F->opt[i] == 'm') { if (e > 12) continue; O[i].i = e < 10 ? e : e == 10 ? INT_MIN : e == 11 ? -1 : 10; }
          else O[i].i = (int[]){(int)lo, (int)lo + 1, 5, 30, (int)hi, INT_MIN, (int)lo - 1, (int)hi + 1, INT_MAX, INT_MIN + 1, 2, 3, 9, 16}[e]; }
        valid = 1;
        for (int k = 0; k < NO; k++) if (F->opt[k] == 'd') { if (O[k].d != -4e37 && !(O[k].d >= P->o[k].min && O[k].d <= P->o[k].max)) valid = 0; } else if (O[k].i != INT_MIN && !(O[k].i >= P->o[k].min && O[k].i <= P->o[k].max)) valid = 0;
        for (unst = 0; unst < (i < 0 && (part[2] == '7' || part[2] == '8') ? 12 : 1); unst += 11) {
          int q = cases; cases += incase(part, only, idx++); if (only && cases > q) describe();
        }
        unst = 0;
      }
      if (!NO) break;
    }
  }
  printf("cases=%d\n", cases);
  return 0;
}
