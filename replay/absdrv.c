/* Concrete search for a violation of C13-C16 on the real abstract-layer and global-settings code.
 * The TA_X entry points are stand-ins that record their arguments (generated stubs.c).
 * usage: absdrv glob|C13|C14|C15 [case]; prints FAIL <case> what=<...>, exit 1 if anything failed */
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <limits.h>
#include "ta_libc.h"
#include "ta_global.h"
#include "ta_def_ui.h"
#include "ta_frame_priv.h"
#include "ta_magic_nb.h"
#include "absspec.h"

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void __real_free(void*);
static int hook, nalloc, failat, live;
static void *lv[8192];
static void *note(void *p) { if (p) for (int i = 0; i < 8192; i++) if (!lv[i]) { lv[i] = p; live++; break; } return p; }
void *__wrap_malloc(size_t n) { if (!hook) return __real_malloc(n); if (++nalloc == failat) return 0; void *p = note(__real_malloc(n ? n : 1)); if (p) memset(p, 0xA5, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (!hook) return __real_calloc(a, b); if (++nalloc == failat) return 0; return note(__real_calloc(a, b)); }
void __wrap_free(void *p) { if (hook && p) { int i; for (i = 0; i < 8192; i++) if (lv[i] == p) { lv[i] = 0; live--; break; } } __real_free(p); }

static int bad, cases; static const char *only; static char cur[200];
static int begin(const char *f, const char *x) { snprintf(cur, sizeof cur, "%s%s%s", f, *x ? ":" : "", x); if (only && strcmp(only, cur)) return 0; cases++; printf("AT %s\n", cur); fflush(stdout); return 1; }
#define BEGIN(f, x) if (begin(f, x))
static void ck(int ok, const char *what) { if (!ok) { printf("FAIL %s what=%s\n", cur, what); fflush(stdout); bad++; } }
#define CK(c, w) ck((c), (w))
static int seq(const char *a, const char *b) { return a && b && !strcmp(a, b); }

/* ---- recorder used by stubs.c */
recd rec; int rec_n;
void rec_start(const char *n) { rec_n++; memset(&rec, 0, sizeof rec); rec.fn = n; }
void rec_i(int v) { rec.w[rec.n++] = (uint32_t)v; }
void rec_d(double v) { uint64_t u; memcpy(&u, &v, 8); rec.w[rec.n++] = u; }
void rec_p(const void *v) { rec.w[rec.n++] = (uint64_t)(uintptr_t)v; }
int rec_ret = 1234;
static uint64_t want[64]; static int nw;
static void wi(int v) { want[nw++] = (uint32_t)v; }
static void wd(double v) { uint64_t u; memcpy(&u, &v, 8); want[nw++] = u; }
static void wp(const void *v) { want[nw++] = (uint64_t)(uintptr_t)v; }
static void expect(const char *x, const char *sfx, int got, int isret, const char *what) {
  char nm[80], m[160]; snprintf(nm, sizeof nm, "TA_%s%s", x, sfx);
  snprintf(m, sizeof m, "%s calls %s exactly once", what, nm); CK(rec_n == 1 && seq(rec.fn, nm), m);
  if (rec_n == 1 && seq(rec.fn, nm)) {
    snprintf(m, sizeof m, "%s passes %d arguments", what, nw); CK(rec.n == nw, m);
    for (int k = 0; k < nw; k++) { snprintf(m, sizeof m, "%s: argument %d of %s", what, k + 1, nm); CK(rec.w[k] == want[k], m); }
    if (isret) { snprintf(m, sizeof m, "%s returns the result", what); CK(got == rec_ret, m); }
  }
  rec_n = 0; nw = 0;
}

static double arr[16][4]; static int iout[16][4];
static const TA_FuncHandle *handle(const char *x) { const TA_FuncHandle *h = 0; CK(TA_GetFuncHandle(x, &h) == TA_SUCCESS && h, "TA_GetFuncHandle finds the function"); return h; }
static int needs(const aspec *s, int k, int b) { return s->in[k].mask >> b & 1; }
static TA_RetCode setprice(TA_ParamHolder *p, int k, int mask, int base) {
  return TA_SetInputParamPricePtr(p, k, mask & 1 ? arr[base] : 0, mask & 2 ? arr[base + 1] : 0, mask & 4 ? arr[base + 2] : 0, mask & 8 ? arr[base + 3] : 0, mask & 16 ? arr[base + 4] : 0, mask & 32 ? arr[base + 5] : 0);
}

static void c13(const aspec *s) {
  const TA_FuncHandle *h = handle(s->name); if (!h) return;
  TA_ParamHolder *p = 0; CK(TA_ParamHolderAlloc(h, &p) == TA_SUCCESS && p, "TA_ParamHolderAlloc"); if (!p) return;
  const double *cin[12]; int ncin = 0, base = 0, lb, b, n;
  for (int k = 0; k < s->nin; k++) {
    if (s->in[k].price) { CK(setprice(p, k, s->in[k].mask, base) == TA_SUCCESS, "price input accepted"); for (int i = 0; i < 6; i++) if (needs(s, k, i)) cin[ncin++] = arr[base + i]; base += 6; }
    else { CK(TA_SetInputParamRealPtr(p, k, arr[base]) == TA_SUCCESS, "real input accepted"); cin[ncin++] = arr[base++]; }
  }
  void *outp[6];
  for (int k = 0; k < s->nout; k++) {
    if (s->out[k].real) { outp[k] = arr[12 + k]; CK(TA_SetOutputParamRealPtr(p, k, arr[12 + k]) == TA_SUCCESS, "real output accepted"); }
    else { outp[k] = iout[k]; CK(TA_SetOutputParamIntegerPtr(p, k, iout[k]) == TA_SUCCESS, "integer output accepted"); }
  }
  double dv[10]; int iv[10];
  for (int k = 0; k < s->nopt; k++) { dv[k] = s->opt[k].def; iv[k] = (int)s->opt[k].def; }
  for (int round = 0; round < 4; round++) {
#define OPTS for (int k = 0; k < s->nopt; k++) if (s->opt[k].type == 'd') wd(dv[k]); else wi(iv[k]);
    int st = 3 + round, en = 17 + round; rec_ret = 1000 + round;
    int r = TA_CallFunc(p, st, en, &b, &n);
    wi(st); wi(en); for (int i = 0; i < ncin; i++) wp(cin[i]); OPTS wp(&b); wp(&n); for (int k = 0; k < s->nout; k++) wp(outp[k]);
    expect(s->name, "", r, 1, round ? "TA_CallFunc" : "TA_CallFunc with default options");
    lb = -77; r = TA_GetLookback(p, &lb); OPTS expect(s->name, "_Lookback", lb, 1, round ? "TA_GetLookback" : "TA_GetLookback with default options"); CK(r == TA_SUCCESS, "TA_GetLookback succeeds");
    void *state = arr[0] + 1, *got = 0; FILE *f = (FILE*)(void*)(arr[1] + 2);
    CK(TA_SetParamStatePtr(p, state) == TA_SUCCESS && TA_GetParamStatePtr(p, &got) == TA_SUCCESS && got == state, "the state pointer is stored");
    TA_ParamHolderPriv *pv = (TA_ParamHolderPriv*)p->hiddenData; void *slot = &pv->_state;
    r = TA_InitNewState(p); wp(slot); OPTS expect(s->name, "_StateInit", r, 1, "TA_InitNewState");
    for (int i = 0; i < 16; i++) arr[i][0] = i * 1.25 + round;
    r = TA_CallFuncState(p); wp(state); for (int i = 0; i < ncin; i++) wd(cin[i][0]); for (int k = 0; k < s->nout; k++) wp(outp[k]); expect(s->name, "_State", r, 1, "TA_CallFuncState");
    r = TA_CallFuncBatchState(p, st, en, &b, &n); wp(state); wi(st); wi(en); for (int i = 0; i < ncin; i++) wp(cin[i]); wp(&b); wp(&n); for (int k = 0; k < s->nout; k++) wp(outp[k]); expect(s->name, "_BatchState", r, 1, "TA_CallFuncBatchState");
    r = TA_FreeState(p); wp(slot); expect(s->name, "_StateFree", r, 1, "TA_FreeState");
    r = TA_SaveState(p, f); wp(state); wp(f); expect(s->name, "_StateSave", r, 1, "TA_SaveState");
    r = TA_LoadState(p, f); wp(slot); wp(f); expect(s->name, "_StateLoad", r, 1, "TA_LoadState");
    const TA_FuncInfo *inf = 0; TA_GetFuncInfo(h, &inf); TA_StateFunc sf; TA_BatchStateFunc bf; TA_StateIOFunc io;
    TA_GetInitNewStateFuncPtr(inf, &sf); r = sf(pv); wp(slot); OPTS expect(s->name, "_StateInit", r, 1, "function of TA_GetInitNewStateFuncPtr");
    TA_GetCallFuncStateFuncPtr(inf, &sf); r = sf(pv); wp(state); for (int i = 0; i < ncin; i++) wd(cin[i][0]); for (int k = 0; k < s->nout; k++) wp(outp[k]); expect(s->name, "_State", r, 1, "function of TA_GetCallFuncStateFuncPtr");
    TA_GetCallFuncBatchStateFuncPtr(inf, &bf); r = bf(pv, st, en, &b, &n); wp(state); wi(st); wi(en); for (int i = 0; i < ncin; i++) wp(cin[i]); wp(&b); wp(&n); for (int k = 0; k < s->nout; k++) wp(outp[k]); expect(s->name, "_BatchState", r, 1, "function of TA_GetCallFuncBatchStateFuncPtr");
    TA_GetFreeStateFuncPtr(inf, &sf); r = sf(pv); wp(slot); expect(s->name, "_StateFree", r, 1, "function of TA_GetFreeStateFuncPtr");
    TA_GetSaveStateFuncPtr(inf, &io); r = io(pv, f); wp(state); wp(f); expect(s->name, "_StateSave", r, 1, "function of TA_GetSaveStateFuncPtr");
    TA_GetLoadStateFuncPtr(inf, &io); r = io(pv, f); wp(slot); wp(f); expect(s->name, "_StateLoad", r, 1, "function of TA_GetLoadStateFuncPtr");
    for (int k = 0; k < s->nopt; k++) {
      static const int I[4] = { 7, -3, INT_MAX, INT_MIN };
      if (s->opt[k].type == 'd') { dv[k] = round == 2 ? -4e+37 : 0.37 * (k + 1) + round; CK(TA_SetOptInputParamReal(p, k, dv[k]) == TA_SUCCESS, "real option accepted"); }
      else { iv[k] = round < 2 ? I[round] + k : I[round]; CK(TA_SetOptInputParamInteger(p, k, iv[k]) == TA_SUCCESS, "integer option accepted"); }
    }
  }
  CK(TA_ParamHolderFree(p) == TA_SUCCESS, "TA_ParamHolderFree");
}

static void c14(const aspec *s) {
  const TA_FuncHandle *h = handle(s->name); if (!h) return;
  const TA_FuncInfo *f = 0; CK(TA_GetFuncInfo(h, &f) == TA_SUCCESS && f, "TA_GetFuncInfo"); if (!f) return;
  CK(seq(f->name, s->name), "name"); CK(seq(f->group, s->group), "group"); CK(seq(f->camelCaseName, s->camel), "camel-case name"); CK(seq(f->hint, s->hint), "hint");
  CK(f->flags == s->flags, "flags"); CK((int)f->nbInput == s->nin, "number of inputs"); CK((int)f->nbOptInput == s->nopt, "number of options"); CK((int)f->nbOutput == s->nout, "number of outputs"); CK(f->handle == h, "handle in the description");
  char m[160];
  for (int k = 0; k < s->nin; k++) {
    const TA_InputParameterInfo *p = 0; CK(TA_GetInputParameterInfo(h, k, &p) == TA_SUCCESS && p, "input exists"); if (!p) continue;
    snprintf(m, sizeof m, "type of input %d", k); CK(p->type == (s->in[k].price ? TA_Input_Price : TA_Input_Real), m);
    snprintf(m, sizeof m, "components of input %d", k); CK(p->flags == s->in[k].flags, m);
    snprintf(m, sizeof m, "name of input %d", k); if (s->in[k].name) CK(seq(p->paramName, s->in[k].name), m);
  }
  for (int k = 0; k < s->nopt; k++) {
    const TA_OptInputParameterInfo *p = 0; CK(TA_GetOptInputParameterInfo(h, k, &p) == TA_SUCCESS && p, "option exists"); if (!p) continue;
    int t = s->opt[k].type; snprintf(m, sizeof m, "type of option %d", k); CK(p->type == (t == 'd' ? TA_OptInput_RealRange : t == 'i' ? TA_OptInput_IntegerRange : TA_OptInput_IntegerList), m);
    snprintf(m, sizeof m, "name of option %d", k); CK(seq(p->paramName, s->opt[k].name), m);
    snprintf(m, sizeof m, "display name of option %d", k); CK(seq(p->displayName, s->opt[k].display), m);
    snprintf(m, sizeof m, "default of option %d", k); CK(p->defaultValue == s->opt[k].def, m);
    snprintf(m, sizeof m, "range of option %d", k);
    if (t == 'd') { const TA_RealRange *r = p->dataSet; CK(r && r->min == s->opt[k].min && r->max == s->opt[k].max, m); }
    else if (t == 'i') { const TA_IntegerRange *r = p->dataSet; CK(r && r->min == (int)s->opt[k].min && r->max == (int)s->opt[k].max, m); }
    else { const TA_IntegerList *r = p->dataSet; CK(r && r->nbElement == 10, m); if (r) for (unsigned i = 0; i < r->nbElement && i < 10; i++) CK(r->data[i].value == (int)i && seq(r->data[i].string, manames[i]), m); }
  }
  for (int k = 0; k < s->nout; k++) {
    const TA_OutputParameterInfo *p = 0; CK(TA_GetOutputParameterInfo(h, k, &p) == TA_SUCCESS && p, "output exists"); if (!p) continue;
    snprintf(m, sizeof m, "type of output %d", k); CK(p->type == (s->out[k].real ? TA_Output_Real : TA_Output_Integer), m);
    snprintf(m, sizeof m, "name of output %d", k); CK(seq(p->paramName, s->out[k].name), m);
    snprintf(m, sizeof m, "flags of output %d", k); CK(p->flags == s->out[k].flags, m);
  }
  static const unsigned T[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 100, 0x7fffffff, 0x80000000u, 0xffffffffu };
  TA_FuncDef fake; memset(&fake, 0, sizeof fake);
  for (unsigned i = 0; i < sizeof T / sizeof *T; i++) {
    unsigned k = T[i]; const TA_InputParameterInfo *a; const TA_OptInputParameterInfo *b; const TA_OutputParameterInfo *c;
    CK(TA_GetInputParameterInfo(h, k, &a) == ((int)k >= 0 && (int)k < s->nin ? TA_SUCCESS : TA_BAD_PARAM), "input index validated");
    CK(TA_GetOptInputParameterInfo(h, k, &b) == ((int)k >= 0 && (int)k < s->nopt ? TA_SUCCESS : TA_BAD_PARAM), "option index validated");
    CK(TA_GetOutputParameterInfo(h, k, &c) == ((int)k >= 0 && (int)k < s->nout ? TA_SUCCESS : TA_BAD_PARAM), "output index validated");
    CK(TA_GetInputParameterInfo((TA_FuncHandle*)&fake, k, &a) == TA_INVALID_HANDLE && TA_GetOptInputParameterInfo((TA_FuncHandle*)&fake, k, &b) == TA_INVALID_HANDLE && TA_GetOutputParameterInfo((TA_FuncHandle*)&fake, k, &c) == TA_INVALID_HANDLE, "what is not a handle is refused");
    CK(TA_GetInputParameterInfo(0, k, &a) == TA_BAD_PARAM && TA_GetOptInputParameterInfo(0, k, &b) == TA_BAD_PARAM && TA_GetOutputParameterInfo(0, k, &c) == TA_BAD_PARAM, "null handle gives TA_BAD_PARAM");
    CK(TA_GetInputParameterInfo(h, k, 0) == TA_BAD_PARAM && TA_GetOptInputParameterInfo(h, k, 0) == TA_BAD_PARAM && TA_GetOutputParameterInfo(h, k, 0) == TA_BAD_PARAM, "null result pointer gives TA_BAD_PARAM");
  }
}

static int seen[400], order; static char lastc; static void *opq;
static void visit(const TA_FuncInfo *i, void *o) {
  int f = 0; for (int k = 0; k < naspec; k++) if (seq(i->name, aspecs[k].name)) { seen[k]++; f = 1; }
  if (!f || i->name[0] < lastc || o != opq) order = 1;
  lastc = i->name[0];
}
static void table(const char *what, const char *grp, int gt) {
  for (int fa = 0; fa < 6; fa++) {
    TA_StringTable *t = (TA_StringTable*)arr[0]; hook = 1; nalloc = live = 0; failat = fa; memset(lv, 0, sizeof lv);
    TA_RetCode r = gt ? TA_GroupTableAlloc(&t) : TA_FuncTableAlloc(grp, &t);
    if (fa && nalloc >= fa) { CK(r == TA_ALLOC_ERR, "allocation failure gives TA_ALLOC_ERR"); CK(t == 0, "allocation failure hands back NULL"); CK(live == 0, "nothing is leaked on allocation failure"); }
    else {
      CK(r == TA_SUCCESS, "table allocated"); int w = 0;
      if (r == TA_SUCCESS) {
      if (gt) w = NGROUPS; else for (int k = 0; k < naspec; k++) w += seq(aspecs[k].group, grp);
      CK((int)t->size == w, "table size");
      for (int k = 0; k < (gt ? NGROUPS : naspec); k++) {
        const char *nm = gt ? groups[k] : aspecs[k].name; int c = 0; if (!gt && !seq(aspecs[k].group, grp)) continue;
        for (unsigned i = 0; i < t->size; i++) c += seq(t->string[i], nm);
        CK(c == 1, "every name is listed exactly once");
      }
      CK((gt ? TA_FuncTableFree(t) : TA_GroupTableFree(t)) == TA_BAD_OBJECT, "a table of the other kind is refused");
      CK((gt ? TA_GroupTableFree(t) : TA_FuncTableFree(t)) == TA_SUCCESS && live == 0, "freeing releases everything"); }
    }
    hook = 0; failat = 0;
  }
}
static void tables(void) {
  BEGIN("ForEachFunc", "") { lastc = 0; order = 0; memset(seen, 0, sizeof seen); opq = arr[3]; CK(TA_ForEachFunc(visit, opq) == TA_SUCCESS, "TA_ForEachFunc succeeds"); for (int k = 0; k < naspec; k++) CK(seen[k] == 1, "TA_ForEachFunc visits every function exactly once"); CK(!order, "TA_ForEachFunc visits in alphabetical order and passes the opaque pointer"); CK(TA_ForEachFunc(0, opq) == TA_BAD_PARAM, "null function"); }
  BEGIN("GroupTable", "") { table("groups", 0, 1); CK(TA_GroupTableAlloc(0) == TA_BAD_PARAM && TA_GroupTableFree(0) == TA_SUCCESS && TA_FuncTableFree(0) == TA_SUCCESS, "null arguments"); }
  for (int k = 0; k < NGROUPS; k++) { char g[64]; strcpy(g, groups[k]); for (char *c = g; *c; c++) if (*c == ' ') *c = '_'; BEGIN("FuncTable", g) table("functions", groups[k], 0); }
  BEGIN("FuncTable", "unknown") { TA_StringTable *t = (TA_StringTable*)arr[0]; CK(TA_FuncTableAlloc("No Such Group", &t) == TA_GROUP_NOT_FOUND && !t, "unknown group"); CK(TA_FuncTableAlloc("", &t) == TA_GROUP_NOT_FOUND && !t, "empty group"); CK(TA_FuncTableAlloc(0, &t) == TA_BAD_PARAM && TA_FuncTableAlloc(groups[0], 0) == TA_BAD_PARAM, "null arguments"); }
  BEGIN("GetFuncHandle", "") {
    const TA_FuncHandle *h; char b[4] = "A"; TA_FuncDef fake; memset(&fake, 0, sizeof fake); const TA_FuncInfo *fi;
    CK(TA_GetFuncHandle(0, &h) == TA_BAD_PARAM && TA_GetFuncHandle("SMA", 0) == TA_BAD_PARAM && TA_GetFuncHandle("", &h) == TA_BAD_PARAM, "null and empty arguments");
    CK(TA_GetFuncInfo((TA_FuncHandle*)&fake, &fi) == TA_INVALID_HANDLE, "what is not a handle is refused");
    for (int c = -128; c < 128; c++) { b[0] = (char)c; if (!c) continue; h = (TA_FuncHandle*)arr; CK(TA_GetFuncHandle(b, &h) == TA_FUNC_NOT_FOUND && !h, "unknown one-letter name is not found"); }
    for (int k = 0; k < naspec; k++) { char n[64]; strcpy(n, aspecs[k].name); strcat(n, "_"); h = (TA_FuncHandle*)arr; CK(TA_GetFuncHandle(n, &h) == TA_FUNC_NOT_FOUND && !h, "a longer name is not found"); n[strlen(n) - 2] = 0; int any = 0; for (int j = 0; j < naspec; j++) any |= seq(n, aspecs[j].name); if (!any && *n) CK(TA_GetFuncHandle(n, &h) == TA_FUNC_NOT_FOUND, "a shorter name is not found"); strcpy(n, aspecs[k].name); n[1] |= 32; if (strcmp(n, aspecs[k].name)) CK(TA_GetFuncHandle(n, &h) == TA_FUNC_NOT_FOUND, "names are case sensitive"); }
  }
}

/* ---- C15 */
typedef struct { int in, out; unsigned char o[4096]; } snap;
static void c15(const aspec *s) {
  const TA_FuncHandle *h = handle(s->name); if (!h) return;
  TA_ParamHolder *p = 0; int b, n, lb;
  for (int fa = 0; fa < 7; fa++) {
    hook = 1; failat = fa; nalloc = live = 0; memset(lv, 0, sizeof lv); p = (TA_ParamHolder*)arr;
    TA_RetCode r = TA_ParamHolderAlloc(h, &p);
    if (fa && nalloc >= fa) { CK(r == TA_ALLOC_ERR, "allocation failure gives TA_ALLOC_ERR"); CK(!p, "allocation failure hands back NULL"); CK(!live, "nothing is leaked on allocation failure"); }
    else { CK(r == TA_SUCCESS && p, "holder allocated"); failat = 0; if (r == TA_SUCCESS) CK(TA_ParamHolderFree(p) == TA_SUCCESS && !live, "freeing releases everything"); }
    hook = 0; failat = 0;
  }
  CK(TA_ParamHolderAlloc(0, &p) == TA_BAD_PARAM && TA_ParamHolderAlloc(h, 0) == TA_BAD_PARAM && TA_ParamHolderFree(0) == TA_SUCCESS, "null arguments");
  if (TA_ParamHolderAlloc(h, &p) != TA_SUCCESS) return;
  TA_ParamHolderPriv *v = (TA_ParamHolderPriv*)p->hiddenData;
  int fi = (1 << s->nin) - 1, fo = (1 << s->nout) - 1;
  CK((int)v->inBitmap == fi && (int)v->outBitmap == fo, "everything starts unset");
  static const unsigned T[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 31, 32, 33, 0x7fffffff, 0x80000000u, 0xffffffffu };
  for (int round = 0; round < 3; round++) for (unsigned q = 0; q < sizeof T / sizeof *T; q++) {
    unsigned k = T[q]; char m[120]; int i0, o0; TA_RetCode r, w;
#define ST() v->inBitmap = i0 = round == 1 ? 0 : fi, v->outBitmap = o0 = round == 1 ? 0 : fo; if (round == 2) v->inBitmap = i0 = 0x55, v->outBitmap = o0 = 0xAA;
#define CHKI(nm) snprintf(m, sizeof m, nm " with index %u: return code %d instead of %d", k, r, w); CK(r == w, m); snprintf(m, sizeof m, nm " with index %u: record of set inputs", k); CK((int)v->inBitmap == (w ? i0 : i0 & ~(1 << k)) && (int)v->outBitmap == o0, m);
#define CHKO(nm) snprintf(m, sizeof m, nm " with index %u: return code %d instead of %d", k, r, w); CK(r == w, m); snprintf(m, sizeof m, nm " with index %u: record of set outputs", k); CK((int)v->outBitmap == (w ? o0 : o0 & ~(1 << k)) && (int)v->inBitmap == i0, m);
    ST() r = TA_SetInputParamRealPtr(p, k, arr[0]); w = k >= (unsigned)s->nin ? TA_BAD_PARAM : s->in[k].price ? TA_INVALID_PARAM_HOLDER_TYPE : TA_SUCCESS; CHKI("TA_SetInputParamRealPtr")
    ST() r = TA_SetInputParamIntegerPtr(p, k, iout[0]); w = k >= (unsigned)s->nin ? TA_BAD_PARAM : TA_INVALID_PARAM_HOLDER_TYPE; CHKI("TA_SetInputParamIntegerPtr")
    for (int mk = 0; mk < 64; mk++) { ST() r = setprice(p, k, mk, 0); w = k >= (unsigned)s->nin ? TA_BAD_PARAM : !s->in[k].price ? TA_INVALID_PARAM_HOLDER_TYPE : (s->in[k].mask & ~mk) ? TA_BAD_PARAM : TA_SUCCESS; CHKI("TA_SetInputParamPricePtr")
      if (r == TA_SUCCESS) for (int c = 0; c < 6; c++) if (s->in[k].mask >> c & 1) CK((&v->in[k].data.inPrice.open)[c] == arr[c], "the price array is stored"); }
    ST() r = TA_SetOutputParamRealPtr(p, k, arr[1]); w = k >= (unsigned)s->nout ? TA_BAD_PARAM : !s->out[k].real ? TA_INVALID_PARAM_HOLDER_TYPE : TA_SUCCESS; CHKO("TA_SetOutputParamRealPtr")
    ST() r = TA_SetOutputParamIntegerPtr(p, k, iout[1]); w = k >= (unsigned)s->nout ? TA_BAD_PARAM : s->out[k].real ? TA_INVALID_PARAM_HOLDER_TYPE : TA_SUCCESS; CHKO("TA_SetOutputParamIntegerPtr")
    w = 0; i0 = v->inBitmap; o0 = v->outBitmap;
    r = TA_SetOptInputParamInteger(p, k, 5 + round); w = k >= (unsigned)s->nopt ? TA_BAD_PARAM : s->opt[k].type == 'd' ? TA_INVALID_PARAM_HOLDER_TYPE : TA_SUCCESS; snprintf(m, sizeof m, "TA_SetOptInputParamInteger with index %u", k); CK(r == w && (int)v->inBitmap == i0 && (int)v->outBitmap == o0, m); if (!r && !w) CK(v->optIn[k].data.optInInteger == 5 + round, "the option is stored");
    r = TA_SetOptInputParamReal(p, k, 0.5 + round); w = k >= (unsigned)s->nopt ? TA_BAD_PARAM : s->opt[k].type != 'd' ? TA_INVALID_PARAM_HOLDER_TYPE : TA_SUCCESS; snprintf(m, sizeof m, "TA_SetOptInputParamReal with index %u", k); CK(r == w && (int)v->inBitmap == i0 && (int)v->outBitmap == o0, m); if (!r && !w) CK(v->optIn[k].data.optInReal == 0.5 + round, "the option is stored");
    CK(TA_SetInputParamRealPtr(0, k, arr[0]) == TA_BAD_PARAM && TA_SetInputParamRealPtr(p, k, 0) == TA_BAD_PARAM && TA_SetInputParamIntegerPtr(0, k, iout[0]) == TA_BAD_PARAM && TA_SetInputParamIntegerPtr(p, k, 0) == TA_BAD_PARAM && TA_SetOutputParamRealPtr(0, k, arr[0]) == TA_BAD_PARAM && TA_SetOutputParamRealPtr(p, k, 0) == TA_BAD_PARAM && TA_SetOutputParamIntegerPtr(0, k, iout[0]) == TA_BAD_PARAM && TA_SetOutputParamIntegerPtr(p, k, 0) == TA_BAD_PARAM && TA_SetOptInputParamInteger(0, k, 1) == TA_BAD_PARAM && TA_SetOptInputParamReal(0, k, 1) == TA_BAD_PARAM && setprice(0, k, 63, 0) == TA_BAD_PARAM, "setters refuse null arguments");
  }
  unsigned mg = v->magicNumber; v->magicNumber = mg + 1;
  CK(TA_SetInputParamRealPtr(p, 0, arr[0]) == TA_INVALID_PARAM_HOLDER && TA_SetInputParamIntegerPtr(p, 0, iout[0]) == TA_INVALID_PARAM_HOLDER && setprice(p, 0, 63, 0) == TA_INVALID_PARAM_HOLDER && TA_SetOutputParamRealPtr(p, 0, arr[0]) == TA_INVALID_PARAM_HOLDER && TA_SetOutputParamIntegerPtr(p, 0, iout[0]) == TA_INVALID_PARAM_HOLDER && TA_SetOptInputParamInteger(p, 0, 1) == TA_INVALID_PARAM_HOLDER && TA_SetOptInputParamReal(p, 0, 1) == TA_INVALID_PARAM_HOLDER, "setters refuse what is not a holder");
  rec_n = 0;
  CK(TA_CallFunc(p, 0, 1, &b, &n) == TA_INVALID_PARAM_HOLDER && TA_CallFuncState(p) == TA_INVALID_PARAM_HOLDER && TA_CallFuncBatchState(p, 0, 1, &b, &n) == TA_INVALID_PARAM_HOLDER && TA_GetLookback(p, &lb) == TA_INVALID_PARAM_HOLDER && TA_InitNewState(p) == TA_INVALID_PARAM_HOLDER && TA_FreeState(p) == TA_INVALID_PARAM_HOLDER && TA_ParamHolderFree(p) == TA_INVALID_PARAM_HOLDER && !rec_n, "calls refuse what is not a holder");
  v->magicNumber = mg;
  for (int k = 0; k < s->nin; k++) { v->inBitmap = 1 << k; v->outBitmap = 0; CK(TA_CallFunc(p, 0, 1, &b, &n) == TA_INPUT_NOT_ALL_INITIALIZE && TA_CallFuncState(p) == TA_INPUT_NOT_ALL_INITIALIZE && TA_CallFuncBatchState(p, 0, 1, &b, &n) == TA_INPUT_NOT_ALL_INITIALIZE && !rec_n, "calls refuse a holder with an unset input"); }
  for (int k = 0; k < s->nout; k++) { v->inBitmap = 0; v->outBitmap = 1 << k; CK(TA_CallFunc(p, 0, 1, &b, &n) == TA_OUTPUT_NOT_ALL_INITIALIZE && TA_CallFuncState(p) == TA_OUTPUT_NOT_ALL_INITIALIZE && TA_CallFuncBatchState(p, 0, 1, &b, &n) == TA_OUTPUT_NOT_ALL_INITIALIZE && !rec_n, "calls refuse a holder with an unset output"); }
  CK(TA_CallFunc(0, 0, 1, &b, &n) == TA_BAD_PARAM && TA_CallFunc(p, 0, 1, 0, &n) == TA_BAD_PARAM && TA_CallFunc(p, 0, 1, &b, 0) == TA_BAD_PARAM && TA_CallFuncState(0) == TA_BAD_PARAM && TA_CallFuncBatchState(0, 0, 1, &b, &n) == TA_BAD_PARAM && TA_CallFuncBatchState(p, 0, 1, 0, &n) == TA_BAD_PARAM && TA_CallFuncBatchState(p, 0, 1, &b, 0) == TA_BAD_PARAM && TA_GetLookback(0, &lb) == TA_BAD_PARAM && TA_GetLookback(p, 0) == TA_BAD_PARAM && TA_InitNewState(0) == TA_BAD_PARAM && TA_FreeState(0) == TA_BAD_PARAM && !rec_n, "calls refuse null arguments");
  TA_ParamHolderFree(p);
}

/* ---- C16 */
static int cd(int i) { const TA_CandleSetting *c = &TA_Globals->candleSettings[candle[i].id]; return (int)c->settingType == candle[i].id && (int)c->rangeType == candle[i].range && c->avgPeriod == candle[i].period && c->factor == candle[i].factor; }
static const int IDS[] = { INT_MIN, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 1000, INT_MAX };
#define NIDS (int)(sizeof IDS / sizeof *IDS)
#define NU TA_FUNC_UNST_ALL
#define NC TA_AllCandleSettings
static TA_LibcPriv old;
static void scramble(void) { for (int i = 0; i < NU; i++) TA_Globals->unstablePeriod[i] = 100 + i; for (int i = 0; i < NC; i++) { TA_CandleSetting *c = &TA_Globals->candleSettings[i]; c->settingType = 50 + i; c->rangeType = 70 + i; c->avgPeriod = 90 + i; c->factor = 0.25 * i + 5; } TA_Globals->compatibility = 17; old = *TA_Globals; }
static int same_u(int skip) { for (int i = 0; i < NU; i++) if (i != skip && TA_Globals->unstablePeriod[i] != old.unstablePeriod[i]) return 0; return 1; }
static int same_c(int skip) { for (int i = 0; i < NC; i++) { if (i == skip) continue; TA_CandleSetting *a = &TA_Globals->candleSettings[i], *c = &old.candleSettings[i]; if (a->settingType != c->settingType || a->rangeType != c->rangeType || a->avgPeriod != c->avgPeriod || a->factor != c->factor) return 0; } return 1; }
static int same_k(void) { return TA_Globals->compatibility == old.compatibility; }
static void glob(void) {
  char m[120];
  BEGIN("Initialize", "") { TA_Initialize(); scramble(); CK(TA_Initialize() == TA_SUCCESS, "TA_Initialize succeeds"); CK(TA_GetCompatibility() == TA_COMPATIBILITY_DEFAULT, "compatibility is the default"); for (int i = 0; i < NU; i++) CK(TA_GetUnstablePeriod(i) == 0, "unstable periods are 0"); for (int i = 0; i < NCANDLE; i++) { snprintf(m, sizeof m, "candle setting %d has its default", candle[i].id); CK(cd(i), m); } }
  BEGIN("Shutdown", "") { TA_Initialize(); CK(TA_Shutdown() == TA_SUCCESS, "TA_Shutdown succeeds"); CK(TA_Shutdown() == TA_LIB_NOT_INITIALIZE, "a second TA_Shutdown is refused"); CK(TA_Initialize() == TA_SUCCESS, "TA_Initialize again"); }
  TA_Initialize();
  for (int q = 0; q < NIDS; q++) { int id = IDS[q]; snprintf(m, sizeof m, "%d", id);
    BEGIN("SetUnstablePeriod", m) { scramble(); int ok = id >= 0 && id <= NU; CK(TA_SetUnstablePeriod(id, 4321) == (ok ? TA_SUCCESS : TA_BAD_PARAM), "return code"); for (int i = 0; i < NU; i++) { snprintf(m, sizeof m, "unstable period %d after TA_SetUnstablePeriod(%d)", i, id); CK((int)TA_Globals->unstablePeriod[i] == (ok && (id == i || id == NU) ? 4321 : 100 + i), m); } CK(same_c(-1) && same_k(), "other settings unchanged"); }
    snprintf(m, sizeof m, "%d", id);
    BEGIN("GetUnstablePeriod", m) { scramble(); CK((int)TA_GetUnstablePeriod(id) == (id >= 0 && id < NU ? 100 + id : 0), "stored value"); CK(same_u(-1) && same_c(-1) && same_k(), "settings unchanged"); }
    BEGIN("SetCandleSettings", m) { scramble(); int ok = id >= 0 && id < NC; CK(TA_SetCandleSettings(id, 2, 33, 0.75) == (ok ? TA_SUCCESS : TA_BAD_PARAM), "return code"); CK(same_c(ok ? id : -1), "other candle settings unchanged"); if (ok) { TA_CandleSetting *c = &TA_Globals->candleSettings[id]; CK((int)c->settingType == id && c->rangeType == 2 && c->avgPeriod == 33 && c->factor == 0.75, "setting stored"); } CK(same_u(-1) && same_k(), "other settings unchanged"); }
    BEGIN("RestoreCandleDefaultSettings", m) { scramble(); int ok = id >= 0 && id <= NC; CK(TA_RestoreCandleDefaultSettings(id) == (ok ? TA_SUCCESS : TA_BAD_PARAM), "return code"); if (id == NC) { for (int i = 0; i < NCANDLE; i++) CK(cd(i), "all candle settings restored"); } else { CK(same_c(ok ? id : -1), "other candle settings unchanged"); if (ok) for (int i = 0; i < NCANDLE; i++) if (candle[i].id == id) CK(cd(i), "candle setting restored"); } CK(same_u(-1) && same_k(), "other settings unchanged"); }
    BEGIN("SetCompatibility", m) { scramble(); CK(TA_SetCompatibility(id) == TA_SUCCESS && (int)TA_GetCompatibility() == id, "compatibility stored"); CK(same_u(-1) && same_c(-1), "other settings unchanged"); }
    BEGIN("SetRetCodeInfo", m) { int ok = 0; for (int i = 0; i < NRET; i++) ok |= rets[i].v == id; if (!ok) { TA_RetCodeInfo r = { 0, 0 }; TA_SetRetCodeInfo(id, &r); CK(seq(r.enumStr, "TA_UNKNOWN_ERR") && r.infoStr, "unknown code"); } }
  }
  for (int i = 0; i < NRET; i++) BEGIN("SetRetCodeInfo", rets[i].n) { TA_RetCodeInfo r = { 0, 0 }; TA_SetRetCodeInfo(rets[i].v, &r); CK(seq(r.enumStr, rets[i].n) && r.infoStr, "name of the return code"); }
  for (int i = 0; i < 1000; i += 37) { snprintf(m, sizeof m, "internal%d", i); BEGIN("SetRetCodeInfo", m) { TA_RetCodeInfo r = { 0, 0 }; TA_SetRetCodeInfo(TA_INTERNAL_ERROR + i, &r); CK(seq(r.enumStr, "TA_INTERNAL_ERROR"), "internal errors are named"); } }
}

int main(int c, char **v) {
  if (c < 2) return 2;
  only = c > 2 ? v[2] : 0;
  if (!strcmp(v[1], "glob")) glob();
  else {
    for (int k = 0; k < naspec; k++) BEGIN("function", aspecs[k].name) { if (!strcmp(v[1], "C13")) c13(aspecs + k); else if (!strcmp(v[1], "C14")) c14(aspecs + k); else c15(aspecs + k); }
    if (!strcmp(v[1], "C14")) tables();
  }
  printf("cases=%d\n", cases);
  return bad != 0;
}
