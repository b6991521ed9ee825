#ifndef FNTAB_H
#define FNTAB_H
#include <stdio.h>
typedef union { int i; double d; } optv;
typedef struct {
  const char *name; int nin; const char *opt; const char *out; const char *ins; const char *optn;
  int (*lookback)(const optv*);
  int (*batch)(int,int,const void*const*,const optv*,int*,int*,void*const*);
  int (*sbatch)(int,int,const void*const*,const optv*,int*,int*,void*const*);
  int (*init)(void**,const optv*);
  int (*state)(void*,const double*,void*const*);
  int (*bstate)(void*,int,int,const void*const*,int*,int*,void*const*);
  int (*sfree)(void**);
  int (*ssave)(void*,FILE*);
  int (*sload)(void**,FILE*);
} fnent;
extern const fnent fntab[]; extern const int fntab_n;
#endif
