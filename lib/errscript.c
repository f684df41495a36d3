/* Interpreter for scripts of nested ErrTry blocks: executes the real macros of err.h and records
   what the clauses and the error handler see. */
#include "config.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include "utils/err.h"

enum { END, ERR, WARN, RAISE, TRY, CLEAR, RERAISE, PEEK, INFO };
static const int *P;
static const char *pad;
static FILE *L;

static void rec(char kind, int id, int level, int eval, const char *msg)
{
  fprintf(L, "%c %d %d %d %zu ", kind, id, level, eval, strlen(msg));
  fwrite(msg, 1, strlen(msg), L);
  fputc('\n', L);
}
static void handler(const ErrRecord *r) { rec('H', 0, r->level, r->eval, r->msg); }
static void peek(int id) { rec('P', id, err_getlevel(), err_geteval(), err_getmsg()); }

static int exec(int at);

/* P[at..]: variant c1 c2 breaks then offsets: body catch1 catch2 other else finally */
#define C1 P[at+1]
#define C2 P[at+2]
#define BRK(k) if ((P[at+3] >> (k)) & 1) break
#define RUN(k) if (exec(P[at+4+(k)])) { err_reraise(); }
#define OTHER1 ErrOther: RUN(3); BRK(3);
#define OTHER0
#define ELSE1 ErrElse: RUN(4); BRK(4);
#define ELSE0
#define FIN1 ErrFinally: RUN(5); BRK(5);
#define FIN0
#define FUN(n, O, E, F)                         \
  static void try##n(int at) {                  \
    ErrTry: exec(P[at+4]); BRK(0);              \
    ErrCatch(C1): RUN(1); BRK(1);               \
    ErrCatch(C2): RUN(2); BRK(2);               \
    O E F                                       \
    ErrEnd;                                     \
  }
FUN(0, OTHER0, ELSE0, FIN0)
FUN(1, OTHER1, ELSE0, FIN0)
FUN(2, OTHER0, ELSE1, FIN0)
FUN(3, OTHER1, ELSE1, FIN0)
FUN(4, OTHER0, ELSE0, FIN1)
FUN(5, OTHER1, ELSE0, FIN1)
FUN(6, OTHER0, ELSE1, FIN1)
FUN(7, OTHER1, ELSE1, FIN1)
static void (*const tries[])(int) = {try0, try1, try2, try3, try4, try5, try6, try7};

static int exec(int at)
{
  for (;;) {
    const int *p = P + at;
    errno = 0;
    switch (p[0]) {
    case END: return 0;
    case ERR: _err_format(errLevelError, p[1], 0, NULL, NULL, "%.*s", p[2], pad); at += 3; break;
    case WARN: _err_format(errLevelWarn, 0, 0, NULL, NULL, "%.*s", p[2], pad); at += 3; break;
    case INFO: _err_format(errLevelInfo, 0, 0, NULL, NULL, "%.*s", p[2], pad); at += 3; break;
    case RAISE: err_raisex(p[1], "%.*s", p[2], pad);
    case TRY: tries[p[1]](at+1); at += 11; break;
    case CLEAR: err_clear(); at++; break;
    case RERAISE: return 1;
    case PEEK: peek(p[1]); at += 2; break;
    default: abort();
    }
  }
}

/* Returns malloc'ed log of running `prog`, whose messages are prefixes of `padding` */
char *errscript(const int *prog, const char *padding, int override, int warnmode, int level, const char *prefix)
{
  char *buf = NULL;
  size_t n = 0;
  int i, old[3];
  ErrHandler h;
  ErrNameConv nc;
  const char *pf;
  FILE *st;
  P = prog;
  pad = padding;
  if (!(L = open_memstream(&buf, &n))) abort();
  err_clear();
  st = err_set_stream(NULL);
  h = err_set_handler(handler);
  nc = err_set_nameconv(NULL);
  pf = err_set_prefix(prefix);
  old[0] = err_set_override_mode(override);
  old[1] = err_set_warn_mode(warnmode);
  old[2] = err_set_level(level);
  exec(0);
  peek(-1);
  err_clear();
  err_set_level(old[2]);
  err_set_warn_mode(old[1]);
  err_set_override_mode(old[0]);
  err_set_prefix(pf);
  err_set_nameconv(nc);
  err_set_handler(h);
  err_set_stream(st);
  fclose(L);
  (void)i;
  return buf;
}
