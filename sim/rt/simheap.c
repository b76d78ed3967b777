/* A workload in C: random graphs of every heap type built through the public API and changed
   with the write barrier, mirrored by a shadow graph outside the collector's sight. After every
   few operations the two graphs are walked side by side, then everything reachable from the
   interpreter itself is walked. Several instances can run side by side in several interpreters. */
#include "sim.h"
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include "potion.h"
#include "internal.h"
#include "khash.h"
#include "table.h"
#include "asm.h"
#include "ast.h"
#define NR 24
#define NG 8
enum { S_TUPLE = 1, S_TABLE, S_STR, S_BYTES, S_DBL, S_CLO, S_REF, S_DATA, S_CLASS, S_OBJ, S_LICK, S_ERR, S_SRC, S_ASM, S_FUN, S_MAX };
static const char *const sname[] = {"", "tuple", "table", "string", "bytes", "double", "closure", "ref", "data", "class", "object", "lick", "error", "source", "buffer", "function"};
typedef struct { int id; unsigned long imm; } SV;                    /* id 0: an immediate value */
typedef struct { int type; u32 n, cap; SV *k; u32 len, bcap; u8 *b; double d; long aux, aux2; unsigned long at; int epoch; } Sh;
typedef struct { Potion *P; volatile unsigned long *roots; SV sr[NR]; SV sg[NG]; int gset[NG]; Sh *o; int no, co, ncls, epoch, who; u64 verified, kinds, objs; } W;
static const char *const ivname[] = {"aa", "bb", "cc", "dd", "ee", "ff", "gg", "hh"};
static const char *const mname[] = {"mone", "mtwo", "mthree", "mfour"};
static int failed;
static unsigned long send0(Potion *P, PN rcv, PN msg) { return potion_send(rcv, msg); }
static unsigned long send1(Potion *P, PN rcv, PN msg, PN a) { return potion_send(rcv, msg, a); }
static void def(Potion *P, PN rcv, PN name, PN f) { potion_send(rcv, PN_def, name, f); }
#define FAIL(...) do { if (!failed) { failed = 1; sim_violation(__VA_ARGS__); } return; } while (0)
#define FAIL0(...) do { if (!failed) { failed = 1; sim_violation(__VA_ARGS__); } return 0; } while (0)
static SV imm(unsigned long v) { SV s = {0, v}; return s; }
static SV ref(int id) { SV s = {id, 0}; return s; }
static int sh_new(W *w, int type) {
  if (w->no == w->co) { w->co = w->co ? w->co * 2 : 256; w->o = realloc(w->o, w->co * sizeof(Sh)); if (!w->no) w->no = 1; }
  memset(&w->o[w->no], 0, sizeof(Sh)); w->o[w->no].type = type; w->objs++; w->kinds |= 1ull << type; return w->no++;
}
static void sh_push(Sh *s, SV v) { if (s->n == s->cap) { s->cap = s->cap ? s->cap * 2 : 4; s->k = realloc(s->k, s->cap * sizeof(SV)); } s->k[s->n++] = v; }
static void sh_bytes(Sh *s, const void *p, u32 n) { if (s->len + n > s->bcap) { s->bcap = (s->len + n) * 2; s->b = realloc(s->b, s->bcap); } memcpy(s->b + s->len, p, n); s->len += n; }
static int sveq(SV a, SV b) { return a.id == b.id && (a.id || a.imm == b.imm); }
static void content(long a, long b, char *out, u32 *len) {           /* the text number a of length class b */
  u32 n = b % 16 == 0 ? 300 + a % 5000 : b % 16 < 3 ? 40 + a % 60 : 1 + a % 12; u32 m = sprintf(out, "%ld", a % 997);
  while (m < n) { out[m] = 'a' + (a * 7 + m * 3) % 26; m++; } out[m] = 0; *len = m;
}
static int sh_str(W *w, const char *p, u32 len) {
  for (int i = 1; i < w->no; i++) if (w->o[i].type == S_STR && w->o[i].len == len && !memcmp(w->o[i].b, p, len)) return i;
  int id = sh_new(w, S_STR); sh_bytes(&w->o[id], p, len); return id;
}
/* ---- walking the real graph along the shadow ---- */
static unsigned long tkey(W *w, unsigned long t, SV key, unsigned long *val) {   /* a key of a table, by content; no allocation */
  Potion *P = w->P; struct PNTable *h = (struct PNTable *)potion_fwd(t);
  for (unsigned i = kh_begin(h); i != kh_end(h); i++) if (kh_exist(PN, h, i)) {
    unsigned long k = kh_key(PN, h, i);
    if (key.id ? (PN_IS_PTR(k) && ((struct PNObject *)k)->vt == PN_TSTRING && PN_STR_LEN(k) == w->o[key.id].len && !memcmp(((struct PNString *)k)->chars, w->o[key.id].b, w->o[key.id].len)) : k == key.imm) { if (val) *val = kh_val(PN, h, i); return k; }
  }
  return 0;
}
static int nkids(W *w, int id) { return w->o[id].n; }
static unsigned long kid(W *w, unsigned long r, int id, int k) {
  Sh *s = &w->o[id]; r = potion_fwd(r);
  switch (s->type) {
    case S_TUPLE: return ((struct PNTuple *)r)->set[k];
    case S_TABLE: { unsigned long v = 0, key = tkey(w, r, s->k[k & ~1], &v); return k & 1 ? v : key; }
    case S_CLO: return ((struct PNClosure *)r)->data[k];
    case S_REF: return ((struct PNWeakRef *)r)->data;
    case S_OBJ: return ((struct PNObject *)r)->ivars[k];
    case S_LICK: return k == 0 ? ((struct PNLick *)r)->name : k == 1 ? ((struct PNLick *)r)->inner : ((struct PNLick *)r)->attr;
    case S_ERR: return k == 0 ? ((struct PNError *)r)->message : ((struct PNError *)r)->excerpt;
    case S_SRC: return (unsigned long)((struct PNSource *)r)->a[k];
    case S_CLASS: { struct PNVtable *vt = (struct PNVtable *)r; unsigned long v = 0; tkey(w, (unsigned long)vt->methods, s->k[k & ~1], &v); return k & 1 ? v : tkey(w, (unsigned long)vt->methods, s->k[k & ~1], 0); }
  }
  return 0;
}
static unsigned long find(W *w, int type, u64 a, int *id) {          /* something of the type, starting at a root */
  for (int t = 0; t < NR; t++) {
    SV s = w->sr[(a + t) % NR]; unsigned long r = w->roots[(a + t) % NR]; u64 x = a / NR;
    for (int d = 0; d < 12 && s.id; d++) {
      if (w->o[s.id].type == type && (d || 1) && (x % 3 || d > 3 || !nkids(w, s.id))) { *id = s.id; return r; }
      int n = nkids(w, s.id); if (!n) break;
      int k = x % n; x = x / 3 + 7; unsigned long c = kid(w, r, s.id, k); s = w->o[s.id].k[k]; r = c;
    }
    if (s.id && w->o[s.id].type == type) { *id = s.id; return r; }
  }
  *id = 0; return 0;
}
static unsigned long value(W *w, u64 b, SV *s) {                     /* a value to store somewhere */
  if (b % 8 == 0) { *s = imm(PN_NUM((long)(b % 100003) - 50000)); return s->imm; }
  if (b % 64 == 1) { *s = imm(b & 64 ? PN_TRUE : PN_NIL); return s->imm; }
  *s = w->sr[b / 8 % NR]; return w->roots[b / 8 % NR];
}
static int heap_has(Potion *P, unsigned long p, u64 n) {
  struct PNMemory *M = P->mem;
  if (p & 7) return 0;
  return (p >= (unsigned long)M->birth_lo && p + n <= (unsigned long)M->birth_cur) || (M->old_lo && p >= (unsigned long)M->old_lo && p + n <= (unsigned long)M->old_cur) ||
    (p >= (unsigned long)M && p + n <= (unsigned long)M->protect);
}
typedef struct { unsigned long p, v; int id; } Todo;
static __thread Todo *todo; static __thread u64 ntodo, ctodo;
static void add(unsigned long p, int id, unsigned long v) { if (ntodo == ctodo) { ctodo = ctodo ? ctodo * 2 : 1024; todo = realloc(todo, ctodo * sizeof(Todo)); } todo[ntodo].p = p; todo[ntodo].id = id; todo[ntodo++].v = v; }
static int wellformed(W *w, unsigned long r, unsigned long vt, const char *what) {
  Potion *P = w->P;
  if (!heap_has(P, r, 16)) FAIL0("%d: a reference to a %s leads to %#lx, outside the heap", w->who, what, r);
  if (((struct PNObject *)r)->vt != vt) FAIL0("%d: a %s has become something of type %#x", w->who, what, ((struct PNObject *)r)->vt);
  u64 sz = potion_type_size(P, (struct PNObject *)r);
  if (sz < 16 || !heap_has(P, r, sz)) FAIL0("%d: a %s of %llu bytes reaches past the end of the heap", w->who, what, (unsigned long long)sz);
  return 1;
}
static void check(W *w, unsigned long r, SV sv) {
  Potion *P = w->P; unsigned long exp;
  if (!sv.id) { if (r != sv.imm) FAIL("%d: an immediate value %#lx has become %#lx", w->who, sv.imm, r); return; }
  Sh *s = &w->o[sv.id];
  if (!PN_IS_PTR(r) || !heap_has(P, r, 16)) FAIL("%d: a reference to a %s has become %#lx", w->who, sname[s->type], r);
  r = potion_fwd(r);
  if (s->epoch == w->epoch) { if (s->at != r) FAIL("%d: two references to one %s lead to different objects", w->who, sname[s->type]); return; }
  s->epoch = w->epoch; s->at = r;
  static const unsigned types[] = {0, PN_TTUPLE, PN_TTABLE, PN_TSTRING, PN_TBYTES, PN_TNUMBER, PN_TCLOSURE, PN_TWEAK, PN_TUSER, PN_TVTABLE, 0, PN_TLICK, PN_TERROR, PN_TSOURCE, PN_TBYTES, PN_TCLOSURE};
  exp = s->type == S_OBJ ? s->aux : types[s->type];
  if (!wellformed(w, r, exp, sname[s->type])) return;
  switch (s->type) {
    case S_TUPLE: { struct PNTuple *t = (struct PNTuple *)r; if (t->len != s->n || t->alloc < t->len) FAIL("%d: a tuple of %u has %u values and room for %u", w->who, s->n, t->len, t->alloc); break; }
    case S_TABLE: { struct PNTable *t = (struct PNTable *)r; if (t->size != s->n / 2) FAIL("%d: a table of %u has %u entries", w->who, s->n / 2, t->size); break; }
    case S_STR: if (PN_STR_LEN(r) != s->len || memcmp(((struct PNString *)r)->chars, s->b, s->len) || ((struct PNString *)r)->chars[s->len]) FAIL("%d: the text of a string of %u has changed", w->who, s->len); break;
    case S_BYTES: { struct PNBytes *b = (struct PNBytes *)r; if (b->len != s->len || b->siz < b->len || memcmp(b->chars, s->b, s->len)) FAIL("%d: the contents of a byte string of %u have changed", w->who, s->len); break; }
    case S_ASM: { PNAsm *b = (PNAsm *)r; if (b->len != s->len || b->siz < b->len || memcmp(b->ptr, s->b, s->len)) FAIL("%d: the contents of a buffer of %u have changed", w->who, s->len); break; }
    case S_DBL: if (((struct PNDouble *)r)->value != s->d) FAIL("%d: a double has changed", w->who); break;
    case S_CLO: { struct PNClosure *c = (struct PNClosure *)r; if (c->extra != s->n || (long)c->method != s->aux) FAIL("%d: a closure of %u has changed", w->who, s->n); break; }
    case S_DATA: { struct PNData *d = (struct PNData *)r; if (d->siz != s->len || memcmp(d->data, s->b, s->len)) FAIL("%d: the contents of user data of %u have changed", w->who, s->len); break; }
    case S_CLASS: { struct PNVtable *v = (struct PNVtable *)r; if (v->type != s->aux || v->ivlen != s->aux2 || PN_VTABLE(s->aux) != (PN)r) FAIL("%d: a class has changed", w->who); break; }
    case S_ERR: if (((struct PNError *)r)->line != PN_NUM(s->aux)) FAIL("%d: an error has changed", w->who); break;
    case S_SRC: if (((struct PNSource *)r)->part != s->aux) FAIL("%d: a source node has changed", w->who); break;
  }
  for (u32 k = 0; k < s->n; k++) add(kid(w, r, sv.id, k), s->k[k].id, s->k[k].imm);
}
/* ---- everything reachable from the interpreter itself ---- */
static __thread unsigned long *seen; static __thread u64 nseen, cseen;
static int see(unsigned long p) {
  if (nseen * 2 >= cseen) { u64 oc = cseen; unsigned long *o = seen; cseen = cseen ? cseen * 2 : 8192; seen = calloc(cseen, 8); nseen = 0; for (u64 i = 0; i < oc; i++) if (o[i]) see(o[i]); free(o); }
  u64 h = (p >> 3) * 0x9e3779b97f4a7c15ull >> 20; for (;; h++) { h %= cseen; if (!seen[h]) { seen[h] = p; nseen++; return 1; } if (seen[h] == p) return 0; }
}
static void visit(W *w, unsigned long p, const char *from) {
  Potion *P = w->P; const unsigned fwds = 8;
  if (!PN_IS_PTR(p) || failed) return;
  for (unsigned i = 0; ; i++) {
    if (!heap_has(P, p, 16)) FAIL("%d: a reference held by a live %s leads to %#lx, outside the heap", w->who, from, p);
    struct PNFwd *f = (struct PNFwd *)p;
    if (f->fwd == POTION_COPIED) FAIL("%d: a reference held by a live %s leads to the old place of a moved object", w->who, from);
    if (f->fwd != POTION_FWD) break;
    if (i > fwds * 4) FAIL("%d: a chain of forwarding references held by a live %s does not end", w->who, from);
    p = f->ptr;
  }
  if (see(p)) add(p, 0, 0);
}
#define V(x) visit(w, (unsigned long)(x), nm)
static void scan(W *w, unsigned long p) {
  Potion *P = w->P; struct PNObject *o = (struct PNObject *)p; char nm[32]; unsigned vt = o->vt;
  if (p == (unsigned long)P || p == (unsigned long)P->mem) return;
  if (vt < PN_TNIL || vt >= PN_TNIL + P->vts->len) FAIL("%d: something reachable has no type (%#x)", w->who, vt);
  snprintf(nm, sizeof nm, "object of type %d", (int)(vt - PN_TNIL));
  u64 sz = potion_type_size(P, o);
  if (sz < 16 || !heap_has(P, p, sz)) FAIL("%d: a live %s of %llu bytes reaches past the end of the heap", w->who, nm, (unsigned long long)sz);
  if (vt > PN_TUSER) { int n = ((struct PNVtable *)PN_VTABLE(vt))->ivlen; for (int i = 0; i < n; i++) V(o->ivars[i]); return; }
  switch (vt) {
    case PN_TWEAK: V(((struct PNWeakRef *)o)->data); break;
    case PN_TCLOSURE: { struct PNClosure *c = (struct PNClosure *)o; V(c->sig); V(c->name); for (unsigned i = 0; i < c->extra; i++) V(c->data[i]); break; }
    case PN_TTUPLE: { struct PNTuple *t = (struct PNTuple *)o; for (unsigned i = 0; i < t->len; i++) V(t->set[i]); break; }
    case PN_TFILE: V(((struct PNFile *)o)->path); break;
    case PN_TVTABLE: { struct PNVtable *v = (struct PNVtable *)o; V(v->name); V(v->ivars); V(v->methods); V(v->meta); V(v->ctor); V(v->call); V(v->callset); break; }
    case PN_TSOURCE: { struct PNSource *s = (struct PNSource *)o; V(s->a[0]); V(s->a[1]); V(s->a[2]); V(s->line); break; }
    case PN_TPROTO: { struct PNProto *f = (struct PNProto *)o; V(f->source); V(f->sig); V(f->stack); V(f->paths); V(f->locals); V(f->upvals); V(f->values); V(f->protos); V(f->debugs); V(f->asmb); V(f->name); break; }
    case PN_TTABLE: { struct PNTable *t = (struct PNTable *)o; for (unsigned i = 0; i != kh_end(t); i++) if (kh_exist(PN, t, i)) { V(kh_key(PN, t, i)); V(kh_val(PN, t, i)); } break; }
    case PN_TSTRINGS: { struct PNTable *t = (struct PNTable *)o; for (unsigned i = 0; i != kh_end(t); i++) if (kh_exist(str, t, i)) { unsigned long s = kh_key(str, t, i); V(s); if (!failed && ((struct PNObject *)potion_fwd(s))->vt != PN_TSTRING) FAIL("%d: the table of strings holds something else", w->who); } break; }
    case PN_TLICK: { struct PNLick *l = (struct PNLick *)o; V(l->name); V(l->inner); V(l->attr); break; }
    case PN_TERROR: { struct PNError *e = (struct PNError *)o; V(e->message); V(e->excerpt); break; }
    case PN_TFLEX: if (o == (struct PNObject *)P->vts) for (unsigned i = 0; i < P->vts->len; i++) V(P->vts->ptr[i]); break;
  }
}
static int cmpl(const void *a, const void *b) { unsigned long x = *(unsigned long *)a, y = *(unsigned long *)b; return x < y ? -1 : x > y; }
static void verify(W *w) {
  Potion *P = w->P; unsigned long gv[NG];
  if (failed) return;
  for (int i = 0; i < NG; i++) { char nm[8]; sprintf(nm, "zz%d", i); gv[i] = w->gset[i] ? potion_send(P->lobby, potion_str(P, nm)) : 0; }
  for (int i = 0; i < NG; i++) { char nm[8]; sprintf(nm, "zz%d", i); gv[i] = w->gset[i] ? potion_send(P->lobby, potion_str(P, nm)) : 0; } /* the names exist now: nothing moves */
  w->epoch++; w->verified++; ntodo = 0;
  for (int i = 0; i < NR; i++) add(w->roots[i], w->sr[i].id, w->sr[i].imm);
  for (int i = 0; i < NG; i++) if (w->gset[i]) add(gv[i], w->sg[i].id, w->sg[i].imm);
  while (ntodo && !failed) { Todo t = todo[--ntodo]; SV s = {t.id, t.v}; check(w, t.p, s); }
  if (failed) return;
  /* different objects, and none over another */
  unsigned long *at = malloc((w->no + 1) * sizeof *at); u64 n = 0;
  for (int i = 1; i < w->no; i++) if (w->o[i].epoch == w->epoch) at[n++] = w->o[i].at;
  qsort(at, n, sizeof *at, cmpl);
  for (u64 i = 1; i < n; i++) if (at[i - 1] + potion_type_size(P, (struct PNObject *)at[i - 1]) > at[i]) { free(at); FAIL("%d: two live objects share memory", w->who); }
  free(at); ntodo = 0; nseen = 0; if (seen) memset(seen, 0, cseen * 8);
  const char *from = "interpreter"; (void)from;
  visit(w, P->lobby, from); visit(w, (unsigned long)P->strings, from); visit(w, (unsigned long)P->vts, from); visit(w, P->call, from); visit(w, P->callset, from);
  visit(w, P->input, from); visit(w, P->source, from); visit(w, (unsigned long)P->pbuf, from); visit(w, P->line, from); visit(w, P->unclosed, from);
  for (int i = 0; i < NR; i++) visit(w, w->roots[i], "root");
  while (ntodo && !failed) scan(w, todo[--ntodo].p);
}
/* ---- operations ---- */
static PN m_ret(Potion *P, PN cl, PN self) { return PN_CLOSURE(cl)->data[0]; }
static PN m_nop(Potion *P, PN cl, PN self) { return self; }
static void root(W *w, u64 a, unsigned long r, SV s) { w->roots[a % NR] = r; w->sr[a % NR] = s; }
static int sh_key(W *w, u64 c, SV *key, char *buf, u32 *len) { if (c & 1) { content(c / 2 % 60, 8, buf, len); key->id = sh_str(w, buf, *len); key->imm = 0; return 1; } *key = imm(PN_NUM(c / 2 % 40)); return 0; }
static void put(Sh *s, SV key, SV v) { for (u32 i = 0; i < s->n; i += 2) if (sveq(s->k[i], key)) { s->k[i + 1] = v; return; } sh_push(s, key); sh_push(s, v); }
static void op(W *w, int o, u64 a, u64 b, u64 c) {
  Potion *P = w->P; volatile unsigned long r, x, y; int id, i; SV s, s2; static __thread char buf[8192]; u32 len;
  switch (o) {
    case 0: { u32 n = b % 16 == 0 ? b / 16 % 300 : b / 16 % 6; id = sh_new(w, S_TUPLE);
      if (c & 1) { r = (unsigned long)potion_tuple_with_size(P, n); for (u32 k = 0; k < n; k++) { x = value(w, c / 2 + k * 37, &s); ((struct PNTuple *)r)->set[k] = x; sh_push(&w->o[id], s); } }
      else { r = PN_TUP0(); for (u32 k = 0; k < n; k++) { x = value(w, c / 2 + k * 37, &s); r = PN_PUSH(r, x); sh_push(&w->o[id], s); } }
      root(w, a, r, ref(id)); break; }
    case 1: r = find(w, S_TUPLE, a, &id); if (!id || w->o[id].n > 3000) break; { u32 n = c % 32 == 0 ? c / 32 % 400 : 1 + c % 3; for (u32 k = 0; k < n; k++) { x = value(w, b + k * 41, &s); PN_PUSH(r, x); sh_push(&w->o[id], s); } } break;
    case 2: r = find(w, S_TUPLE, a, &id); if (!id || !w->o[id].n) break; x = value(w, b, &s); i = c % w->o[id].n; PN_TUPLE_AT(r, i) = x; w->o[id].k[i] = s; if (c & 1024) PN_TOUCH(r); else PN_TOUCH(potion_fwd(r)); break;
    case 3: r = find(w, S_TUPLE, a, &id); if (!id || !w->o[id].n) break; PN_SHIFT(r); { Sh *h = &w->o[id]; memmove(h->k, h->k + 1, --h->n * sizeof(SV)); } break;
    case 4: r = potion_table_empty(P); id = sh_new(w, S_TABLE); root(w, a, r, ref(id)); break;
    case 5: r = find(w, S_TABLE, a, &id); if (!id) break; { u32 n = c % 16 == 0 ? 20 : 1; for (u32 k = 0; k < n; k++) { u64 cc = c / 16 + k * 3; SV key; y = PN_NUM(cc / 2 % 40); if (sh_key(w, cc, &key, buf, &len)) { y = potion_str2(P, buf, len); } x = value(w, b + k * 43, &s); r = find(w, S_TABLE, a, &i); if (i != id) break; 
        if (cc & 8) potion_table_put(P, PN_NIL, r, y, x); else potion_table_set(P, r, y, x); put(&w->o[id], key, s); } } break;
    case 6: r = find(w, S_TABLE, a, &id); if (!id || !w->o[id].n) break; { i = (c % (w->o[id].n / 2)) * 2; y = tkey(w, r, w->o[id].k[i], 0); { volatile unsigned long nm_ = potion_str(P, "remove"); int id2; r = find(w, S_TABLE, a, &id2); y = tkey(w, r, w->o[id].k[i], 0); send1(P, r, nm_, y); } Sh *h = &w->o[id]; h->k[i] = h->k[h->n - 2]; h->k[i + 1] = h->k[h->n - 1]; h->n -= 2; } break;
    case 7: content(b, c, buf, &len); r = potion_str2(P, buf, len); root(w, a, r, ref(sh_str(w, buf, len))); break;
    case 8: { content(b, c, buf, &len); if (c & 1) r = potion_byte_str2(P, buf, len); else { r = potion_bytes(P, len); memcpy(((struct PNBytes *)r)->chars, buf, len); } id = sh_new(w, S_BYTES); sh_bytes(&w->o[id], buf, len); root(w, a, r, ref(id)); break; }
    case 9: r = find(w, S_BYTES, a, &id); if (!id || !w->o[id].len) break; i = b % w->o[id].len; PN_STR_PTR(r)[i] = c; w->o[id].b[i] = c; break;
    case 10: r = find(w, S_BYTES, a, &id); if (!id || w->o[id].len > 30000) break; content(b, c, buf, &len); x = potion_str2(P, buf, len); { int id2; r = find(w, S_BYTES, a, &id2); if (id2 != id) break; } sh_str(w, buf, len); potion_bytes_append(P, PN_NIL, r, x); sh_bytes(&w->o[id], buf, len); break;
    case 11: { double d = (double)(long)(b - 500000) / (1 + c % 1000); r = potion_double(P, d); if (PN_IS_INT(r)) { root(w, a, r, imm(r)); break; } id = sh_new(w, S_DBL); w->o[id].d = d; root(w, a, r, ref(id)); break; }
    case 12: { u32 n = b % 8 == 0 ? b / 8 % 60 : b / 8 % 4; PN_F f = c & 1 ? (PN_F)m_ret : (PN_F)m_nop; if (n == 0) f = (PN_F)m_nop; r = potion_closure_new(P, f, PN_NIL, n); id = sh_new(w, S_CLO); w->o[id].aux = (long)f; for (u32 k = 0; k < n; k++) { x = value(w, c + k * 29, &s); ((struct PNClosure *)r)->data[k] = x; sh_push(&w->o[id], s); } root(w, a, r, ref(id)); break; }
    case 13: r = find(w, S_CLO, a, &id); if (!id || !w->o[id].n) break; x = value(w, b, &s); i = c % w->o[id].n; ((struct PNClosure *)r)->data[i] = x; PN_TOUCH(r); w->o[id].k[i] = s; break;
    case 14: x = value(w, b, &s); if (PN_IS_REF(x)) break; r = potion_ref(P, x); x = value(w, b, &s); id = sh_new(w, S_REF); sh_push(&w->o[id], s); root(w, a, r, ref(id)); break;
    case 15: r = find(w, S_REF, a, &id); if (!id) break; x = value(w, b, &s); ((struct PNWeakRef *)r)->data = x; PN_TOUCH(r); w->o[id].k[0] = s; break;
    case 16: { content(b, c, buf, &len); struct PNData *d = potion_data_alloc(P, len); memcpy(d->data, buf, len); id = sh_new(w, S_DATA); sh_bytes(&w->o[id], buf, len); root(w, a, (unsigned long)d, ref(id)); break; }
    case 17: r = find(w, S_DATA, a, &id); if (!id || !w->o[id].len) break; i = b % w->o[id].len; ((struct PNData *)r)->data[i] = c; w->o[id].b[i] = c; break;
    case 18: { if (w->ncls >= 12) break; w->ncls++; u32 n = b % 5; r = PN_TUP0(); for (u32 k = 0; k < n; k++) { x = potion_str(P, ivname[k]); r = PN_PUSH(r, x); } x = 0; int pid = 0; long pn = 0; SV psv = imm(0);
      if (c % 3 == 0) { x = find(w, S_CLASS, c / 3, &pid); if (pid) { pn = w->o[pid].aux2; psv = ref(pid); } } (void)psv;
      r = potion_class(P, PN_NIL, x, r); id = sh_new(w, S_CLASS); w->o[id].aux = ((struct PNVtable *)r)->type; w->o[id].aux2 = n > pn ? n : pn; root(w, a, r, ref(id)); break; }
    case 19: r = find(w, S_CLASS, b, &id); if (!id) break; { int cid = id; u32 n = w->o[cid].aux2; unsigned t = w->o[cid].aux; r = potion_object_new(P, PN_NIL, r); if (!r) break; for (u32 k = 0; k < n; k++) ((struct PNObject *)r)->ivars[k] = PN_NIL; id = sh_new(w, S_OBJ); w->o[id].aux = t; for (u32 k = 0; k < n; k++) sh_push(&w->o[id], imm(PN_NIL)); root(w, a, r, ref(id)); } break;
    case 20: r = find(w, S_OBJ, a, &id); if (!id || !w->o[id].n) break; i = c % w->o[id].n; if (c & 256) { y = potion_str(P, ivname[i]); int id2; r = find(w, S_OBJ, a, &id2); x = value(w, b, &s); potion_obj_set(P, PN_NIL, r, y, x); } else { x = value(w, b, &s); ((struct PNObject *)r)->ivars[i] = x; PN_TOUCH(r); } w->o[id].k[i] = s; break;
    case 21: { SV sn, si, sa; x = value(w, b / 8 * 8 + 2, &sn); y = value(w, c, &si); volatile unsigned long z = value(w, c / 7 + 1, &sa); r = potion_lick(P, x, y, z); id = sh_new(w, S_LICK); sh_push(&w->o[id], sn); sh_push(&w->o[id], si); sh_push(&w->o[id], sa); root(w, a, r, ref(id)); break; }
    case 22: { x = value(w, b, &s); y = value(w, c, &s2); r = potion_error(P, x, b % 1000, 2, y); id = sh_new(w, S_ERR); w->o[id].aux = b % 1000; sh_push(&w->o[id], s); sh_push(&w->o[id], s2); root(w, a, r, ref(id)); break; }
    case 23: { SV s3; x = value(w, b, &s); y = value(w, c, &s2); volatile unsigned long z = value(w, b / 9 + c, &s3); r = potion_source(P, AST_MSG, x, y, z, 1, PN_NIL); id = sh_new(w, S_SRC); w->o[id].aux = AST_MSG; sh_push(&w->o[id], s); sh_push(&w->o[id], s2); sh_push(&w->o[id], s3); root(w, a, r, ref(id)); break; }
    case 24: r = find(w, S_ASM, a, &id); if (!id || w->o[id].len > 20000 || b % 4 == 0) { r = (unsigned long)potion_asm_new(P); id = sh_new(w, S_ASM); root(w, a, r, ref(id)); break; }
      content(b, c, buf, &len); { PNAsm *volatile q = (PNAsm *)potion_fwd(r); q = potion_asm_write(P, q, buf, len); sh_bytes(&w->o[id], buf, len); for (i = 0; i < NR; i++) if (w->sr[i].id == id) w->roots[i] = (unsigned long)q; } break;
    case 25: i = b % NG; x = value(w, c, &s); if (s.id && (w->o[s.id].type == S_CLO || w->o[s.id].type == S_FUN || w->o[s.id].type == S_CLASS)) break; { char nm[8]; sprintf(nm, "zz%d", i); y = potion_str(P, nm); x = value(w, c, &s); potion_define_global(P, y, x); w->sg[i] = s; w->gset[i] = 1; } break;
    case 26: i = b % NG; if (!w->gset[i]) break; { char nm[8]; sprintf(nm, "zz%d", i); y = potion_str(P, nm); r = send0(P, P->lobby, y); root(w, a, r, w->sg[i]); } break;
    case 27: x = w->roots[b % NR]; root(w, a, x, w->sr[b % NR]); break;
    case 28: s = w->sr[b % NR]; if (!s.id || !nkids(w, s.id)) break; i = c % nkids(w, s.id); x = kid(w, w->roots[b % NR], s.id, i); root(w, a, x, w->o[s.id].k[i]); break;
    case 29: root(w, a, PN_NIL, imm(PN_NIL)); break;
    case 30: { char src[200]; sprintf(src, "c%llu = %llu\n(x): c%llu = c%llu + x.\n", (unsigned long long)(b % 9), (unsigned long long)(c % 100), (unsigned long long)(b % 9), (unsigned long long)(b % 9)); x = potion_str(P, src); r = potion_eval(P, x); id = sh_new(w, S_FUN); w->o[id].aux2 = c % 100; if (!PN_IS_CLOSURE(r)) FAIL("%d: evaluating a function gave no function", w->who); root(w, a, r, ref(id)); break; }
    case 31: r = find(w, S_FUN, a, &id); if (!id) break; { PN argv[2]; argv[0] = PN_NIL; argv[1] = PN_NUM((long)(b % 1000)); x = potion_call(P, r, 2, argv); w->o[id].aux2 += b % 1000; if (x != PN_NUM(w->o[id].aux2)) FAIL("%d: a function that adds up to %ld answered %ld", w->who, w->o[id].aux2, PN_IS_INT(x) ? PN_INT(x) : -1); } break;
    case 32: potion_garbagecollect(P, b % 4 == 0 ? b / 4 % (4 << 20) : b / 4 % 9000, c & 1); break;
    case 33: verify(w); break;
    case 34: for (u64 k = 0; k < b % 40; k++) potion_bytes(P, c % 3000); break;
    case 35: r = find(w, S_STR, a, &id); if (!id) break; x = potion_str2(P, (char *)w->o[id].b, w->o[id].len); { int id2; r = find(w, S_STR, a, &id2); } if (potion_fwd(x) != potion_fwd(r)) FAIL("%d: a string made again is not the live string of the same text", w->who); break;
    case 36: r = find(w, S_TABLE, a, &id); if (!id || !w->o[id].n) break; i = b % (w->o[id].n / 2) * 2; s = w->o[id].k[i]; y = s.imm; if (s.id) y = potion_str2(P, (char *)w->o[s.id].b, w->o[s.id].len); { int id2; r = find(w, S_TABLE, a, &id2); x = potion_table_at(P, PN_NIL, r, y); unsigned long v = 0; tkey(w, r, s, &v); if (x != v) FAIL("%d: looking up a key gives %#lx, the table holds %#lx", w->who, (unsigned long)x, v); } break;
    case 37: potion_bytes(P, (b % 4096) << 10); break;
    case 38: r = find(w, S_CLASS, a, &id); if (!id) break; { int f; x = find(w, S_CLO, b, &f); if (!f || !w->o[f].n) break; i = c % 4; y = potion_str(P, mname[i]); s.id = sh_str(w, mname[i], strlen(mname[i])); s.imm = 0; int id2; x = find(w, S_CLO, b, &id2); r = find(w, S_CLASS, a, &id2); def(P, r, y, x); put(&w->o[id], s, ref(f)); } break;
    case 39: r = find(w, S_OBJ, a, &id); if (!id) break; { int cid = 0; for (i = 1; i < w->no; i++) if (w->o[i].type == S_CLASS && w->o[i].aux == w->o[id].aux) cid = i; if (!cid || !w->o[cid].n) break; i = b % (w->o[cid].n / 2) * 2; s = w->o[cid].k[i]; s2 = w->o[cid].k[i + 1]; y = potion_str2(P, (char *)w->o[s.id].b, w->o[s.id].len); int id2; r = find(w, S_OBJ, a, &id2); x = send0(P, r, y); if ((PN_F)w->o[s2.id].aux == (PN_F)m_nop) { if (potion_fwd(x) != potion_fwd(r)) FAIL("%d: a method that answers its object answered something else", w->who); } else { SV e = w->o[s2.id].k[0]; if (!e.id && x != e.imm) FAIL("%d: a method that answers a stored value answered %#lx", w->who, (unsigned long)x); if (e.id && !PN_IS_PTR(x)) FAIL("%d: a method that answers a stored object answered %#lx", w->who, (unsigned long)x); } } break;
    case 40: { u32 n = 200 + b % 3000; id = sh_new(w, S_TUPLE); r = (unsigned long)potion_tuple_with_size(P, n); for (u32 k = 0; k < n; k++) { s = imm(PN_NUM(k + c % 1000)); ((struct PNTuple *)r)->set[k] = s.imm; sh_push(&w->o[id], s); } root(w, a, r, ref(id)); break; }
    case 41: { u32 n = 2 + b % 60; for (u32 k = 0; k < n; k++) { x = w->roots[a % NR]; SV sx = w->sr[a % NR]; r = PN_TUP(x); id = sh_new(w, S_TUPLE); x = w->roots[a % NR]; (void)x; sh_push(&w->o[id], sx); root(w, a, r, ref(id)); } break; }  /* a long chain */
    case 42: { long m = b % 64; PN argv[2]; (void)argv; content(b, c, buf, &len); x = potion_str2(P, buf, len); SV sx = ref(sh_str(w, buf, len)); r = PN_TUP0(); r = PN_PUSH(r, x); for (long k = 0; k < m; k++) PN_PUT(r, k & 1 ? PN_NUM(k % 5) : x); id = sh_new(w, S_TUPLE); sh_push(&w->o[id], sx); for (long k = 1; k < m && k < 10; k += 2) sh_push(&w->o[id], imm(PN_NUM(k % 5))); root(w, a, r, ref(id)); break; }
  }
}
static int next_num(const char **p, size_t *l, u64 *v) { u64 x = 0; int any = 0; while (*l && (**p == ' ' || **p == '\n')) ++*p, --*l; while (*l && **p >= '0' && **p <= '9') { x = x * 10 + *(*p)++ - '0'; --*l; any = 1; } *v = x; return any; }
__attribute__((noinline)) static void graph(Potion *P, int who, const char *ops, size_t len) {
  volatile unsigned long roots[NR]; W *w = calloc(1, sizeof *w); u64 o, a, b, c, n = 0;
  for (int i = 0; i < NR; i++) { roots[i] = PN_NIL; w->sr[i] = imm(PN_NIL); }
  w->roots = roots; w->who = who; w->P = P; w->no = 0; sh_new(w, 0);
  while (next_num(&ops, &len, &o) && next_num(&ops, &len, &a) && next_num(&ops, &len, &b) && next_num(&ops, &len, &c) && !failed) {
    sim_trace(o, a); op(w, o, a, b, c); n++;
    if (!failed && n % 16 == 0) verify(w);
  }
  if (!failed) verify(w);
  R->state_hash += w->kinds * 31 + w->verified;
  sim_log("interp %d verified %llu objects %llu kinds %llx", who, (unsigned long long)w->verified, (unsigned long long)w->objs, (unsigned long long)w->kinds);
}
__attribute__((noinline)) static void script(Potion *P, const char *src, size_t len) {      /* as potion(1) runs a file */
  PN buf = potion_bytes(P, len), code; memcpy(PN_STR_PTR(buf), src, len); PN_STR_PTR(buf)[len] = 0;
  code = potion_parse(P, buf, "p.pn");
  if (!code || PN_TYPE(code) == PN_TERROR) { potion_p(P, code); return; }
  code = potion_send(code, PN_compile, PN_NIL, PN_NIL);
  code = potion_run(P, code, P->flags & EXEC_JIT);
  if (PN_IS_PTR(code) && PN_TYPE(code) == PN_TERROR) potion_p(P, code);
}
/* an interpreter of its own for a graph ("G..."), or a program for the VM ("B...") or the JIT ("X...") */
__attribute__((noinline)) static void interp(int who, const char *t, size_t len) {
  POTION_INIT_STACK(sp); Potion *P = potion_create(sp);
  P->flags = (Potion_Flags)(*t == 'X' || (*t == 'G' && sim_knob("jit", 0)) ? EXEC_JIT : EXEC_VM);
  if (*t == 'G') graph(P, who, t + 1, len - 1); else script(P, t + 1, len - 1);
  if (sim_knob("destroy", 1) && !failed) potion_destroy(P);
}
static void thread(int i) { char k[8]; size_t len; const char *t; sprintf(k, "t%d", i); for (int j = 0; !failed && (t = sim_text(k, j, &len)); j++) interp(i * 10 + j, t, len); }
void sim_threads(int n, void (*fn)(int));
int heap_main(void) { int n = sim_knob("threads", 1); if (n > 1) sim_threads(n, thread); else thread(0); return failed ? 97 : 0; }
