/*
 * vwasm - a small WebAssembly (MVP integer subset) engine which implements the C interface
 * declared in /repo/wasmer/wasmer.h, so that the complete VM (Go code, the cgo bridge included)
 * can be linked and executed without the proprietary build of Wasmer that the repository loads
 * from wasmer/libwasmer_linux_amd64.so.
 *
 * It is part of the closed environment of the model checker, not part of the code under test:
 *  - instructions are metered one by one, with the costs given by wasmer_set_opcode_costs;
 *    exceeding the points limit sets the runtime breakpoint value 4 (out of gas) and stops;
 *  - after every imported function returns, a nonzero runtime breakpoint value stops execution;
 *  - modules are fully validated (structure and types); floating point code is rejected.
 */
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <alloca.h>

enum { WASMER_OK = 1, WASMER_ERROR = 2 };
enum { T_I32 = 0, T_I64 = 1, T_F32 = 2, T_F64 = 3 };
enum { K_FUNC = 0, K_GLOBAL = 1, K_MEMORY = 2, K_TABLE = 3 };   /* wasmer numbering */

typedef struct { const uint8_t *bytes; uint32_t bytes_len; } wasmer_byte_array;
typedef struct { uint32_t tag; union { int32_t i32; int64_t i64; float f32; double f64; } value; } wasmer_value_t;
typedef struct {
  wasmer_byte_array module_name; wasmer_byte_array import_name; uint32_t tag; void *value;
} wasmer_import_t;
typedef struct {
  uint64_t gas_limit; uint64_t unmetered_locals; bool opcode_trace; bool metering; bool runtime_breakpoints;
} wasmer_options;

typedef struct { void *fn; uint32_t np, nr; uint8_t p[16]; uint8_t r; } impfunc;
typedef struct { char *mod, *name; impfunc f; } impentry;

typedef struct { impentry *e; uint32_t n; } imptable;
static imptable *g_tab; /* installed tables are never freed: instances of other threads may be reading them */
static uint32_t g_costs[448];
static char g_err[512];
static uint64_t g_misuse, g_live; /* atomic */

uint64_t vwasm_misuse_count(void) { return g_misuse; }
uint64_t vwasm_live_instances(void) { return __atomic_load_n(&g_live, __ATOMIC_RELAXED); }

static int fail(const char *msg) { snprintf(g_err, sizeof g_err, "%s", msg); return WASMER_ERROR; }

/* ---------------------------------------------------------------- module */
typedef struct { uint32_t np, nr; uint8_t *p; uint8_t r; } functype;
typedef struct { uint16_t op; uint16_t cost; uint32_t a; uint64_t imm; } ins;
typedef struct { uint32_t pc; uint32_t arity; uint32_t height; } brt;
typedef struct {
  uint32_t type; bool imported; impfunc imp; char *impname;
  uint32_t nlocals; uint8_t *ltypes; ins *code; uint32_t ncode; brt *br; uint32_t nbr; uint32_t maxstack;
} func;
typedef struct { uint8_t type; bool mut; uint64_t val; } global;
typedef struct { char *name; uint32_t len; uint8_t kind; uint32_t idx; } export_t;
typedef struct { uint32_t refs; uint8_t *data; uint32_t pages, maxpages; } memory_t;

typedef struct {
  uint32_t magic;
  functype *types; uint32_t ntypes;
  func *funcs; uint32_t nfuncs, nimpfuncs;
  global *globals; uint32_t nglobals;
  export_t *exports; uint32_t nexports;
  uint32_t *table; uint32_t tablen; bool hastable;
  memory_t *mem;
  int64_t start;
  uint8_t *bytes; uint32_t nbytes;
  uint64_t points, limit, breakpoint, unmetered_locals;
  bool metering;
  void *ctxdata;
  uint32_t depth;
  char *namebuf;
} inst_t;
#define MAGIC_LIVE 0x11feu
#define MAGIC_DEAD 0xdeadu

typedef struct { inst_t *inst; uint32_t n; } exports_t;
typedef struct { inst_t *inst; uint32_t idx; } exportref;

/* ---------------------------------------------------------------- parsing */
typedef struct { const uint8_t *p, *end; bool bad; const char *why; } rd;
static void bad(rd *r, const char *why) { if (!r->bad) { r->bad = true; r->why = why; } r->p = r->end; }
static uint8_t u8(rd *r) { if (r->p >= r->end) { bad(r, "unexpected end"); return 0; } return *r->p++; }
static uint32_t leb32(rd *r) {
  uint64_t v = 0; int sh = 0;
  for (int i = 0; i < 5; i++) { uint8_t b = u8(r); v |= (uint64_t)(b & 0x7f) << sh; sh += 7; if (!(b & 0x80)) { if (v >> 32) bad(r, "leb too large"); return (uint32_t)v; } }
  bad(r, "leb too long"); return 0;
}
static int64_t sleb(rd *r, int bits) {
  int64_t v = 0; int sh = 0; uint8_t b;
  do { b = u8(r); if (sh >= 70) { bad(r, "leb too long"); return 0; }
    if (sh < 64) v |= (int64_t)((uint64_t)(b & 0x7f) << sh);
    sh += 7; } while (b & 0x80);
  if (sh < 64 && (b & 0x40)) v |= -((int64_t)1 << sh);
  if (bits == 32) v = (int32_t)v;
  return v;
}
static int vtype(rd *r) {
  switch (u8(r)) { case 0x7f: return T_I32; case 0x7e: return T_I64; case 0x7d: return T_F32; case 0x7c: return T_F64; }
  bad(r, "bad value type"); return T_I32;
}
static char *rname(rd *r, uint32_t *len) {
  uint32_t n = leb32(r); if (r->bad || (size_t)(r->end - r->p) < n) { bad(r, "bad name"); n = 0; }
  char *s = malloc(n + 1); memcpy(s, r->p, n); s[n] = 0; r->p += n; if (len) *len = n; return s;
}

/* ---------------------------------------------------------------- code validation / translation */
typedef struct { uint8_t kind; int res; uint32_t height; bool unreachable; uint32_t startpc; uint32_t *fix; uint32_t nfix; uint32_t elsefix; } ctl;
#define OP_LEAVE 0x100   /* internal: leave the function; costs nothing */
enum { X_UNK = 9 };
typedef struct {
  inst_t *m; func *f; rd *r;
  uint8_t *st; uint32_t nst, cst;
  ctl *cs; uint32_t ncs, ccs;
  ins *code; uint32_t n, c;
  brt *br; uint32_t nbr, cbr;
} cc;

static void st_push(cc *c, uint8_t t) {
  if (c->nst == c->cst) { c->cst = c->cst ? 2 * c->cst : 64; c->st = realloc(c->st, c->cst); }
  c->st[c->nst++] = t; if (c->nst > c->f->maxstack) c->f->maxstack = c->nst;
}
static uint8_t st_pop(cc *c, int want) {
  ctl *t = &c->cs[c->ncs - 1];
  if (c->nst == t->height) { if (t->unreachable) return want == X_UNK ? X_UNK : want; bad(c->r, "stack underflow"); return X_UNK; }
  uint8_t got = c->st[--c->nst];
  if (want != X_UNK && got != X_UNK && got != want) bad(c->r, "type mismatch");
  return got;
}
static uint32_t emit(cc *c, uint16_t op, uint16_t cost, uint32_t a, uint64_t imm) {
  if (c->n == c->c) { c->c = c->c ? 2 * c->c : 64; c->code = realloc(c->code, c->c * sizeof(ins)); }
  c->code[c->n] = (ins){op, cost, a, imm}; return c->n++;
}
static void push_ctl(cc *c, uint8_t kind, int res) {
  if (c->ncs == c->ccs) { c->ccs = c->ccs ? 2 * c->ccs : 16; c->cs = realloc(c->cs, c->ccs * sizeof(ctl)); }
  c->cs[c->ncs++] = (ctl){kind, res, c->nst, false, c->n, NULL, 0, UINT32_MAX};
}
static void set_unreach(cc *c) { ctl *t = &c->cs[c->ncs - 1]; c->nst = t->height; t->unreachable = true; }
/* fixups: value = code index (bit 31 clear) or br-table index (bit 31 set) */
static void add_fix(ctl *t, uint32_t v) { t->fix = realloc(t->fix, (t->nfix + 1) * sizeof(uint32_t)); t->fix[t->nfix++] = v; }
static int label_arity(ctl *t) { return t->kind == 0x03 ? 0 : (t->res >= 0); }
static int btype(rd *r) { uint8_t b = u8(r); switch (b) { case 0x40: return -1; case 0x7f: return T_I32; case 0x7e: return T_I64; } bad(r, "bad block type"); return -1; }

static void do_br_meta(cc *c, uint32_t depth, ctl **t) {
  if (depth >= c->ncs) { bad(c->r, "bad label"); *t = NULL; return; }
  *t = &c->cs[c->ncs - 1 - depth];
}
static uint16_t cost_of(uint16_t op) {
  if (op >= 0x45) return op - 0x45 + 53;
  if (op >= 0x41) return op - 0x41 + 46;
  if (op >= 0x3f) return op - 0x3f + 44;
  if (op >= 0x28) return op - 0x28 + 21;
  if (op >= 0x20) return op - 0x20 + 16;
  switch (op) { case 0x00: return 0; case 0x01: return 1; case 0x02: return 2; case 0x03: return 3; case 0x04: return 4; case 0x05: return 5;
    case 0x0b: return 6; case 0x0c: return 7; case 0x0d: return 8; case 0x0e: return 9; case 0x0f: return 10; case 0x10: return 11; case 0x11: return 12;
    case 0x1a: return 13; case 0x1b: return 14; }
  return 1;
}

static void bin(cc *c, uint8_t t, uint8_t res) { st_pop(c, t); st_pop(c, t); st_push(c, res); }
static void un(cc *c, uint8_t t, uint8_t res) { st_pop(c, t); st_push(c, res); }

static void compile_body(inst_t *m, func *f, rd *r) {
  cc C = {0}; cc *c = &C; c->m = m; c->f = f; c->r = r;
  functype *ft = &m->types[f->type];
  uint32_t groups = leb32(r); uint64_t total = 0;
  uint32_t np = ft->np; f->ltypes = malloc(np + 1); memcpy(f->ltypes, ft->p, np); uint32_t nl = np;
  for (uint32_t i = 0; i < groups && !r->bad; i++) {
    uint32_t k = leb32(r); int t = vtype(r); total += k;
    if (total > 4000) { bad(r, "too many locals"); break; }
    if (t > T_I64) { bad(r, "floating point is not supported"); break; }
    f->ltypes = realloc(f->ltypes, nl + k + 1); memset(f->ltypes + nl, t, k); nl += k;
  }
  f->nlocals = nl;
  push_ctl(c, 0x02, ft->nr ? ft->r : -1);
  while (!r->bad && c->ncs) {
    uint8_t op = u8(r); uint16_t k = cost_of(op);
    switch (op) {
    case 0x00: emit(c, op, k, 0, 0); set_unreach(c); break;
    case 0x01: emit(c, op, k, 0, 0); break;
    case 0x02: case 0x03: { int bt = btype(r); emit(c, op, k, 0, 0); push_ctl(c, op, bt); break; }
    case 0x04: { int bt = btype(r); st_pop(c, T_I32); uint32_t at = emit(c, op, k, 0, 0); push_ctl(c, op, bt); c->cs[c->ncs - 1].elsefix = at; break; }
    case 0x05: {
      ctl *t = &c->cs[c->ncs - 1]; if (t->kind != 0x04) { bad(r, "else without if"); break; }
      if (t->res >= 0) st_pop(c, t->res);
      if (c->nst != t->height) { bad(r, "stack height mismatch"); break; }
      uint32_t at = emit(c, op, k, 0, 0); add_fix(t, at);
      c->code[t->elsefix].a = c->n; t->elsefix = UINT32_MAX; t->kind = 0x05; t->unreachable = false; break; }
    case 0x0b: {
      ctl *t = &c->cs[c->ncs - 1];
      if (t->kind == 0x04 && t->res >= 0) { bad(r, "if without else has a result"); break; }
      if (t->res >= 0) st_pop(c, t->res);
      if (c->nst != t->height) { bad(r, "stack height mismatch"); break; }
      emit(c, op, k, 0, 0);
      uint32_t at = c->n;   /* branches continue after the end instruction, which they do not execute (nor pay for) */
      if (c->ncs == 1) emit(c, OP_LEAVE, 0, 0, 0);
      if (t->elsefix != UINT32_MAX) c->code[t->elsefix].a = at;
      for (uint32_t i = 0; i < t->nfix; i++) { if (t->fix[i] >> 31) c->br[t->fix[i] & 0x7fffffff].pc = at; else c->code[t->fix[i]].a = at; }
      free(t->fix); int res = t->res; c->ncs--; if (res >= 0) st_push(c, res);
      break; }
    case 0x0c: case 0x0d: {
      uint32_t d = leb32(r); ctl *t; if (op == 0x0d) st_pop(c, T_I32); do_br_meta(c, d, &t); if (!t) break;
      int ar = label_arity(t); uint8_t ty = t->res;
      if (ar) st_pop(c, ty);
      uint32_t at = emit(c, op, k, t->startpc, ((uint64_t)ar << 32) | t->height);
      if (t->kind != 0x03) add_fix(t, at);
      if (op == 0x0c) set_unreach(c); else if (ar) st_push(c, ty);
      break; }
    case 0x0e: {
      st_pop(c, T_I32); uint32_t n = leb32(r); if (n > 100000) { bad(r, "br_table too large"); break; }
      uint32_t base = c->nbr; int ar0 = -1; uint8_t ty = 0;
      for (uint32_t i = 0; i <= n && !r->bad; i++) {
        uint32_t d = leb32(r); ctl *t; do_br_meta(c, d, &t); if (!t) break;
        int ar = label_arity(t); if (ar0 < 0) { ar0 = ar; ty = t->res; } else if (ar0 != ar || (ar && ty != t->res)) { bad(r, "br_table arity"); break; }
        if (c->nbr == c->cbr) { c->cbr = c->cbr ? 2 * c->cbr : 16; c->br = realloc(c->br, c->cbr * sizeof(brt)); }
        c->br[c->nbr] = (brt){t->startpc, ar, t->height}; if (t->kind != 0x03) add_fix(t, 0x80000000u | c->nbr); c->nbr++;
      }
      if (ar0 > 0) st_pop(c, ty);
      emit(c, op, k, base, n); set_unreach(c); break; }
    case 0x0f: if (ft->nr) st_pop(c, ft->r); emit(c, op, k, 0, 0); set_unreach(c); break;
    case 0x10: { uint32_t fi = leb32(r); if (fi >= m->nfuncs) { bad(r, "bad function index"); break; }
      functype *t = &m->types[m->funcs[fi].type]; for (uint32_t i = t->np; i-- > 0;) st_pop(c, t->p[i]); emit(c, op, k, fi, 0); if (t->nr) st_push(c, t->r); break; }
    case 0x11: { uint32_t ti = leb32(r); uint8_t z = u8(r); if (ti >= m->ntypes || z || !m->hastable) { bad(r, "bad call_indirect"); break; }
      st_pop(c, T_I32); functype *t = &m->types[ti]; for (uint32_t i = t->np; i-- > 0;) st_pop(c, t->p[i]); emit(c, op, k, ti, 0); if (t->nr) st_push(c, t->r); break; }
    case 0x1a: st_pop(c, X_UNK); emit(c, op, k, 0, 0); break;
    case 0x1b: { st_pop(c, T_I32); uint8_t a = st_pop(c, X_UNK), b = st_pop(c, a); st_push(c, a == X_UNK ? b : a); emit(c, op, k, 0, 0); break; }
    case 0x20: case 0x21: case 0x22: { uint32_t l = leb32(r); if (l >= nl) { bad(r, "bad local"); break; } uint8_t t = f->ltypes[l];
      if (op != 0x20) st_pop(c, t); if (op != 0x21) st_push(c, t); emit(c, op, k, l, 0); break; }
    case 0x23: case 0x24: { uint32_t g = leb32(r); if (g >= m->nglobals) { bad(r, "bad global"); break; } uint8_t t = m->globals[g].type;
      if (op == 0x24) { if (!m->globals[g].mut) bad(r, "immutable global"); st_pop(c, t); } else st_push(c, t); emit(c, op, k, g, 0); break; }
    case 0x28: case 0x29: case 0x2c: case 0x2d: case 0x2e: case 0x2f: case 0x30: case 0x31: case 0x32: case 0x33: case 0x34: case 0x35:
    case 0x36: case 0x37: case 0x3a: case 0x3b: case 0x3c: case 0x3d: case 0x3e: {
      if (!m->mem) { bad(r, "no memory"); break; }
      leb32(r); uint32_t off = leb32(r); uint8_t t = (op == 0x28 || (op >= 0x2c && op <= 0x2f) || op == 0x36 || op == 0x3a || op == 0x3b) ? T_I32 : T_I64;
      if (op >= 0x36) { st_pop(c, t); st_pop(c, T_I32); } else { st_pop(c, T_I32); st_push(c, t); }
      emit(c, op, k, 0, off); break; }
    case 0x3f: if (!m->mem || u8(r)) bad(r, "bad memory"); st_push(c, T_I32); emit(c, op, k, 0, 0); break;
    case 0x40: if (!m->mem || u8(r)) bad(r, "bad memory"); un(c, T_I32, T_I32); emit(c, op, k, 0, 0); break;
    case 0x41: { int64_t v = sleb(r, 32); st_push(c, T_I32); emit(c, op, k, 0, (uint32_t)v); break; }
    case 0x42: { int64_t v = sleb(r, 64); st_push(c, T_I64); emit(c, op, k, 0, (uint64_t)v); break; }
    default:
      if (op == 0x45) un(c, T_I32, T_I32);
      else if (op >= 0x46 && op <= 0x4f) bin(c, T_I32, T_I32);
      else if (op == 0x50) un(c, T_I64, T_I32);
      else if (op >= 0x51 && op <= 0x5a) bin(c, T_I64, T_I32);
      else if (op >= 0x67 && op <= 0x69) un(c, T_I32, T_I32);
      else if (op >= 0x6a && op <= 0x78) bin(c, T_I32, T_I32);
      else if (op >= 0x79 && op <= 0x7b) un(c, T_I64, T_I64);
      else if (op >= 0x7c && op <= 0x8a) bin(c, T_I64, T_I64);
      else if (op == 0xa7) un(c, T_I64, T_I32);
      else if (op == 0xac || op == 0xad) un(c, T_I32, T_I64);
      else if (op == 0xc0 || op == 0xc1) un(c, T_I32, T_I32);
      else if (op >= 0xc2 && op <= 0xc4) un(c, T_I64, T_I64);
      else { bad(r, "unsupported opcode"); break; }
      emit(c, op, k, 0, 0);
    }
  }
  if (!r->bad && r->p != r->end) bad(r, "trailing bytes in function body");
  for (uint32_t i = 0; i < c->ncs; i++) free(c->cs[i].fix);
  free(c->cs); free(c->st);
  f->code = c->code; f->ncode = c->n; f->br = c->br; f->nbr = c->nbr; f->maxstack += 2;
}

static int64_t const_expr(inst_t *m, rd *r, int want) {
  uint8_t op = u8(r); int64_t v = 0;
  switch (op) {
  case 0x41: if (want != T_I32) bad(r, "const type"); v = (uint32_t)sleb(r, 32); break;
  case 0x42: if (want != T_I64) bad(r, "const type"); v = sleb(r, 64); break;
  case 0x23: { uint32_t g = leb32(r); if (g >= m->nglobals || m->globals[g].type != want) bad(r, "const global"); else v = m->globals[g].val; break; }
  default: bad(r, "bad constant expression");
  }
  if (u8(r) != 0x0b) bad(r, "bad constant expression"); return v;
}

static void mem_unref(memory_t *m) { if (m && --m->refs == 0) { free(m->data); free(m); } }

static void free_module(inst_t *m) {
  for (uint32_t i = 0; i < m->ntypes; i++) free(m->types[i].p);
  for (uint32_t i = 0; i < m->nfuncs; i++) { free(m->funcs[i].code); free(m->funcs[i].br); free(m->funcs[i].ltypes); free(m->funcs[i].impname); }
  for (uint32_t i = 0; i < m->nexports; i++) free(m->exports[i].name);
  free(m->types); free(m->funcs); free(m->globals); free(m->exports); free(m->table); free(m->bytes);
  mem_unref(m->mem);
  memset(m, 0, sizeof *m); m->magic = MAGIC_DEAD;   /* the header itself is kept: uses after destruction are counted */
}

static const char *load(inst_t *m, const uint8_t *b, uint32_t n) {
  rd R = {b, b + n, false, NULL}; rd *r = &R;
  if (n < 8 || memcmp(b, "\0asm\1\0\0\0", 8)) return "bad magic";
  r->p += 8; int last = 0; uint32_t nbodies = 0, ndecl = 0; m->start = -1;
  const uint8_t *elem = NULL, *elemend = NULL, *data = NULL, *dataend = NULL;
  while (!r->bad && r->p < r->end) {
    uint8_t id = u8(r); uint32_t sz = leb32(r); if (r->bad || (size_t)(r->end - r->p) < sz) { bad(r, "bad section size"); break; }
    rd S = {r->p, r->p + sz, false, NULL}; rd *s = &S; r->p += sz;
    if (id == 0) { free(rname(s, NULL)); if (s->bad) bad(r, s->why); continue; }
    if (id > 11 || id <= last) { bad(r, "bad section order"); break; } last = id;
    uint32_t cnt = (id == 8) ? 0 : leb32(s);
    if (cnt > sz) { bad(r, "bad count"); break; }
    switch (id) {
    case 1: m->types = calloc(cnt + 1, sizeof(functype)); 
      for (uint32_t i = 0; i < cnt && !s->bad; i++) { if (u8(s) != 0x60) { bad(s, "bad type form"); break; }
        functype *t = &m->types[m->ntypes++]; uint32_t np = leb32(s); if (np > sz) { bad(s, "bad arity"); break; } t->p = malloc(np + 1);
        for (uint32_t j = 0; j < np; j++) t->p[t->np++] = vtype(s);
        uint32_t nr = leb32(s); if (nr > 1) { bad(s, "multi-value"); break; } t->nr = nr; if (nr) t->r = vtype(s);
        for (uint32_t j = 0; j < t->np; j++) if (t->p[j] > T_I64) bad(s, "floating point is not supported");
        if (nr && t->r > T_I64) bad(s, "floating point is not supported"); }
      break;
    case 2: m->funcs = calloc(cnt + 1, sizeof(func));
      for (uint32_t i = 0; i < cnt && !s->bad; i++) { char *mod = rname(s, NULL), *nm = rname(s, NULL); uint8_t k = u8(s);
        if (k != 0) { bad(s, "unsupported import kind"); free(mod); free(nm); break; }
        uint32_t ti = leb32(s); if (ti >= m->ntypes) { bad(s, "bad type index"); free(mod); free(nm); break; }
        func *f = &m->funcs[m->nfuncs++]; m->nimpfuncs++; f->type = ti; f->imported = true; f->impname = nm;
        impentry *e = NULL; imptable *tab = __atomic_load_n(&g_tab, __ATOMIC_ACQUIRE);
        for (uint32_t j = 0; tab && j < tab->n; j++) if (!strcmp(tab->e[j].mod, mod) && !strcmp(tab->e[j].name, nm)) { e = &tab->e[j]; break; }
        free(mod);
        if (!e) { bad(s, "unknown import"); break; }
        functype *t = &m->types[ti]; bool ok = t->np == e->f.np && t->nr == e->f.nr && (!t->nr || t->r == e->f.r);
        for (uint32_t j = 0; ok && j < t->np; j++) ok = t->p[j] == e->f.p[j];
        if (!ok) { bad(s, "incompatible import type"); break; }
        f->imp = e->f; }
      break;
    case 3: ndecl = cnt; m->funcs = realloc(m->funcs, (m->nfuncs + cnt + 1) * sizeof(func)); memset(m->funcs + m->nfuncs, 0, (cnt + 1) * sizeof(func));
      for (uint32_t i = 0; i < cnt && !s->bad; i++) { uint32_t ti = leb32(s); if (ti >= m->ntypes) { bad(s, "bad type index"); break; } m->funcs[m->nfuncs++].type = ti; }
      break;
    case 4: if (cnt > 1) { bad(s, "multiple tables"); break; } if (cnt) { if (u8(s) != 0x70) bad(s, "bad table"); uint8_t fl = u8(s); uint32_t mn = leb32(s); if (fl & 1) leb32(s);
        if (mn > 100000) { bad(s, "table too large"); break; } m->hastable = true; m->tablen = mn; m->table = malloc((mn + 1) * 4); memset(m->table, 0xff, (mn + 1) * 4); } break;
    case 5: if (cnt > 1) { bad(s, "multiple memories"); break; } if (cnt) { uint8_t fl = u8(s); uint32_t mn = leb32(s), mx = (fl & 1) ? leb32(s) : 65536;
        if (mn > 4096 || mn > mx) { bad(s, "memory too large"); break; } if (mx > 4096) mx = 4096;
        m->mem = calloc(1, sizeof(memory_t)); m->mem->refs = 1; m->mem->pages = mn; m->mem->maxpages = mx; m->mem->data = calloc(mn ? mn : 1, 65536); } break;
    case 6: m->globals = calloc(cnt + 1, sizeof(global));
      for (uint32_t i = 0; i < cnt && !s->bad; i++) { int t = vtype(s); uint8_t mu = u8(s); if (t > T_I64 || mu > 1) { bad(s, "bad global"); break; }
        int64_t v = const_expr(m, s, t); m->globals[m->nglobals++] = (global){t, mu, v}; }
      break;
    case 7: m->exports = calloc(cnt + 1, sizeof(export_t));
      for (uint32_t i = 0; i < cnt && !s->bad; i++) { export_t *e = &m->exports[m->nexports++]; e->name = rname(s, &e->len); uint8_t k = u8(s); e->idx = leb32(s);
        for (uint32_t j = 0; j + 1 < m->nexports; j++) if (m->exports[j].len == e->len && !memcmp(m->exports[j].name, e->name, e->len)) bad(s, "duplicate export");
        switch (k) { case 0: e->kind = K_FUNC; if (e->idx >= m->nfuncs) bad(s, "bad export"); break;
          case 1: e->kind = K_TABLE; if (!m->hastable) bad(s, "bad export"); break;
          case 2: e->kind = K_MEMORY; if (!m->mem || e->idx) bad(s, "bad export"); break;
          case 3: e->kind = K_GLOBAL; if (e->idx >= m->nglobals) bad(s, "bad export"); break; default: bad(s, "bad export"); } }
      break;
    case 8: m->start = leb32(s); if (m->start >= m->nfuncs || m->types[m->funcs[m->start].type].np || m->types[m->funcs[m->start].type].nr) bad(s, "bad start"); break;
    case 9: elem = s->p; elemend = s->end;
      for (uint32_t i = 0; i < cnt && !s->bad; i++) { if (leb32(s) || !m->hastable) { bad(s, "bad elem"); break; } uint32_t off = (uint32_t)const_expr(m, s, T_I32); uint32_t k = leb32(s);
        if ((uint64_t)off + k > m->tablen) { bad(s, "elem out of range"); break; }
        for (uint32_t j = 0; j < k && !s->bad; j++) { uint32_t fi = leb32(s); if (fi >= m->nfuncs) bad(s, "bad elem"); else m->table[off + j] = fi; } }
      s->p = s->end; break;
    case 10: nbodies = cnt; if (cnt != ndecl) { bad(s, "code count"); break; }
      for (uint32_t i = 0; i < cnt && !s->bad; i++) { uint32_t bs = leb32(s); if (s->bad || (size_t)(s->end - s->p) < bs) { bad(s, "bad body"); break; }
        rd B = {s->p, s->p + bs, false, NULL}; compile_body(m, &m->funcs[m->nimpfuncs + i], &B); s->p += bs; if (B.bad) bad(s, B.why); }
      break;
    case 11: data = s->p; dataend = s->end; (void)data; (void)dataend; (void)elem; (void)elemend;
      for (uint32_t i = 0; i < cnt && !s->bad; i++) { if (leb32(s) || !m->mem) { bad(s, "bad data"); break; } uint32_t off = (uint32_t)const_expr(m, s, T_I32); uint32_t k = leb32(s);
        if (s->bad || (size_t)(s->end - s->p) < k || (uint64_t)off + k > (uint64_t)m->mem->pages * 65536) { bad(s, "data out of range"); break; }
        memcpy(m->mem->data + off, s->p, k); s->p += k; }
      break;
    }
    if (!s->bad && s->p != s->end) bad(s, "section size mismatch");
    if (s->bad) bad(r, s->why);
  }
  if (!r->bad && nbodies != ndecl) bad(r, "missing code");
  return r->bad ? r->why : NULL;
}

/* ---------------------------------------------------------------- execution */
static uint64_t call_import(impfunc *f, void *ctx, uint64_t *a) {
  typedef uint64_t (*F)(void *, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t);
  uint64_t x[14] = {0}; for (uint32_t i = 0; i < f->np && i < 14; i++) x[i] = a[i];
  return ((F)f->fn)(ctx, x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13]);
}

#define TRAP(msg) do { fail(msg); return WASMER_ERROR; } while (0)
#define MAXDEPTH 1024

static int run(inst_t *m, func *f, uint64_t *args, uint64_t *res) {
  functype *ft = &m->types[f->type];
  if (f->imported) {
    uint64_t v = call_import(&f->imp, m, args);
    if (m->magic != MAGIC_LIVE) { g_misuse++; TRAP("instance destroyed while running"); }
    if (ft->nr) *res = ft->r == T_I32 ? (uint32_t)v : v;
    if (m->breakpoint) TRAP("runtime breakpoint");
    if (m->metering && m->points > m->limit) { m->breakpoint = 4; TRAP("out of gas"); }
    return WASMER_OK;
  }
  if (m->depth >= MAXDEPTH) TRAP("call stack exhausted");
  uint64_t *L = alloca((size_t)(f->nlocals + f->maxstack + 2) * 8), *S = L + f->nlocals; uint32_t sp = 0;
  memcpy(L, args, ft->np * 8); memset(L + ft->np, 0, (f->nlocals - ft->np) * 8);
  uint32_t extra = f->nlocals - ft->np;
  if (m->metering && extra > m->unmetered_locals) {
    uint64_t c = (uint64_t)g_costs[447] * (extra - m->unmetered_locals); m->points += c;
    if (m->points > m->limit) { m->breakpoint = 4; TRAP("out of gas"); }
  }
  m->depth++;
#define T(msg) do { m->depth--; TRAP(msg); } while (0)
#define TOP S[sp - 1]
#define A32 ((uint32_t)S[sp - 2])
#define B32 ((uint32_t)S[sp - 1])
#define A64 (S[sp - 2])
#define B64 (S[sp - 1])
#define R2(v) do { uint64_t _v = (v); sp--; TOP = _v; } while (0)
#define EA(w) uint64_t ea = (uint64_t)(uint32_t)TOP + I->imm; if (ea + (w) > (uint64_t)m->mem->pages * 65536) T("memory out of bounds")
#define LOAD(ty, cast) { EA(sizeof(ty)); ty v; memcpy(&v, m->mem->data + ea, sizeof v); TOP = cast v; }
#define STORE(ty) { ty v = (ty)TOP; sp--; EA(sizeof(ty)); memcpy(m->mem->data + ea, &v, sizeof v); sp--; }
  uint32_t pc = 0;
  for (;;) {
    ins *I = &f->code[pc++];
    if (m->metering && I->op != OP_LEAVE) { m->points += g_costs[I->cost]; if (m->points > m->limit) { m->breakpoint = 4; T("out of gas"); } }
    switch (I->op) {
    case 0x00: T("unreachable");
    case 0x01: case 0x02: case 0x03: break;
    case 0x04: if (!(uint32_t)S[--sp]) pc = I->a; break;
    case 0x05: pc = I->a; break;
    case 0x0b: break;
    case 0x0d: if (!(uint32_t)S[--sp]) break; /* fall through */
    case 0x0c: { uint32_t h = (uint32_t)I->imm; if (I->imm >> 32) { uint64_t v = TOP; S[h] = v; sp = h + 1; } else sp = h; pc = I->a; break; }
    case 0x0e: { uint32_t i = (uint32_t)S[--sp]; if (i > I->imm) i = (uint32_t)I->imm; brt *t = &f->br[I->a + i]; if (t->arity) { uint64_t v = TOP; S[t->height] = v; sp = t->height + 1; } else sp = t->height; pc = t->pc; break; }
    case OP_LEAVE: case 0x0f: if (ft->nr) *res = S[sp - 1]; m->depth--; return WASMER_OK;
    case 0x10: case 0x11: {
      uint32_t fi;
      if (I->op == 0x10) fi = I->a; else { uint32_t ti = (uint32_t)S[--sp]; if (ti >= m->tablen || m->table[ti] == UINT32_MAX) T("undefined table element"); fi = m->table[ti];
        functype *x = &m->types[m->funcs[fi].type], *y = &m->types[I->a]; if (x->np != y->np || x->nr != y->nr || memcmp(x->p, y->p, x->np) || (x->nr && x->r != y->r)) T("indirect call type mismatch"); }
      functype *t = &m->types[m->funcs[fi].type]; uint64_t out = 0; sp -= t->np;
      if (run(m, &m->funcs[fi], S + sp, &out) != WASMER_OK) { if (m->magic == MAGIC_LIVE) m->depth--; return WASMER_ERROR; }
      if (t->nr) S[sp++] = out; break; }
    case 0x1a: sp--; break;
    case 0x1b: { uint32_t k = (uint32_t)S[--sp]; sp--; if (!k) TOP = S[sp]; break; }
    case 0x20: S[sp++] = L[I->a]; break;
    case 0x21: L[I->a] = S[--sp]; break;
    case 0x22: L[I->a] = TOP; break;
    case 0x23: S[sp++] = m->globals[I->a].val; break;
    case 0x24: m->globals[I->a].val = S[--sp]; break;
    case 0x28: LOAD(uint32_t, ) break; case 0x29: LOAD(uint64_t, ) break;
    case 0x2c: LOAD(int8_t, (uint32_t)(int32_t)) break; case 0x2d: LOAD(uint8_t, ) break;
    case 0x2e: LOAD(int16_t, (uint32_t)(int32_t)) break; case 0x2f: LOAD(uint16_t, ) break;
    case 0x30: LOAD(int8_t, (uint64_t)(int64_t)) break; case 0x31: LOAD(uint8_t, ) break;
    case 0x32: LOAD(int16_t, (uint64_t)(int64_t)) break; case 0x33: LOAD(uint16_t, ) break;
    case 0x34: LOAD(int32_t, (uint64_t)(int64_t)) break; case 0x35: LOAD(uint32_t, ) break;
    case 0x36: STORE(uint32_t) break; case 0x37: STORE(uint64_t) break;
    case 0x3a: STORE(uint8_t) break; case 0x3b: STORE(uint16_t) break;
    case 0x3c: STORE(uint8_t) break; case 0x3d: STORE(uint16_t) break; case 0x3e: STORE(uint32_t) break;
    case 0x3f: S[sp++] = m->mem->pages; break;
    case 0x40: { uint32_t d = (uint32_t)TOP, old = m->mem->pages; if ((uint64_t)old + d > m->mem->maxpages) TOP = 0xffffffffu; else { if (d) { m->mem->data = realloc(m->mem->data, (size_t)(old + d) * 65536); memset(m->mem->data + (size_t)old * 65536, 0, (size_t)d * 65536); m->mem->pages += d; } TOP = old; } break; }
    case 0x41: case 0x42: S[sp++] = I->imm; break;
    case 0x45: TOP = !(uint32_t)TOP; break;
    case 0x46: R2(A32 == B32); break; case 0x47: R2(A32 != B32); break;
    case 0x48: R2((int32_t)A32 < (int32_t)B32); break; case 0x49: R2(A32 < B32); break;
    case 0x4a: R2((int32_t)A32 > (int32_t)B32); break; case 0x4b: R2(A32 > B32); break;
    case 0x4c: R2((int32_t)A32 <= (int32_t)B32); break; case 0x4d: R2(A32 <= B32); break;
    case 0x4e: R2((int32_t)A32 >= (int32_t)B32); break; case 0x4f: R2(A32 >= B32); break;
    case 0x50: TOP = !TOP; break;
    case 0x51: R2(A64 == B64); break; case 0x52: R2(A64 != B64); break;
    case 0x53: R2((int64_t)A64 < (int64_t)B64); break; case 0x54: R2(A64 < B64); break;
    case 0x55: R2((int64_t)A64 > (int64_t)B64); break; case 0x56: R2(A64 > B64); break;
    case 0x57: R2((int64_t)A64 <= (int64_t)B64); break; case 0x58: R2(A64 <= B64); break;
    case 0x59: R2((int64_t)A64 >= (int64_t)B64); break; case 0x5a: R2(A64 >= B64); break;
    case 0x67: TOP = (uint32_t)TOP ? __builtin_clz((uint32_t)TOP) : 32; break;
    case 0x68: TOP = (uint32_t)TOP ? __builtin_ctz((uint32_t)TOP) : 32; break;
    case 0x69: TOP = __builtin_popcount((uint32_t)TOP); break;
    case 0x6a: R2((uint32_t)(A32 + B32)); break; case 0x6b: R2((uint32_t)(A32 - B32)); break; case 0x6c: R2((uint32_t)(A32 * B32)); break;
    case 0x6d: if (!B32) T("divide by zero"); if ((int32_t)A32 == INT32_MIN && (int32_t)B32 == -1) T("integer overflow"); R2((uint32_t)((int32_t)A32 / (int32_t)B32)); break;
    case 0x6e: if (!B32) T("divide by zero"); R2(A32 / B32); break;
    case 0x6f: if (!B32) T("divide by zero"); R2((int32_t)B32 == -1 ? 0 : (uint32_t)((int32_t)A32 % (int32_t)B32)); break;
    case 0x70: if (!B32) T("divide by zero"); R2(A32 % B32); break;
    case 0x71: R2(A32 & B32); break; case 0x72: R2(A32 | B32); break; case 0x73: R2(A32 ^ B32); break;
    case 0x74: R2((uint32_t)(A32 << (B32 & 31))); break; case 0x75: R2((uint32_t)((int32_t)A32 >> (B32 & 31))); break; case 0x76: R2(A32 >> (B32 & 31)); break;
    case 0x77: { uint32_t s = B32 & 31; R2((uint32_t)((A32 << s) | (s ? A32 >> (32 - s) : 0))); break; }
    case 0x78: { uint32_t s = B32 & 31; R2((uint32_t)((A32 >> s) | (s ? A32 << (32 - s) : 0))); break; }
    case 0x79: TOP = TOP ? __builtin_clzll(TOP) : 64; break;
    case 0x7a: TOP = TOP ? __builtin_ctzll(TOP) : 64; break;
    case 0x7b: TOP = __builtin_popcountll(TOP); break;
    case 0x7c: R2(A64 + B64); break; case 0x7d: R2(A64 - B64); break; case 0x7e: R2(A64 * B64); break;
    case 0x7f: if (!B64) T("divide by zero"); if ((int64_t)A64 == INT64_MIN && (int64_t)B64 == -1) T("integer overflow"); R2((uint64_t)((int64_t)A64 / (int64_t)B64)); break;
    case 0x80: if (!B64) T("divide by zero"); R2(A64 / B64); break;
    case 0x81: if (!B64) T("divide by zero"); R2((int64_t)B64 == -1 ? 0 : (uint64_t)((int64_t)A64 % (int64_t)B64)); break;
    case 0x82: if (!B64) T("divide by zero"); R2(A64 % B64); break;
    case 0x83: R2(A64 & B64); break; case 0x84: R2(A64 | B64); break; case 0x85: R2(A64 ^ B64); break;
    case 0x86: R2(A64 << (B64 & 63)); break; case 0x87: R2((uint64_t)((int64_t)A64 >> (B64 & 63))); break; case 0x88: R2(A64 >> (B64 & 63)); break;
    case 0x89: { uint32_t s = B64 & 63; R2((A64 << s) | (s ? A64 >> (64 - s) : 0)); break; }
    case 0x8a: { uint32_t s = B64 & 63; R2((A64 >> s) | (s ? A64 << (64 - s) : 0)); break; }
    case 0xa7: TOP = (uint32_t)TOP; break;
    case 0xac: TOP = (uint64_t)(int64_t)(int32_t)TOP; break; case 0xad: TOP = (uint32_t)TOP; break;
    case 0xc0: TOP = (uint32_t)(int32_t)(int8_t)TOP; break; case 0xc1: TOP = (uint32_t)(int32_t)(int16_t)TOP; break;
    case 0xc2: TOP = (uint64_t)(int64_t)(int8_t)TOP; break; case 0xc3: TOP = (uint64_t)(int64_t)(int16_t)TOP; break; case 0xc4: TOP = (uint64_t)(int64_t)(int32_t)TOP; break;
    default: T("bad instruction");
    }
  }
}

/* ---------------------------------------------------------------- the C interface */
static inst_t *live(void *p) { inst_t *m = p; if (!m || m->magic != MAGIC_LIVE) { g_misuse++; return NULL; } return m; }

void wasmer_set_opcode_costs(const uint32_t *c) { memcpy(g_costs, c, sizeof g_costs); }

void *wasmer_import_func_new(void (*fn)(void *), const uint32_t *p, unsigned np, const uint32_t *r, unsigned nr) {
  if (np > 14 || nr > 1) { fail("too many parameters"); return NULL; }
  impfunc *f = calloc(1, sizeof *f); f->fn = (void *)fn; f->np = np; f->nr = nr;
  for (unsigned i = 0; i < np; i++) f->p[i] = (uint8_t)p[i];
  if (nr) f->r = (uint8_t)r[0];
  return f;
}
void wasmer_import_func_destroy(void *f) { free(f); }
int wasmer_import_object_cache_from_imports(const wasmer_import_t *im, uint32_t n) {
  imptable *cur = __atomic_load_n(&g_tab, __ATOMIC_ACQUIRE);
  for (uint32_t i = 0; i < n; i++) if (!im[i].value) return fail("null import");
  if (cur && cur->n == n) {
    uint32_t i = 0;
    for (; i < n; i++) {
      impentry *c = &cur->e[i];
      if (strlen(c->mod) != im[i].module_name.bytes_len || memcmp(c->mod, im[i].module_name.bytes, im[i].module_name.bytes_len)) break;
      if (strlen(c->name) != im[i].import_name.bytes_len || memcmp(c->name, im[i].import_name.bytes, im[i].import_name.bytes_len)) break;
      if (memcmp(&c->f, im[i].value, sizeof(impfunc))) break;
    }
    if (i == n) return WASMER_OK;
  }
  imptable *t = calloc(1, sizeof *t); t->e = calloc(n + 1, sizeof(impentry)); t->n = n;
  for (uint32_t i = 0; i < n; i++) {
    t->e[i].mod = strndup((const char *)im[i].module_name.bytes, im[i].module_name.bytes_len);
    t->e[i].name = strndup((const char *)im[i].import_name.bytes, im[i].import_name.bytes_len);
    t->e[i].f = *(impfunc *)im[i].value;
  }
  __atomic_store_n(&g_tab, t, __ATOMIC_RELEASE);
  return WASMER_OK;
}

static int instantiate(void **out, const uint8_t *b, uint32_t n, const wasmer_options *o) {
  *out = NULL; inst_t *m = calloc(1, sizeof *m); m->magic = MAGIC_LIVE;
  m->bytes = malloc(n + 1); memcpy(m->bytes, b, n); m->nbytes = n;
  const char *why = load(m, m->bytes, n);
  if (why) { fail(why); free_module(m); free(m); return WASMER_ERROR; }
  m->limit = o->gas_limit; m->unmetered_locals = o->unmetered_locals; m->metering = o->metering; __atomic_add_fetch(&g_live, 1, __ATOMIC_RELAXED);
  if (m->start >= 0) { uint64_t r; if (run(m, &m->funcs[m->start], NULL, &r) != WASMER_OK) { __atomic_sub_fetch(&g_live, 1, __ATOMIC_RELAXED); free_module(m); return WASMER_ERROR; } }
  *out = m; return WASMER_OK;
}
int wasmer_instantiate_with_options(void **out, uint8_t *b, uint32_t n, const wasmer_options *o) { return instantiate(out, b, n, o); }
static const char CACHE_MAGIC[8] = "VWCACHE1";
int wasmer_instance_cache(void *i, uint8_t **out, uint32_t *n) {
  inst_t *m = live(i); if (!m) return fail("dead instance");
  *out = malloc(m->nbytes + 8); memcpy(*out, CACHE_MAGIC, 8); memcpy(*out + 8, m->bytes, m->nbytes); *n = m->nbytes + 8; return WASMER_OK;
}
int wasmer_instance_from_cache(void **out, uint8_t *b, uint32_t n, const wasmer_options *o) {
  *out = NULL; if (n < 8 || memcmp(b, CACHE_MAGIC, 8)) return fail("bad cached code");
  return instantiate(out, b + 8, n - 8, o);
}
void wasmer_instance_destroy(void *i) { inst_t *m = live(i); if (!m) return; __atomic_sub_fetch(&g_live, 1, __ATOMIC_RELAXED); free_module(m); }
uint64_t wasmer_instance_get_points_used(void *i) { inst_t *m = live(i); return m ? m->points : 0; }
void wasmer_instance_set_points_used(void *i, uint64_t v) { inst_t *m = live(i); if (m) m->points = v; }
void wasmer_instance_set_points_limit(void *i, uint64_t v) { inst_t *m = live(i); if (m) m->limit = v; }
uint64_t wasmer_instance_get_runtime_breakpoint_value(void *i) { inst_t *m = live(i); return m ? m->breakpoint : 0; }
void wasmer_instance_set_runtime_breakpoint_value(void *i, uint64_t v) { inst_t *m = live(i); if (m) m->breakpoint = v; }
bool wasmer_instance_is_function_imported(void *i, const char *name) {
  inst_t *m = live(i); if (!m) return false;
  for (uint32_t k = 0; k < m->nimpfuncs; k++) if (!strcmp(m->funcs[k].impname, name)) return true;
  return false;
}
void wasmer_instance_exports(void *i, void **out) { exports_t *e = calloc(1, sizeof *e); e->inst = live(i); e->n = e->inst ? e->inst->nexports : 0;
  *out = e; if (e->n) { exportref *r = calloc(e->n, sizeof *r); for (uint32_t k = 0; k < e->n; k++) r[k] = (exportref){e->inst, k}; e->inst->namebuf = (char *)r; } }
/* the export references live in a block owned by the exports object (kept in namebuf while it exists) */
void wasmer_exports_destroy(void *x) { exports_t *e = x; if (e->inst && e->inst->namebuf) { free(e->inst->namebuf); e->inst->namebuf = NULL; } free(e); }
int wasmer_exports_len(void *x) { return (int)((exports_t *)x)->n; }
void *wasmer_exports_get(void *x, int i) { exports_t *e = x; return (exportref *)e->inst->namebuf + i; }
static export_t *ex(void *x) { exportref *r = x; return &r->inst->exports[r->idx]; }
uint32_t wasmer_export_kind(void *x) { return ex(x)->kind; }
wasmer_byte_array wasmer_export_name(void *x) { export_t *e = ex(x); return (wasmer_byte_array){(const uint8_t *)e->name, e->len}; }
void *wasmer_export_to_func(void *x) { return x; }
static functype *exft(void *x) { exportref *r = x; return &r->inst->types[r->inst->funcs[ex(x)->idx].type]; }
int wasmer_export_func_params_arity(void *x, uint32_t *n) { *n = exft(x)->np; return WASMER_OK; }
int wasmer_export_func_returns_arity(void *x, uint32_t *n) { *n = exft(x)->nr; return WASMER_OK; }
int wasmer_export_func_params(void *x, uint32_t *p, uint32_t n) { functype *t = exft(x); for (uint32_t i = 0; i < n && i < t->np; i++) p[i] = t->p[i]; return WASMER_OK; }
int wasmer_export_to_memory(void *x, void **out) { exportref *r = x; *out = r->inst->mem; r->inst->mem->refs++; return WASMER_OK; }
void *wasmer_instance_context_get(void *i) { return live(i); }
void *wasmer_instance_context_data_get(void *i) { inst_t *m = live(i); return m ? m->ctxdata : NULL; }
void wasmer_instance_context_data_set(void *i, void *d) { inst_t *m = live(i); if (m) m->ctxdata = d; }
void *wasmer_instance_context_memory(void *i, uint32_t k) { (void)k; inst_t *m = live(i); return m ? m->mem : NULL; }
uint8_t *wasmer_memory_data(void *x) { memory_t *m = x; return m ? m->data : NULL; }
uint32_t wasmer_memory_data_length(void *x) { memory_t *m = x; return m ? m->pages * 65536u : 0; }
int wasmer_memory_grow(void *x, uint32_t d) {
  memory_t *m = x; if (!m || (uint64_t)m->pages + d > m->maxpages) return fail("cannot grow memory");
  if (d) { m->data = realloc(m->data, (size_t)(m->pages + d) * 65536); memset(m->data + (size_t)m->pages * 65536, 0, (size_t)d * 65536); m->pages += d; }
  return WASMER_OK;
}
void wasmer_memory_destroy(void *x) { mem_unref(x); }

int wasmer_instance_call(void *i, const char *name, const wasmer_value_t *p, uint32_t np, wasmer_value_t *r, uint32_t nr) {
  inst_t *m = live(i); if (!m) return fail("dead instance");
  for (uint32_t k = 0; k < m->nexports; k++) {
    export_t *e = &m->exports[k]; if (e->kind != K_FUNC || strlen(name) != e->len || memcmp(e->name, name, e->len)) continue;
    func *f = &m->funcs[e->idx]; functype *t = &m->types[f->type]; if (t->np != np || t->nr > nr) return fail("bad call arity");
    uint64_t a[64] = {0}, out = 0; if (np > 64) return fail("too many arguments");
    for (uint32_t j = 0; j < np; j++) a[j] = t->p[j] == T_I32 ? (uint32_t)p[j].value.i32 : (uint64_t)p[j].value.i64;
    uint32_t d0 = m->depth; int rc = run(m, f, a, &out); if (m->magic == MAGIC_LIVE) m->depth = d0;
    if (rc != WASMER_OK) return rc;
    if (t->nr) { r[0].tag = t->r; if (t->r == T_I32) r[0].value.i32 = (int32_t)out; else r[0].value.i64 = (int64_t)out; }
    return WASMER_OK;
  }
  return fail("no such export");
}
int wasmer_last_error_length(void) { return g_err[0] ? (int)strlen(g_err) + 1 : 0; }
int wasmer_last_error_message(char *b, int n) { if (!g_err[0]) return 0; snprintf(b, n, "%s", g_err); return (int)strlen(b); }
