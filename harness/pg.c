/* A small stand-in for the PostgreSQL server: memory contexts, errors, the hash table, texts and tuples. */
#include "postgres.h"
#include "fmgr.h"
#include "funcapi.h"
#include "utils/memutils.h"
#include "utils/hsearch.h"
#include "utils/builtins.h"
#include "access/htup_details.h"
#undef snprintf
#undef vsnprintf
#include <stdio.h>
#include <setjmp.h>
#include "pg.h"

/* ---- memory contexts ------------------------------------------------------------------------ */
typedef struct Block { struct Block *next; struct Ctx *ctx; size_t n; unsigned magic; unsigned pad; } Block;
typedef struct Ctx { struct Ctx *parent, *child, *sibling; Block *blocks; MemoryContextCallback *cbs; int live; struct Ctx *all; } Ctx;
#define MAGIC 0xC0FFEEu
MemoryContext CurrentMemoryContext = NULL;
static Ctx *all = NULL;
static char trouble[400];
const char *pgh_trouble(void) { return trouble; }
static void bad(const char *s) { if (!trouble[0]) snprintf(trouble, sizeof trouble, "%s", s); }
static long bytes;
long pgh_bytes(void) { return bytes; }
static Ctx *known(void *p) { Ctx *c; for (c = all; c; c = c->all) if (c == p && c->live) return c; return NULL; }
static void *alloc_in(Ctx *c, size_t n)
{
    Block *b;
    if (!known(c)) { bad("memory is taken from a context that does not live"); c = NULL; }
    b = malloc(sizeof(Block) + n + 8);
    memset(b + 1, 0x7E, n + 8);
    memset((char *) (b + 1) + n, 0x5A, 8);
    b->n = n; b->magic = MAGIC; b->ctx = c; b->next = NULL;
    if (c) { b->next = c->blocks; c->blocks = b; }
    bytes += (long) n;
    return b + 1;
}
static void check_block(Block *b)
{
    int i;
    if (b->magic != MAGIC) { bad("a block is given back twice, or is no block"); return; }
    for (i = 0; i < 8; ++i) if (((char *) (b + 1))[b->n + i] != 0x5A) bad("something is written after the end of a block");
}
void *palloc(Size n) { return alloc_in((Ctx *) CurrentMemoryContext, n); }
void *palloc0(Size n) { void *p = palloc(n); memset(p, 0, n); return p; }
void *MemoryContextAlloc(MemoryContext c, Size n) { return alloc_in((Ctx *) c, n); }
void pfree(void *p)
{
    Block *b = (Block *) p - 1, **q;
    check_block(b);
    if (b->magic != MAGIC) return;
    if (b->ctx) for (q = &b->ctx->blocks; *q; q = &(*q)->next) if (*q == b) { *q = b->next; break; }
    bytes -= (long) b->n;
    b->magic = 0;
    memset(p, 0x7D, b->n);
    free(b);
}
char *pstrdup(const char *s) { size_t n = strlen(s) + 1; char *p = palloc(n); memcpy(p, s, n); return p; }
MemoryContext AllocSetContextCreateInternal(MemoryContext parent, const char *name, Size a, Size b, Size c)
{
    Ctx *x = calloc(1, sizeof(Ctx));
    x->live = 1; x->parent = (Ctx *) parent; x->all = all; all = x;
    if (parent) {
        if (!known(parent)) bad("a context is made under one that does not live");
        x->sibling = x->parent->child; x->parent->child = x;
    }
    return (MemoryContext) x;
}
void MemoryContextRegisterResetCallback(MemoryContext c, MemoryContextCallback *cb) { Ctx *x = known(c); if (!x) { bad("a callback on a context that does not live"); return; } cb->next = x->cbs; x->cbs = cb; }
void MemoryContextDelete(MemoryContext c)
{
    Ctx *x = known(c), **q;
    Block *b;
    if (!x) { bad("a context is deleted that does not live"); return; }
    while (x->child) MemoryContextDelete((MemoryContext) x->child);
    while (x->cbs) { MemoryContextCallback *cb = x->cbs; x->cbs = cb->next; cb->func(cb->arg); }
    while (x->blocks) {
        b = x->blocks;
        check_block(b);
        x->blocks = b->next;
        bytes -= (long) b->n;
        b->magic = 0;
        memset(b + 1, 0x7D, b->n);
        free(b);
    }
    if (x->parent) for (q = &x->parent->child; *q; q = &(*q)->sibling) if (*q == x) { *q = x->sibling; break; }
    x->live = 0;
}
/* ---- errors --------------------------------------------------------------------------------- */
static jmp_buf jump;
static int level;
static char message[2000];
bool errstart(int l, const char *d) { level = l; return true; }
bool errstart_cold(int l, const char *d) { level = l; return true; }
int errmsg_internal(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(message, sizeof message, f, a); va_end(a); return 0; }
int errmsg(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(message, sizeof message, f, a); va_end(a); return 0; }
int errcode(int c) { return 0; }
void errfinish(const char *f, int n, const char *fn) { if (level >= ERROR) longjmp(jump, 1); }
const char *pgh_message(void) { return message; }
int SPI_finish(void) { return 0; }
/* ---- the hash table of contexts -------------------------------------------------------------- */
typedef struct { void *key; void *value; int used; } Entry;
static Entry table[256];
static int tables;
HTAB *hash_create(const char *name, long n, const HASHCTL *i, int flags) { ++tables; return (HTAB *) table; }
void *hash_search(HTAB *t, const void *key, HASHACTION action, bool *found)
{
    int i;
    void *k = *(void *const *) key;
    if (t != (HTAB *) table) bad("a table that was not made is searched");
    for (i = 0; i < 256; ++i) if (table[i].used && table[i].key == k) { if (found) *found = true; if (action == HASH_REMOVE) table[i].used = 0; return &table[i]; }
    if (found) *found = false;
    if (action != HASH_ENTER) return NULL;
    for (i = 0; i < 256; ++i) if (!table[i].used) { table[i].used = 1; table[i].key = k; table[i].value = NULL; return &table[i]; }
    bad("too many entries");
    return NULL;
}
int pgh_entries(void) { int i, n = 0; for (i = 0; i < 256; ++i) n += table[i].used; return n; }
uint32 hash_bytes(const unsigned char *k, int n) { uint32 h = 5381; while (n-- > 0) h = h * 33 + *k++; return h; }
/* ---- calls ----------------------------------------------------------------------------------- */
typedef struct { FmgrInfo fn; union { FunctionCallInfoBaseData ci; char room[SizeForFunctionCallInfo(8)]; } u; } Portal;
void *pgh_portal(void)
{
    Portal *p = calloc(1, sizeof(Portal));
    p->fn.fn_mcxt = AllocSetContextCreateInternal(NULL, "query", 0, 0, 0);
    p->u.ci.flinfo = &p->fn;
    return p;
}
void pgh_end(void *q)
{
    Portal *p = q;
    Ctx *x, **y;
    MemoryContextDelete(p->fn.fn_mcxt);
    if (CurrentMemoryContext == (MemoryContext) NULL) bad("no current context");
    free(p);
    for (y = &all; *y; ) { x = *y; if (!x->live) { *y = x->all; free(x); } else y = &x->all; }
}
void pgh_start(void) { trouble[0] = 0; CurrentMemoryContext = AllocSetContextCreateInternal(NULL, "top", 0, 0, 0); }
void pgh_stop(void) { MemoryContext c = CurrentMemoryContext; MemoryContextDelete(c); CurrentMemoryContext = NULL; }
int pgh_call(void *q, pgh_fn f, void *arg)
{
    MemoryContext old = CurrentMemoryContext;
    message[0] = 0;
    if (setjmp(jump)) { CurrentMemoryContext = old; return 0; }
    f(&((Portal *) q)->u.ci, arg);
    if (CurrentMemoryContext != old) bad("the current memory context is not put back");
    CurrentMemoryContext = old;
    return 1;
}
/* ---- texts, tuples, sets --------------------------------------------------------------------- */
text *cstring_to_text(const char *s) { size_t n = strlen(s); text *t = palloc(n + VARHDRSZ); SET_VARSIZE(t, n + VARHDRSZ); memcpy(VARDATA(t), s, n); return t; }
struct varlena *pg_detoast_datum(struct varlena *d) { return d; }
static TupleDescData *desc;
TypeFuncClass get_call_result_type(FunctionCallInfo f, Oid *o, TupleDesc *t) { if (!desc) desc = calloc(1, sizeof(TupleDescData) + 64); *t = desc; return TYPEFUNC_COMPOSITE; }
TupleDesc BlessTupleDesc(TupleDesc t) { return t; }
AttInMetadata *TupleDescGetAttInMetadata(TupleDesc t) { static AttInMetadata m; m.tupdesc = t; return &m; }
static Row row;
Row *pgh_row(void) { return &row; }
static HeapTupleData tuple;
static HeapTupleHeaderData header;
static void put(int i, const char *s, size_t n) { row.null[i] = s == NULL; row.text[i][0] = 0; if (s) { if (n > sizeof row.text[i] - 1) n = sizeof row.text[i] - 1; memcpy(row.text[i], s, n); row.text[i][n] = 0; } }
HeapTuple BuildTupleFromCStrings(AttInMetadata *m, char **v)
{
    int i;
    row.n = 17;
    for (i = 0; i < 17; ++i) put(i, v[i], v[i] ? strlen(v[i]) : 0);
    tuple.t_data = &header;
    return &tuple;
}
HeapTuple heap_form_tuple(TupleDesc t, Datum *v, bool *nulls)
{
    int i;
    row.n = pgh_columns;
    for (i = 0; i < row.n; ++i) { row.null[i] = nulls[i]; row.value[i] = (unsigned long) v[i]; if (pgh_kinds[i] == 't') { text *x = (text *) DatumGetPointer(v[i]); put(i, VARDATA(x), VARSIZE(x) - VARHDRSZ); row.null[i] = nulls[i]; } else if (pgh_kinds[i] == 'f') row.real[i] = DatumGetFloat8(v[i]); else row.real[i] = (double) DatumGetInt32(v[i]); }
    tuple.t_data = &header;
    return &tuple;
}
int pgh_columns;
const char *pgh_kinds = "";
Datum HeapTupleHeaderGetDatum(HeapTupleHeader h) { return PointerGetDatum(h); }
FuncCallContext *init_MultiFuncCall(FunctionCallInfo f)
{
    MemoryContext c = AllocSetContextCreateInternal(f->flinfo->fn_mcxt, "set", 0, 0, 0);
    FuncCallContext *x = MemoryContextAlloc(c, sizeof *x);
    memset(x, 0, sizeof *x);
    x->multi_call_memory_ctx = c;
    f->flinfo->fn_extra = x;
    return x;
}
FuncCallContext *per_MultiFuncCall(FunctionCallInfo f) { return f->flinfo->fn_extra; }
void end_MultiFuncCall(FunctionCallInfo f, FuncCallContext *x) { f->flinfo->fn_extra = NULL; MemoryContextDelete(x->multi_call_memory_ctx); }
/* call one of the database functions: 0 error, 1 a value, 2 the end of a set */
typedef struct { Datum (*f)(FunctionCallInfo); const char *const *args; int n; Datum ret; ReturnSetInfo rsi; } Call;
static void one(void *ci, void *a)
{
    FunctionCallInfo f = ci;
    Call *c = a;
    int i;
    for (i = 0; i < c->n; ++i) { f->args[i].value = PointerGetDatum(cstring_to_text(c->args[i])); f->args[i].isnull = false; }
    f->nargs = (short) c->n;
    f->isnull = false;
    f->resultinfo = (Node *) &c->rsi;
    c->ret = c->f(f);
}
int pgh_function(void *q, void *f, const char *const *args, int n)
{
    Call c;
    memset(&c, 0, sizeof c);
    c.f = (Datum (*)(FunctionCallInfo)) f; c.args = args; c.n = n;
    c.rsi.isDone = ExprSingleResult;
    if (!pgh_call(q, one, &c)) return 0;
    if (c.rsi.isDone == ExprEndResult) return 2;
    row.ret = (void *) c.ret;
    return 1;
}
void pgh_text(char *to, size_t n) { text *t = row.ret; size_t k = VARSIZE(t) - VARHDRSZ; if (k > n - 1) k = n - 1; memcpy(to, VARDATA(t), k); to[k] = 0; }
