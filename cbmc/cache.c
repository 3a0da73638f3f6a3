/* Contracts of std_pg_hash.c (C17).  The file itself is included as it is; what it calls outside itself is modelled here. */
#include <std_pg_hash.c>

/* ---- what the contracts speak of ------------------------------------------------------------ */
/* a digest: 32 characters, eight to a word */
#define DIG 32
#define WORDS 4
typedef struct { unsigned long w[WORDS]; } Digest;
/* a loaded lexicon or grammar remembers the text it was made from, and the digest of that */
typedef struct { const char *text; Digest digest; } Obj;
/* the texts of the request and their digests: any two texts, any digests, the same digest for the same text */
char *g_lexicon, *g_grammar;
Digest g_lexicon_digest, g_grammar_digest;
#define WORD(s, k) (((const unsigned long *) (s))[k])
#define SLOTS 4
/* the memory contexts and their entries in the hash table: one for each slot, one for what a request adds */
typedef struct {
    MemoryContext ctx;
    bool live;                      /* not deleted */
    bool hashed;
    StdHashEntry he;
} Ctx;
Ctx g_ctx[SLOTS + 1];
MemoryContextCallback g_cb[SLOTS + 1];   /* what is called when it is */
bool g_cb_set;                      /* on the new one */
bool g_fresh_ctx;                   /* g_ctx[SLOTS] was made */
bool g_load_failed;
int g_level;                        /* of the error being raised */
int g_loaded, g_unloaded;           /* objects loaded and given up in this call */
StdPortalCache *g_cache;            /* the cache before the call, and a copy of it */
StdPortalCache g_before;
MemoryContext g_mcxt;               /* the context the cache lives in */
static bool cache_empty(StdPortalCache *c);
/* which context a block was allocated in */
struct { void *p; MemoryContext c; } g_alloc[4];
int g_allocs;
MemoryContext CurrentMemoryContext;
bool nondet_bool(void);
unsigned long nondet_ulong(void);

static Digest *digest_of(const char *text)
{
    __CPROVER_assert(text == g_lexicon || text == g_grammar, "only the texts of the request are asked for");
    return text == g_lexicon ? &g_lexicon_digest : &g_grammar_digest;
}
static bool same_digest(const Digest *a, const Digest *b)
{
    return a->w[0] == b->w[0] && a->w[1] == b->w[1] && a->w[2] == b->w[2] && a->w[3] == b->w[3];
}
static bool digest_is(const char *s, const Digest *d)
{
    return same_digest((const Digest *) s, d) && s[0] != 0 && s[1] != 0 && s[DIG] == 0;
}
static const Digest *lex_of(STANDARDIZER *s) { return &((Obj *) s->lex_obj)->digest; }
static const Digest *gmr_of(STANDARDIZER *s) { return &((Obj *) s->gmr_obj)->digest; }
static bool made_from(STANDARDIZER *s, const char *lex, const char *gmr) { return ((Obj *) s->lex_obj)->text == lex && ((Obj *) s->gmr_obj)->text == gmr && same_digest(lex_of(s), digest_of(lex)) && same_digest(gmr_of(s), digest_of(gmr)); }
static bool is_made_from(STANDARDIZER *s, const char *lex, const char *gmr)
{
    return s && s->lex_obj && s->gmr_obj && same_digest(lex_of(s), digest_of(lex)) && same_digest(gmr_of(s), digest_of(gmr));
}
/* context j belongs to slot s: it is alive, the table knows the object under it, and deleting it frees the object */
static bool owns(int j, StdCacheItem *s)
{
    return g_ctx[j].live && g_ctx[j].ctx == s->std_mcxt && g_ctx[j].hashed && g_ctx[j].he.context == s->std_mcxt && g_ctx[j].he.std == s->std && g_cb[j].func == StdCacheDelete && g_cb[j].arg == s->std_mcxt;
}
static bool slot_empty(StdCacheItem *s) { return s->std == NULL && s->lex_md5 == NULL && s->gmr_md5 == NULL; }
static bool slot_full(StdCacheItem *s)
{
    return s->std && s->lex_md5 && s->gmr_md5 && s->std->lex_obj && s->std->gmr_obj && digest_is(s->lex_md5, lex_of(s->std)) && digest_is(s->gmr_md5, gmr_of(s->std));
}
/* the state every request leaves the cache in; added: the slot that got the new context, or -1 */
static bool cache_ok(StdPortalCache *c, int added)
{
    if (c->NextSlot < 0 || c->NextSlot >= SLOTS || c->StdCacheContext != g_mcxt) return false;
    for (int i = 0; i < SLOTS; ++i)
        if (!(c->StdCache[i].std == NULL ? slot_empty(&c->StdCache[i]) : slot_full(&c->StdCache[i]) && owns(i == added ? SLOTS : i, &c->StdCache[i]))) return false;
    return true;
}
/* the part of it that looking up needs */
static bool filled(StdPortalCache *c)
{
    for (int i = 0; i < SLOTS; ++i) if (!(c->StdCache[i].std == NULL ? slot_empty(&c->StdCache[i]) : slot_full(&c->StdCache[i]))) return false;
    return true;
}
static bool slot_same(StdCacheItem *a, StdCacheItem *b) { return a->std == b->std && a->lex_md5 == b->lex_md5 && a->gmr_md5 == b->gmr_md5 && a->std_mcxt == b->std_mcxt; }
static bool cache_same(StdPortalCache *a, StdPortalCache *b)
{
    for (int i = 0; i < SLOTS; ++i) if (!slot_same(&a->StdCache[i], &b->StdCache[i])) return false;
    return a->NextSlot == b->NextSlot && a->StdCacheContext == b->StdCacheContext;
}
static bool cache_empty(StdPortalCache *c)
{
    for (int i = 0; i < SLOTS; ++i) if (!slot_empty(&c->StdCache[i])) return false;
    return c->NextSlot == 0;
}
static bool in_slot(StdCacheItem *s, char *lex, char *gmr) { return s->std && digest_is(s->lex_md5, digest_of(lex)) && digest_is(s->gmr_md5, digest_of(gmr)); }
static bool in_cache(StdPortalCache *c, char *lex, char *gmr)
{
    for (int i = 0; i < SLOTS; ++i) if (in_slot(&c->StdCache[i], lex, gmr)) return true;
    return false;
}
static bool one_of(StdPortalCache *c, STANDARDIZER *s)
{
    for (int i = 0; i < SLOTS; ++i) if (c->StdCache[i].std == s) return true;
    return false;
}
static bool alloc_in(void *p, MemoryContext c)
{
    for (int i = 0; i < 4; ++i) if (i < g_allocs && g_alloc[i].p == p && g_alloc[i].c == c) return true;
    return false;
}

/* ---- what the file calls: trusted models ---------------------------------------------------- */
static char *hex(const Digest *d)
{
    char *r = malloc(DIG + 1);
    __CPROVER_assume(r != NULL);
    *(Digest *) r = *d;
    __CPROVER_assume(r[0] != 0 && r[1] != 0);
    r[DIG] = 0;
    return r;
}
char *getMd5(char *text) { return hex(digest_of(text)); }
/* texts here are digests of 32 characters, or empty */
int strcmp(const char *a, const char *b)
{
    if (a[0] == 0 || b[0] == 0) return a[0] - b[0];
    __CPROVER_assert(a[DIG] == 0 && b[DIG] == 0, "only digests are compared");
    return !same_digest((const Digest *) a, (const Digest *) b);
}
static char *copy(const char *s, void *p)
{
    if (s[0] && s[1]) {
        __CPROVER_assert(s[DIG] == 0, "only digests and error texts are copied");
        *(Digest *) p = *(const Digest *) s;
        ((char *) p)[DIG] = 0;
    }
    else { ((char *) p)[0] = s[0]; if (s[0]) ((char *) p)[1] = 0; }
    return p;
}
static void *load(char *text, char **err)
{
    if (nondet_bool()) {
        g_load_failed = true;
        *err = malloc(2);
        __CPROVER_assume(*err != NULL);
        (*err)[0] = 'e'; (*err)[1] = 0;
        return NULL;
    }
    Obj *o = malloc(sizeof(Obj));
    __CPROVER_assume(o != NULL);
    o->text = text;
    o->digest = *digest_of(text);
    *err = NULL;
    ++g_loaded;
    return o;
}
void *getLexiconPtr(char *text, char **err) { return load(text, err); }
void *getGrammarPtr(char *text, char **err) { return load(text, err); }
/* free() itself checks that the object was not given up before */
void freeLexiconPtr(void *p) { if (p) ++g_unloaded; free(p); }
void freeGrammarPtr(void *p) { if (p) ++g_unloaded; free(p); }
void *palloc(Size n)
{
    void *p = malloc(n);
    __CPROVER_assume(p != NULL);
    if (g_allocs < 4) { g_alloc[g_allocs].p = p; g_alloc[g_allocs].c = CurrentMemoryContext; ++g_allocs; }
    return p;
}
char *pstrdup(const char *s) { return copy(s, palloc(s[0] == 0 ? 1 : s[1] == 0 ? 2 : DIG + 1)); }
char *strdup(const char *s)
{
    char *p = malloc(s[0] == 0 ? 1 : s[1] == 0 ? 2 : DIG + 1);
    __CPROVER_assume(p != NULL);
    return copy(s, p);
}
void pfree(void *p) { __CPROVER_assert(p != NULL, "pfree is given a block"); free(p); }
void *MemoryContextAlloc(MemoryContext c, Size n)
{
    __CPROVER_assert(g_fresh_ctx && c == g_ctx[SLOTS].ctx && n == sizeof(MemoryContextCallback), "the callback lives in the new context");
    return &g_cb[SLOTS];
}
MemoryContext AllocSetContextCreateInternal(MemoryContext parent, const char *name, Size a, Size b, Size c)
{
    __CPROVER_assert(!g_fresh_ctx, "a request makes one context");
    __CPROVER_assert(parent == g_mcxt, "the context of an object is a child of the context of the cache");
    void *p = malloc(1);
    __CPROVER_assume(p != NULL);
    g_fresh_ctx = true;
    g_ctx[SLOTS].ctx = p; g_ctx[SLOTS].live = true; g_ctx[SLOTS].hashed = false;
    return p;
}
void MemoryContextRegisterResetCallback(MemoryContext c, MemoryContextCallback *cb)
{
    __CPROVER_assert(g_fresh_ctx && c == g_ctx[SLOTS].ctx && cb == &g_cb[SLOTS] && !g_cb_set, "the callback is set once, on the new context");
    g_cb_set = true;
}
void MemoryContextDelete(MemoryContext c)
{
    bool known = false;
    for (int j = 0; j <= SLOTS; ++j)
        if (g_ctx[j].live && g_ctx[j].ctx == c) {
            __CPROVER_assert(g_cb[j].func == StdCacheDelete, "a context that is deleted frees its object");
            g_ctx[j].live = false;
            StdCacheDelete(g_cb[j].arg);
            known = true;
            break;
        }
    __CPROVER_assert(known, "a context is deleted while it lives");
}
HTAB *hash_create(const char *name, long n, const HASHCTL *info, int flags)
{
    void *p = malloc(1);
    __CPROVER_assume(p != NULL);
    return p;
}
void *hash_search(HTAB *t, const void *key, HASHACTION action, bool *found)
{
    MemoryContext k = *(MemoryContext *) key;
    __CPROVER_assert(t != NULL, "the table was created");
    for (int j = 0; j <= SLOTS; ++j)
        if (g_ctx[j].hashed && g_ctx[j].he.context == k) {
            if (found) *found = true;
            if (action == HASH_REMOVE) g_ctx[j].hashed = false;
            return &g_ctx[j].he;
        }
    if (found) *found = false;
    if (action != HASH_ENTER) return NULL;
    __CPROVER_assert(g_fresh_ctx && k == g_ctx[SLOTS].ctx, "an entry is made for the new context");
    g_ctx[SLOTS].hashed = true;
    g_ctx[SLOTS].he.context = k;
    return &g_ctx[SLOTS].he;
}
uint32 hash_bytes(const unsigned char *k, int n) { return (uint32) nondet_ulong(); }
int SPI_finish(void) { return 0; }
bool errstart(int level, const char *domain) { g_level = level; return true; }
bool errstart_cold(int level, const char *domain) { g_level = level; return true; }
int errmsg_internal(const char *fmt, ...) { return 0; }
void errfinish(const char *file, int line, const char *fn)
{
    if (g_level >= ERROR) {
        __CPROVER_assert(g_load_failed, "an error is raised only when a text does not load");
        __CPROVER_assert(g_loaded == g_unloaded, "what was loaded before the error is given up");
        __CPROVER_assert(g_cache == NULL || (cache_same(g_cache, &g_before) && cache_ok(g_cache, -1)), "an error leaves the cache as it was");
        __CPROVER_assume(false);
    }
}

/* ---- contracts ------------------------------------------------------------------------------ */
/* looking a pair of texts up: found exactly when a slot holds their digests */
bool IsIn_contract(StdPortalCache *c, char *lexicon, char *grammar)
__CPROVER_requires(filled(c))
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == in_cache(c, lexicon, grammar))
;
STANDARDIZER *GetStdFrom_contract(StdPortalCache *c, char *lexicon, char *grammar)
__CPROVER_requires(filled(c))
__CPROVER_assigns()
__CPROVER_ensures((__CPROVER_return_value != NULL) == in_cache(c, lexicon, grammar))
__CPROVER_ensures(__CPROVER_return_value == NULL || (one_of(c, __CPROVER_return_value) && is_made_from(__CPROVER_return_value, lexicon, grammar)))
;

/* an object is made from both texts, or an error is raised and nothing is left */
STANDARDIZER *CreateStd_contract(char *lexicon, char *grammar)
__CPROVER_requires(g_allocs == 0 && g_loaded == g_unloaded && 0 <= g_loaded && g_loaded < 100 && !g_load_failed && g_cache == NULL)
__CPROVER_assigns(g_load_failed, g_loaded, g_unloaded, g_level, g_allocs, __CPROVER_object_whole(g_alloc))
__CPROVER_ensures(__CPROVER_is_fresh(__CPROVER_return_value, sizeof(STANDARDIZER)))
__CPROVER_ensures(__CPROVER_is_fresh(__CPROVER_return_value->lex_obj, sizeof(Obj)) && __CPROVER_is_fresh(__CPROVER_return_value->gmr_obj, sizeof(Obj)))
__CPROVER_ensures(made_from(__CPROVER_return_value, lexicon, grammar) && !g_load_failed)
__CPROVER_ensures(g_loaded == __CPROVER_old(g_loaded) + 2 && g_unloaded == __CPROVER_old(g_unloaded))
;

static bool no_cache(void) { return !g_ctx[0].live && !g_ctx[1].live && !g_ctx[2].live && !g_ctx[3].live && !g_ctx[0].hashed && !g_ctx[1].hashed && !g_ctx[2].hashed && !g_ctx[3].hashed; }
/* contexts of empty slots are none */
static bool ctx_ok(StdPortalCache *c)
{
    for (int i = 0; i < SLOTS; ++i) if (c->StdCache[i].std == NULL && (g_ctx[i].live || g_ctx[i].hashed)) return false;
    return true;
}
/* nothing was done yet */
static bool at_rest(void) { return g_allocs == 0 && g_loaded == 0 && g_unloaded == 0 && !g_load_failed && !g_fresh_ctx && !g_cb_set && !g_ctx[SLOTS].live && !g_ctx[SLOTS].hashed && CurrentMemoryContext != g_mcxt; }
/* the cache of a call: made on the first, kept afterwards */
StdPortalCache *GetStdPortalCache_contract(FunctionCallInfo f)
__CPROVER_requires(__CPROVER_is_fresh(f, sizeof(*f)) && __CPROVER_is_fresh(f->flinfo, sizeof(*f->flinfo)))
__CPROVER_requires(at_rest() && f->flinfo->fn_mcxt == g_mcxt)
__CPROVER_requires(f->flinfo->fn_extra == NULL || __CPROVER_is_fresh(f->flinfo->fn_extra, sizeof(StdPortalCache)))
__CPROVER_assigns(f->flinfo->fn_extra, g_allocs, CurrentMemoryContext, __CPROVER_object_whole(g_alloc))
__CPROVER_ensures(__CPROVER_return_value != NULL && __CPROVER_return_value == f->flinfo->fn_extra)
__CPROVER_ensures(CurrentMemoryContext == __CPROVER_old(CurrentMemoryContext))
__CPROVER_ensures(__CPROVER_old(f->flinfo->fn_extra) != NULL ? f->flinfo->fn_extra == __CPROVER_old(f->flinfo->fn_extra) && g_allocs == 0 :
    (alloc_in(__CPROVER_return_value, g_mcxt) && cache_empty(__CPROVER_return_value)))
;

/* a pair of texts is added: in the next slot, what was there is given up, and nothing else changes */
#define NEXT (c->StdCache[SLOT])
#ifndef SLOT
#define SLOT 0
#endif
void AddTo_contract(StdPortalCache *c, char *lexicon, char *grammar)
__CPROVER_requires(cache_ok(c, -1) && ctx_ok(c) && at_rest() && c->NextSlot == SLOT)
__CPROVER_requires(g_cache == c && cache_same(c, &g_before) && (StdHash != NULL || cache_empty(c)))
__CPROVER_assigns(c->NextSlot, NEXT, g_allocs, CurrentMemoryContext, __CPROVER_object_whole(g_alloc), __CPROVER_object_whole(g_ctx), __CPROVER_object_whole(g_cb), g_cb_set, g_fresh_ctx, g_load_failed, g_loaded, g_unloaded, g_level, StdHash)
__CPROVER_assigns(NEXT.std != NULL: *(NEXT.std))
__CPROVER_frees(NEXT.std, NEXT.lex_md5, NEXT.gmr_md5)
__CPROVER_frees(NEXT.std != NULL: NEXT.std->lex_obj, NEXT.std->gmr_obj)
__CPROVER_ensures(__CPROVER_is_fresh(NEXT.std, sizeof(STANDARDIZER)) && __CPROVER_is_fresh(NEXT.std->lex_obj, sizeof(Obj)) && __CPROVER_is_fresh(NEXT.std->gmr_obj, sizeof(Obj)))
__CPROVER_ensures(__CPROVER_is_fresh(NEXT.lex_md5, DIG + 1) && __CPROVER_is_fresh(NEXT.gmr_md5, DIG + 1))
__CPROVER_ensures(cache_ok(c, SLOT))
__CPROVER_ensures(made_from(NEXT.std, lexicon, grammar))
__CPROVER_ensures(alloc_in(NEXT.lex_md5, g_mcxt) && alloc_in(NEXT.gmr_md5, g_mcxt))
__CPROVER_ensures(c->NextSlot == (SLOT + 1) % SLOTS && StdHash != NULL && CurrentMemoryContext == __CPROVER_old(CurrentMemoryContext))
__CPROVER_ensures(g_loaded == 2 && g_unloaded == (g_before.StdCache[SLOT].std ? 2 : 0))
__CPROVER_ensures(g_before.StdCache[SLOT].std == NULL || (!g_ctx[SLOT].live && !g_ctx[SLOT].hashed))
;
/* a request: the object made from these texts comes out of the cache, which is in order again */
STANDARDIZER *GetStdUsing_contract(FunctionCallInfo f, char *lexicon, char *grammar)
__CPROVER_requires(at_rest() && f->flinfo->fn_mcxt == g_mcxt && f->flinfo->fn_extra == g_cache)
__CPROVER_requires(g_cache == NULL ? no_cache() : cache_ok(g_cache, -1) && ctx_ok(g_cache) && g_cache->NextSlot == SLOT && cache_same(g_cache, &g_before) && (StdHash != NULL || cache_empty(g_cache)))
__CPROVER_assigns(f->flinfo->fn_extra, g_allocs, CurrentMemoryContext, __CPROVER_object_whole(g_alloc), __CPROVER_object_whole(g_ctx), __CPROVER_object_whole(g_cb), g_cb_set, g_fresh_ctx, g_load_failed, g_loaded, g_unloaded, g_level, StdHash)
__CPROVER_assigns(g_cache != NULL: g_cache->NextSlot, g_cache->StdCache[SLOT])
__CPROVER_assigns(g_cache != NULL && g_before.StdCache[SLOT].std != NULL: *(g_before.StdCache[SLOT].std))
__CPROVER_frees(g_cache != NULL: g_before.StdCache[SLOT].std, g_before.StdCache[SLOT].lex_md5, g_before.StdCache[SLOT].gmr_md5)
__CPROVER_frees(g_cache != NULL && g_before.StdCache[SLOT].std != NULL: g_before.StdCache[SLOT].std->lex_obj, g_before.StdCache[SLOT].std->gmr_obj)
__CPROVER_ensures(f->flinfo->fn_extra != NULL && (__CPROVER_old(f->flinfo->fn_extra) == NULL || f->flinfo->fn_extra == __CPROVER_old(f->flinfo->fn_extra)))
__CPROVER_ensures(cache_ok(f->flinfo->fn_extra, g_loaded ? SLOT : -1))
__CPROVER_ensures(is_made_from(__CPROVER_return_value, lexicon, grammar) && one_of(f->flinfo->fn_extra, __CPROVER_return_value))
__CPROVER_ensures(__CPROVER_old(f->flinfo->fn_extra) != NULL && g_loaded == 0 ? cache_same(f->flinfo->fn_extra, &g_before) : true)
__CPROVER_ensures(g_loaded == 0 || __CPROVER_return_value == ((StdPortalCache *) f->flinfo->fn_extra)->StdCache[SLOT].std)
__CPROVER_ensures(CurrentMemoryContext == __CPROVER_old(CurrentMemoryContext))
;
#define CANARY __CPROVER_assert(false, "canary: the call returns")
/* ---- every state in which the invariant holds ------------------------------------------------ */
Digest nondet_digest(void);
StdPortalCache the_cache;
static void *block(size_t n) { void *p = malloc(n); __CPROVER_assume(p != NULL); return p; }
static void any_ghost(void)
{
    g_lexicon = block(1);
    g_grammar = nondet_bool() ? g_lexicon : block(1);
    g_lexicon_digest = nondet_digest(); g_grammar_digest = nondet_digest();
    g_mcxt = block(1);
    CurrentMemoryContext = block(1);
    g_allocs = g_loaded = g_unloaded = 0;
    g_load_failed = g_fresh_ctx = g_cb_set = false;
    for (int i = 0; i <= SLOTS; ++i) { g_ctx[i].live = g_ctx[i].hashed = false; g_ctx[i].ctx = NULL; }
    StdHash = nondet_bool() ? NULL : block(1);
    g_cache = NULL;
}
static void any_slot(int i)
{
    StdCacheItem *s = &the_cache.StdCache[i];
    s->lex_md5 = s->gmr_md5 = NULL; s->std = NULL;
    if (nondet_bool()) return;
    Obj *l = block(sizeof(Obj)), *g = block(sizeof(Obj));
    l->digest = nondet_digest(); g->digest = nondet_digest(); l->text = g->text = NULL;
    s->std = block(sizeof(STANDARDIZER));
    s->std->lex_obj = l; s->std->gmr_obj = g;
    s->lex_md5 = hex(&l->digest); s->gmr_md5 = hex(&g->digest);
    s->std_mcxt = block(1);
    g_ctx[i].ctx = s->std_mcxt; g_ctx[i].live = g_ctx[i].hashed = true;
    g_ctx[i].he.context = s->std_mcxt; g_ctx[i].he.std = s->std;
    g_cb[i].func = StdCacheDelete; g_cb[i].arg = s->std_mcxt;
}
static void any_cache(void)
{
    any_ghost();
    for (int i = 0; i < SLOTS; ++i) any_slot(i);
    the_cache.NextSlot = SLOT;
    the_cache.StdCacheContext = g_mcxt;
    g_cache = &the_cache;
    g_before = the_cache;
}
void h_is(void) { any_cache(); IsInStdPortalCache(&the_cache, g_lexicon, g_grammar); CANARY; }
void h_from(void) { any_cache(); GetStdFromPortalCache(&the_cache, g_lexicon, g_grammar); CANARY; }
void h_create(void) { any_ghost(); CreateStd(g_lexicon, g_grammar); CANARY; }
void h_portal(void) { FunctionCallInfo f; any_ghost(); GetStdPortalCache(f); CANARY; }
void h_add(void) { any_cache(); AddToStdPortalCache(&the_cache, g_lexicon, g_grammar); CANARY; }
FunctionCallInfoBaseData the_call;
FmgrInfo the_function;
static void any_call(void) { the_call.flinfo = &the_function; the_function.fn_extra = g_cache; the_function.fn_mcxt = g_mcxt; }
void h_get(void) { any_cache(); any_call(); GetStdUsingFCInfo(&the_call, g_lexicon, g_grammar); CANARY; }
void h_first(void) { any_ghost(); any_call(); GetStdUsingFCInfo(&the_call, g_lexicon, g_grammar); CANARY; }
