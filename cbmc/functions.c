/* Contracts of address_standardizer.c (C18).  The file itself is included as it is; what it calls outside itself is modelled here. */
#include <address_standardizer.c>

/* ---- what the contracts speak of ------------------------------------------------------------ */
/* Argument texts and fields are opaque to the functions: texts of one arbitrary character stand for all (text2char is proved for all sizes). */
typedef struct { char head[VARHDRSZ]; char c; char room[16]; } Text1;
Text1 g_arg[5];                     /* the arguments of the call */
#define FIELDS 17
#define MOST 3                      /* records given up at the end of a set (bounded) */
char *g_field[FIELDS];              /* what std_standardize_ptrs gives */
char g_char[FIELDS];
bool g_some[FIELDS];
bool g_has_result, g_has_error, g_fails_type;
STANDARDIZER g_std;
STDADDR *g_result;
int g_tuples;                       /* rows built */
int g_level;
TOKENS *g_tokens; MTOKEN *g_matches;
int g_nrec;
TOKENS g_token; MTOKEN g_match;     /* the record that is due */
char g_word, g_inclass, g_attached, g_tagged;
unsigned g_due;
FuncCallContext g_ctx;
bool g_ended, g_inited;
MemoryContext CurrentMemoryContext, g_caller;
MemoryContextData *g_multi;
FunctionCallInfoBaseData *g_call;
bool nondet_bool(void); char nondet_char(void); int nondet_int(void); double nondet_double(void); unsigned long nondet_ulong(void); size_t nondet_size(void);
static void *block(size_t n) { void *p = malloc(n); __CPROVER_assume(p != NULL); return p; }
static char *text1(char c) { char *p = block(2); p[0] = c; p[1] = 0; return p; }
static bool is_text(const char *p, char c) { return p != NULL && p[0] == c && (c == 0 || p[1] == 0); }
static bool is_arg(const char *p, int i) { return p[0] == g_arg[i].c && p[1] == 0; }

/* ---- what the file calls: trusted models ---------------------------------------------------- */
struct varlena *pg_detoast_datum(struct varlena *d) { return d; }
void *palloc(Size n) { return block(n); }
void pfree(void *p) { __CPROVER_assert(p != NULL, "pfree is given a block"); free(p); }
char *pstrdup(const char *s) { char *p = block(2); p[0] = s[0]; if (s[0]) p[1] = s[1]; return p; }
text *cstring_to_text(const char *s) { Text1 *t = block(sizeof(Text1)); t->c = s[0]; return (text *) t; }
bool errstart(int level, const char *d) { g_level = level; return true; }
bool errstart_cold(int level, const char *d) { g_level = level; return true; }
int errmsg_internal(const char *f, ...) { return 0; }
void errfinish(const char *f, int n, const char *fn)
{
    if (g_level >= ERROR) {
        __CPROVER_assert(g_has_error || g_fails_type, "an error is raised only when something failed");
        __CPROVER_assume(false);
    }
}
TypeFuncClass get_call_result_type(FunctionCallInfo f, Oid *o, TupleDesc *t) { *t = (TupleDesc) nondet_ulong(); g_fails_type = nondet_bool(); return g_fails_type ? TYPEFUNC_SCALAR : TYPEFUNC_COMPOSITE; }
TupleDesc BlessTupleDesc(TupleDesc t) { return t; }
AttInMetadata *TupleDescGetAttInMetadata(TupleDesc t) { return NULL; }
HeapTupleData g_tuple;
HeapTuple BuildTupleFromCStrings(AttInMetadata *m, char **v)
{
    for (int i = 0; i < FIELDS; ++i) {
        if (g_has_result && g_some[i]) __CPROVER_assert(v[i] != NULL && v[i] != g_field[i] && is_text(v[i], g_char[i]), "every column holds its field");
        else __CPROVER_assert(v[i] == NULL, "a column without a field is null");
    }
    ++g_tuples;
    return &g_tuple;
}
Datum HeapTupleHeaderGetDatum(HeapTupleHeader h) { return (Datum) &g_tuple; }
STANDARDIZER *GetStdUsingFCInfo(FunctionCallInfo f, char *lexicon, char *grammar)
{
    __CPROVER_assert(f == g_call && is_arg(lexicon, 2) && is_arg(grammar, 1), "the object is asked for with the texts of the call");
    return &g_std;
}
STDADDR *std_standardize_ptrs(char *address, void *grammar, void *lexicon, char *locale, char *filter, char **err)
{
    __CPROVER_assert(is_arg(address, 0) && grammar == g_std.gmr_obj && lexicon == g_std.lex_obj && is_arg(locale, 3) && is_arg(filter, 4), "the address is standardized with the arguments of the call");
    *err = g_has_error ? text1('e') : NULL;
    return g_result;
}
char *serialize_lexicon(char *lexicon, char **err)
{
    __CPROVER_assert(is_arg(lexicon, 0), "the text of the call is compiled");
    *err = g_has_error ? text1('e') : NULL;
    return g_has_error ? NULL : g_field[0];
}
static void some_records(void);
TOKENS *std_parse_address(char *address, char *lexicon, char *locale, char *filter, int *n, char **err)
{
    __CPROVER_assert(is_arg(address, 0) && is_arg(lexicon, 1) && is_arg(locale, 2) && is_arg(filter, 3), "the address is parsed with the arguments of the call");
    *err = g_has_error ? text1('e') : NULL;
    if (g_has_error) { g_nrec = 0; return NULL; }       /* and *n is left as it was */
    *n = g_nrec;
    return g_tokens;
}
MTOKEN *std_match_address(char *address, char *grammar, char *lexicon, char *locale, char *filter, int *n, char **err)
{
    __CPROVER_assert(is_arg(address, 0) && is_arg(grammar, 1) && is_arg(lexicon, 2) && is_arg(locale, 3) && is_arg(filter, 4), "the address is matched with the arguments of the call");
    *err = g_has_error ? text1('e') : NULL;
    if (g_has_error) { g_nrec = 0; return NULL; }
    *n = g_nrec;
    return g_matches;
}
FuncCallContext *init_MultiFuncCall(FunctionCallInfo f)
{
    __CPROVER_assert(f->flinfo->fn_extra == NULL, "a set is begun once");
    g_ctx.call_cntr = 0; g_ctx.max_calls = 0; g_ctx.user_fctx = NULL; g_ctx.multi_call_memory_ctx = g_multi;
    f->flinfo->fn_extra = &g_ctx;
    g_inited = true;
    return &g_ctx;
}
FuncCallContext *per_MultiFuncCall(FunctionCallInfo f) { return f->flinfo->fn_extra; }
void end_MultiFuncCall(FunctionCallInfo f, FuncCallContext *c) { __CPROVER_assert(c == &g_ctx, "the set of this call is ended"); f->flinfo->fn_extra = NULL; g_ended = true; }
bool g_matching;
HeapTuple heap_form_tuple(TupleDesc t, Datum *v, bool *nulls)
{
    __CPROVER_assert(t == g_ctx.tuple_desc, "the row has the type of the set");
    if (g_matching) {
        __CPROVER_assert(!nulls[0] && !nulls[1] && !nulls[2], "no column is null");
        __CPROVER_assert(((Text1 *) v[0])->c == g_tagged && v[1] == Float8GetDatum(g_match.score) && v[2] == Float8GetDatum(g_match.nrules), "every column holds its part of the record that is due");
    } else {
        __CPROVER_assert(!nulls[0] && !nulls[1] && !nulls[2] && !nulls[3] && !nulls[4], "no column is null");
        __CPROVER_assert(v[0] == Int32GetDatum(g_token.pat + 1) && v[1] == Int32GetDatum(g_token.seq + 1) && ((Text1 *) v[2])->c == g_word && ((Text1 *) v[3])->c == g_inclass && ((Text1 *) v[4])->c == g_attached, "every column holds its part of the record that is due");
    }
    ++g_tuples;
    return &g_tuple;
}
/* GONE: given up by the function, or never there */
#define GONE(p) ((p) == NULL || __CPROVER_was_freed(p))
#define GONE9 (GONE(g_field[0]) && GONE(g_field[1]) && GONE(g_field[2]) && GONE(g_field[3]) && GONE(g_field[4]) && GONE(g_field[5]) && GONE(g_field[6]) && GONE(g_field[7]) && GONE(g_field[8]))
#define GONE17 (GONE9 && GONE(g_field[9]) && GONE(g_field[10]) && GONE(g_field[11]) && GONE(g_field[12]) && GONE(g_field[13]) && GONE(g_field[14]) && GONE(g_field[15]) && GONE(g_field[16]))

/* ---- contracts ------------------------------------------------------------------------------ */
size_t g_size, g_at;                /* of a text, and any place in it */
/* the copy of a text has all its characters, and a terminator after them */
char *text2char_contract(text *in)
__CPROVER_requires(VARHDRSZ <= g_size && g_size < (1 << 30) && __CPROVER_is_fresh(in, g_size + 16) && VARSIZE(in) == g_size)
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_is_fresh(__CPROVER_return_value, g_size - VARHDRSZ + 1))
__CPROVER_ensures(__CPROVER_return_value[g_size - VARHDRSZ] == 0)
__CPROVER_ensures(g_at < g_size - VARHDRSZ ? __CPROVER_return_value[g_at] == VARDATA(in)[g_at] : true)
;
/* a result is given up whole; every block once (the verifier's free) */
void stdaddr_free_contract(STDADDR *a)
__CPROVER_requires(a == g_result)
__CPROVER_assigns()
__CPROVER_frees(g_result, g_field[0], g_field[1], g_field[2], g_field[3], g_field[4], g_field[5], g_field[6], g_field[7], g_field[8], g_field[9], g_field[10], g_field[11], g_field[12], g_field[13], g_field[14], g_field[15], g_field[16])
__CPROVER_ensures(GONE(g_result) && GONE17)
;
Datum as_compile_contract(FunctionCallInfo f)
__CPROVER_requires(f == g_call)
__CPROVER_assigns(g_level)
__CPROVER_frees(g_field[0])
__CPROVER_ensures(!g_has_error && ((Text1 *) __CPROVER_return_value)->c == g_char[0] && __CPROVER_was_freed(g_field[0]))
;
Datum as_standardize_contract(FunctionCallInfo f)
__CPROVER_requires(f == g_call && g_tuples == 0)
__CPROVER_assigns(g_level, g_tuples, g_fails_type)
__CPROVER_frees(g_result, g_field[0], g_field[1], g_field[2], g_field[3], g_field[4], g_field[5], g_field[6], g_field[7], g_field[8], g_field[9], g_field[10], g_field[11], g_field[12], g_field[13], g_field[14], g_field[15], g_field[16])
__CPROVER_ensures(!g_fails_type && g_tuples == 1 && __CPROVER_return_value == (Datum) &g_tuple && GONE(g_result) && GONE17)
;
#define RSI ((ReturnSetInfo *) g_call->resultinfo)
/* one call of a set: the record that is due, or the end */
Datum set_contract(FunctionCallInfo f)
__CPROVER_requires(f == g_call && g_tuples == 0 && !g_ended && !g_inited && CurrentMemoryContext == g_caller)
__CPROVER_assigns(g_level, g_tuples, g_fails_type, g_ended, g_inited, g_nrec, CurrentMemoryContext, __CPROVER_object_whole(&g_ctx), f->flinfo->fn_extra, f->isnull, RSI->isDone)
__CPROVER_frees(g_tokens, g_matches, g_field[0], g_field[1], g_field[2], g_field[3], g_field[4], g_field[5], g_field[6], g_field[7], g_field[8])
__CPROVER_ensures(CurrentMemoryContext == g_caller && !g_fails_type)
__CPROVER_ensures(g_due < (unsigned) g_nrec ? g_tuples == 1 && !g_ended && RSI->isDone == ExprMultipleResult && g_ctx.call_cntr == g_due + 1 && f->flinfo->fn_extra == &g_ctx && __CPROVER_return_value == (Datum) &g_tuple && !f->isnull
    : g_tuples == 0 && g_ended && RSI->isDone == ExprEndResult)
__CPROVER_ensures(g_due < (unsigned) g_nrec ? g_ctx.max_calls == (unsigned) g_nrec && g_ctx.user_fctx == (g_matching ? (void *) g_matches : (void *) g_tokens) : true)
__CPROVER_ensures(g_due < (unsigned) g_nrec || g_nrec == 0 ? true : GONE(g_tokens) && GONE(g_matches) && GONE9)
;
#define CANARY __CPROVER_assert(false, "canary: the call returns")
/* ---- every state the preconditions allow ----------------------------------------------------- */
static union { FunctionCallInfoBaseData f; char room[SizeForFunctionCallInfo(8)]; } g_room;
FmgrInfo g_fn;
ReturnSetInfo g_rsi;
static void any_call(int n)
{
    g_call = &g_room.f;
    g_call->flinfo = &g_fn;
    g_call->isnull = false;
    g_call->resultinfo = (fmNodePtr) &g_rsi;
    g_fn.fn_extra = NULL;
    for (int i = 0; i < n; ++i) {
        SET_VARSIZE(&g_arg[i], VARHDRSZ + 1);
        g_arg[i].c = nondet_char();
        __CPROVER_assume(g_arg[i].c != 0);
        g_call->args[i].value = (Datum) &g_arg[i];
        g_call->args[i].isnull = false;
    }
    g_has_result = nondet_bool(); g_has_error = nondet_bool(); g_fails_type = false;
    g_tuples = 0; g_ended = g_inited = false; g_result = NULL; g_tokens = NULL; g_matches = NULL;
#define NONE(i) g_field[i] = NULL; g_some[i] = nondet_bool(); g_char[i] = nondet_char();
    NONE(0) NONE(1) NONE(2) NONE(3) NONE(4) NONE(5) NONE(6) NONE(7) NONE(8) NONE(9) NONE(10) NONE(11) NONE(12) NONE(13) NONE(14) NONE(15) NONE(16)
    g_std.lex_obj = block(1); g_std.gmr_obj = block(1);
    g_multi = block(1); g_caller = block(1); CurrentMemoryContext = g_caller;
}
/* the result of standardizing, or none */
static void some_result(void)
{
    if (!g_has_result) return;
    g_result = block(sizeof(STDADDR));
    for (int i = 0; i < FIELDS; ++i) g_field[i] = g_some[i] ? text1(g_char[i]) : NULL;
    g_result->building = g_field[0];
    g_result->house_num = g_field[1];
    g_result->predir = g_field[2];
    g_result->qual = g_field[3];
    g_result->pretype = g_field[4];
    g_result->name = g_field[5];
    g_result->suftype = g_field[6];
    g_result->sufdir = g_field[7];
    g_result->ruralroute = g_field[8];
    g_result->extra = g_field[9];
    g_result->city = g_field[10];
    g_result->prov = g_field[11];
    g_result->country = g_field[12];
    g_result->postcode = g_field[13];
    g_result->box = g_field[14];
    g_result->unit = g_field[15];
    g_result->pattern = g_field[16];
}
void h_text(void) { text *t; g_size = nondet_size(); g_at = nondet_size(); text2char(t); CANARY; }
void h_free(void)
{
    any_call(0);
    some_result();
    stdaddr_free(g_result);
    CANARY;
}
void h_compile(void) { any_call(1); g_char[0] = nondet_char(); g_field[0] = text1(g_char[0]); as_compile_lexicon(g_call); CANARY; }
void h_standardize(void) { any_call(5); some_result(); as_standardize(g_call); CANARY; }
/* n records, of which number k is due */
static void records(unsigned n, unsigned k, bool first)
{
    g_nrec = (int) n; g_due = k;
    if (g_matching) g_matches = block((n + 1) * sizeof(MTOKEN)); else g_tokens = block((n + 1) * sizeof(TOKENS));
    if (first || k >= n) {          /* all of them are looked at */
        for (unsigned i = 0; i < MOST; ++i) if (i < n) {
            if (g_matching) { MTOKEN *m = &g_matches[i]; m->tokens = g_field[3 * i] = text1(nondet_char()); m->score = nondet_double(); m->nrules = nondet_double(); }
            else { TOKENS *t = &g_tokens[i]; t->pat = nondet_int(); t->seq = nondet_int(); t->word = g_field[3 * i] = text1(nondet_char()); t->inclass = g_field[3 * i + 1] = text1(nondet_char()); t->attached = g_field[3 * i + 2] = text1(nondet_char()); }
        }
    } else {                        /* only the one that is due */
        if (g_matching) { MTOKEN *m = &g_matches[k]; m->tokens = text1(nondet_char()); }
        else { TOKENS *t = &g_tokens[k]; t->word = text1(nondet_char()); t->inclass = text1(nondet_char()); t->attached = text1(nondet_char()); }
    }
    if (k < n) {
        if (g_matching) { g_match = g_matches[k]; g_tagged = g_match.tokens[0]; }
        else { g_token = g_tokens[k]; __CPROVER_assume(g_token.pat >= 0 && g_token.pat < (1 << 30) && g_token.seq >= 0 && g_token.seq < (1 << 30)); g_word = g_token.word[0]; g_inclass = g_token.inclass[0]; g_attached = g_token.attached[0]; }
    }
}
static void begun(unsigned n, unsigned k)
{
    g_fn.fn_extra = &g_ctx;
    g_ctx.call_cntr = k; g_ctx.max_calls = n; g_ctx.user_fctx = g_matching ? (void *) g_matches : (void *) g_tokens; g_ctx.tuple_desc = (TupleDesc) nondet_ulong(); g_ctx.multi_call_memory_ctx = g_multi;
}
#ifndef SLOT
#define SLOT 0
#endif
/* SLOT 0: the first call, of a set without records; 1: the first call, of a set of any number of records; 2: a later call with
   a record due, of any number of records; 3 .. 6: the call after the last of 0 .. 3 records */
static void set_state(bool matching, int args)
{
    any_call(args);
    g_matching = matching;
#if SLOT == 0
    records(0, 0, true);
#elif SLOT == 1 || SLOT == 2
    unsigned n = (unsigned) nondet_size(), k = SLOT == 1 ? 0 : (unsigned) nondet_size();
    __CPROVER_assume(n <= 1000000 && k < n);
    records(n, k, false);
#if SLOT == 2
    begun(n, k);
#endif
#else
    records(SLOT - 3, SLOT - 3, false);
    begun(SLOT - 3, SLOT - 3);
#endif
}
void h_parse(void) { set_state(false, 4); as_parse(g_call); CANARY; }
void h_match(void) { set_state(true, 5); as_match(g_call); CANARY; }
