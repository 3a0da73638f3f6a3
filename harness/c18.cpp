// C18: the database functions, called by a stand-in for the server
#include "vh.hpp"
#include <malloc.h>
#include "md5.h"
#include "address_standardizer.h"
#include "pg.h"
// what the database functions are given, and what they give up (the C files are compiled with free named vh_free)
static std::set<void *> given, gone;
static std::string trouble;
static char *give(const std::string &s) { char *p = strdup(s.c_str()); given.insert(p); return p; }
extern "C" void vh_free(void *p) {
    if (!p) return;
    if (gone.count(p)) { trouble = "a block is given up twice"; return; }
    if (!given.count(p)) { free(p); return; }
    given.erase(p); gone.insert(p);
    memset(p, 0x7D, malloc_usable_size(p));
}
// what they are to be called with and what they find
static std::vector<std::string> args, seen;
static std::vector<std::string> fields;
static std::vector<char> some;
static bool result, fails;
static TOKENS *tokens; static MTOKEN *matches; static int nrec;
struct Obj { bool grammar; };
static const char *const NAMES[17] = {"building", "house_num", "predir", "qual", "pretype", "name", "suftype", "sufdir", "ruralroute", "extra", "city", "prov", "country", "postcode", "box", "unit", "pattern"};
extern "C" {
void *getLexiconPtr(char *t, char **e) { *e = fails ? strdup("it does not load") : NULL; seen.push_back(t); return fails ? NULL : new Obj{false}; }
void *getGrammarPtr(char *t, char **e) { *e = NULL; seen.push_back(t); return new Obj{true}; }
void freeLexiconPtr(void *p) { delete (Obj *) p; }
void freeGrammarPtr(void *p) { delete (Obj *) p; }
char *getMd5(char *t) { return strdup(md5(t).c_str()); }
STDADDR *std_standardize_ptrs(char *a, void *g, void *l, char *locale, char *filter, char **e) {
    if (!g || !l || !((Obj *) g)->grammar || ((Obj *) l)->grammar) trouble = "the objects are handed over in the wrong places";
    seen.push_back(a); seen.push_back(locale); seen.push_back(filter);
    *e = NULL;
    if (!result) return NULL;
    STDADDR *r = (STDADDR *) calloc(1, sizeof(STDADDR));
    given.insert(r);
    char **to[17] = {&r->building, &r->house_num, &r->predir, &r->qual, &r->pretype, &r->name, &r->suftype, &r->sufdir, &r->ruralroute, &r->extra, &r->city, &r->prov, &r->country, &r->postcode, &r->box, &r->unit, &r->pattern};
    for (int i = 0; i < 17; ++i) *to[i] = some[i] ? give(fields[i]) : NULL;
    return r;
}
STDADDR *std_standardize(char *a, char *g, char *l, char *locale, char *filter, char **e) { Obj og{true}, ol{false}; seen.push_back(l); seen.push_back(g); return std_standardize_ptrs(a, &og, &ol, locale, filter, e); }
static TOKENS *parse(int *n, char **e) { *e = NULL; *n = nrec; return tokens; }
TOKENS *std_parse_address(char *a, char *l, char *locale, char *filter, int *n, char **e) { for (char *x : {a, l, locale, filter}) seen.push_back(x); return parse(n, e); }
TOKENS *std_parse_address_ptrs(char *a, void *l, char *locale, char *filter, int *n, char **e) { for (char *x : {a, locale, filter}) seen.push_back(x); return parse(n, e); }
MTOKEN *std_match_address(char *a, char *g, char *l, char *locale, char *filter, int *n, char **e) { for (char *x : {a, g, l, locale, filter}) seen.push_back(x); *e = NULL; *n = nrec; return matches; }
char *serialize_lexicon(char *l, char **e) { seen.push_back(l); *e = fails ? strdup("it does not load") : NULL; return fails ? NULL : give(fields[0]); }
void *as_compile_lexicon(void *), *as_standardize(void *), *as_parse(void *), *as_match(void *);
}
static std::string text(vh::Rng &r, int most) {
    std::string s;
    int n = r.chance(15) ? 0 : r.chance(60) ? r.range(1, 8) : r.range(1, most);
    for (int i = 0; i < n; ++i) s += (char) (r.chance(85) ? 'a' + r.below(26) : 1 + r.below(255));
    return s;
}
static std::string list(const std::vector<std::string> &v) { std::string o; for (auto &x : v) o += "[" + x + "]"; return o; }
static int call(void *q, void *f, const char *const *a, int n) { seen.clear(); return pgh_function(q, f, a, n); }
int main(int argc, char **argv) {
    return vh::run(argc, argv, "random calls of the four database functions with random results; non-trivial when there is a result with a field or a record, or loading fails",
        [](vh::Rng &r) {
        for (int k = 0; k < vh::scale(6000, 60000) && vh::more(); ++k) {
            int fn = r.range(0, 3), nargs[4] = {1, 5, 4, 5};
            std::vector<std::string> a;
            std::vector<const char *> ap;
            for (int i = 0; i < nargs[fn]; ++i) a.push_back(text(r, 250));
            for (auto &x : a) ap.push_back(x.c_str());
            fields.clear(); some.clear();
            for (int i = 0; i < 17; ++i) { fields.push_back(text(r, 290)); some.push_back(r.chance(60)); }
            result = r.chance(85); fails = r.chance(15);
            nrec = r.chance(2) ? r.range(250, 300) : r.below(400) == 0 ? r.range(65530, 66000) : r.range(0, 7);
            tokens = NULL; matches = NULL; given.clear(); gone.clear(); trouble.clear();
            std::vector<std::vector<std::string> > want;
            std::vector<std::pair<double, double> > num;
            if (fn == 2) {
                tokens = (TOKENS *) calloc(nrec + 1, sizeof(TOKENS)); given.insert(tokens);
                for (int i = 0; i < nrec; ++i) { std::string w = text(r, 200), c = text(r, 40), t = text(r, 40); int p = r.range(0, 300), s = r.range(0, 300); tokens[i] = TOKENS{p, s, give(w), give(c), give(t)}; want.push_back({w, c, t}); num.push_back({p + 1, s + 1}); }
            } else if (fn == 3) {
                matches = (MTOKEN *) calloc(nrec + 1, sizeof(MTOKEN)); given.insert(matches);
                for (int i = 0; i < nrec; ++i) { std::string w = text(r, 250); double s = r.range(-100, 100) / 7.0, n = r.range(0, 40); matches[i] = MTOKEN{give(w), s, n}; want.push_back({w}); num.push_back({s, n}); }
            }
            const char *name[4] = {"as_compile_lexicon", "as_standardize", "as_parse", "as_match"};
            std::string what = std::string(name[fn]) + list(a) + (fails && fn < 2 ? " which does not load" : "");
            if (fn == 1) { what += result ? " with" : " with no result"; if (result) for (int i = 0; i < 17; ++i) if (some[i]) what += " " + std::string(NAMES[i]) + "=" + fields[i]; }
            if (fn == 0 && !fails) what += " giving " + fields[0];
            if (fn > 1) { what += " with " + std::to_string(nrec) + " records"; for (size_t i = 0; i < want.size() && i < 8; ++i) what += " " + list(want[i]); }
            vh::begin(what, fn > 1 ? nrec > 0 : true);
            pgh_start();
            void *q = pgh_portal();
            if (fn == 0) {
                int rc = call(q, (void *) as_compile_lexicon, ap.data(), 1);
                vh::eq("the text that is compiled", list(a), list(seen));
                vh::eq("the answer", fails ? "an error" : "a text", rc ? "a text" : "an error");
                if (rc) { char b[400]; pgh_text(b, sizeof b); vh::eq("the compiled text", fields[0], b); }
            } else if (fn == 1) {
                int rc = call(q, (void *) as_standardize, ap.data(), 5);
                vh::eq("the answer", fails ? "an error" : "a row", rc ? "a row" : "an error");
                if (rc) {
                    std::vector<std::string> s = seen, w = {a[2], a[1], a[0], a[3], a[4]};
                    vh::eq("what the library is called with (lexicon, grammar, address, locale, filter)", list(w), list(s));
                    Row *row = pgh_row();
                    for (int i = 0; i < 17; ++i) vh::eq(std::string("column ") + NAMES[i], result && some[i] ? "[" + fields[i] + "]" : "null", row->null[i] ? "null" : "[" + std::string(row->text[i]) + "]");
                }
            } else {
                pgh_columns = fn == 2 ? 5 : 3; pgh_kinds = fn == 2 ? "iittt" : "tff";
                for (int i = 0; i <= nrec; ++i) {
                    std::string at = "call " + std::to_string(i + 1);
                    int rc = call(q, fn == 2 ? (void *) as_parse : (void *) as_match, ap.data(), (int) ap.size());
                    if (i == 0) vh::eq("what the library is called with", list(a), list(seen)); else vh::eq(at + ", library calls", "", list(seen));
                    vh::eq(at, i < nrec ? "a row" : "the end", rc == 0 ? "an error" : rc == 1 ? "a row" : "the end");
                    if (i == nrec || rc != 1) break;
                    Row *row = pgh_row();
                    int t = fn == 2 ? 2 : 0, n = fn == 2 ? 0 : 1;
                    for (size_t j = 0; j < want[i].size(); ++j) vh::eq(at + ", column " + std::to_string(t + j + 1), "[" + want[i][j] + "]", row->null[t + j] ? "null" : "[" + std::string(row->text[t + j]) + "]");
                    vh::eq(at + ", column " + std::to_string(n + 1), std::to_string(num[i].first), row->null[n] ? "null" : std::to_string(row->real[n]));
                    vh::eq(at + ", column " + std::to_string(n + 2), std::to_string(num[i].second), row->null[n + 1] ? "null" : std::to_string(row->real[n + 1]));
                }
            }
            // an array of no records is not given up (no rows: known)
            if (fn > 1 && nrec == 0) { given.erase(tokens); given.erase(matches); }
            vh::eq("blocks not given up", "0", std::to_string(fn == 0 && fails ? 0 : given.size()));
            vh::eq("", "", trouble);
            pgh_end(q);
            pgh_stop();
            vh::eq("", "", pgh_trouble());
            for (void *p : given) free(p);
            for (void *p : gone) free(p);
        }
    });
}
