// C24: every call of the interface succeeds, or returns nothing and an error text
#include "iface.hpp"
#include <new>
using namespace ifc;
static long fuse = -1;          // the allocation after this many fails (-1: none)
static long news = 0;
static bool blown = false;
static void *take(size_t n) {
    ++news;
    if (fuse >= 0 && fuse-- == 0) { blown = true; throw std::bad_alloc(); }
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

static const char *ESCAPED = "an exception left the function";
struct Out { bool some; std::string err; bool has_err, escaped; };
typedef std::function<bool(char **)> Call;       // true: something was returned
static Out call(const Call &f, long limit) {
    Out o; char *err = nullptr;
    o.escaped = false; o.some = false;
    blown = false; fuse = limit;
    try { o.some = f(&err); } catch (...) { o.escaped = true; }
    fuse = -1;
    o.has_err = err != nullptr;
    o.err = err ? err : "";
    free(err);
    return o;
}
static void report(const std::string &what, bool can_load, bool may_be_nothing, const Call &f, long limit) {
    Out o = call(f, limit);
    vh::check(!o.escaped, what + " (exceptions)", "no exception", ESCAPED);
    bool failed = !can_load || blown;
    std::string got = (o.some ? "a result" : "nothing") + std::string(", ") + (o.has_err ? "an error text" : "no error text");
    if (blown && o.some && !o.has_err) return;     // gone by without harm (an allocation the library does without)
    if (failed) vh::eq(what + (blown ? " when memory runs out" : " of a text that cannot be loaded"), "nothing, an error text", got);
    else if (may_be_nothing && !o.some) vh::eq(what, "nothing, no error text", got);
    else vh::eq(what, "a result, no error text", got);
}
static std::vector<std::string> lines(const std::string &s) { std::vector<std::string> v; std::istringstream is(s); std::string l; while (std::getline(is, l)) v.push_back(l); return v; }
static std::string join(const std::vector<std::string> &v) { std::string s; for (auto &l : v) s += l + "\n"; return s; }
// a grammar text that has to be refused
static std::string bad_grammar(vh::Rng &r, const std::string &good, std::string &how) {
    auto v = lines(good);
    std::vector<size_t> heads, refs, rules;
    for (size_t i = 0; i < v.size(); ++i) {
        if (v[i].empty() || v[i][0] == '#') continue;
        if (v[i][0] == '[') heads.push_back(i); else if (v[i][0] == '@') refs.push_back(i); else rules.push_back(i);
    }
    switch (r.below(7)) {
    case 0: how = "empty"; return r.chance(50) ? "" : "\n\n# nothing\n";
    case 1: how = "a rule before the first section"; v.insert(v.begin(), "1 -> 5 -> 0.5"); break;
    case 2: how = "a section twice"; v.push_back(v[r.pick(heads)]); v.push_back("1 -> 5 -> 0.5"); break;
    case 3: how = "a reference to no section"; v[r.pick(refs)] += " @NOWHERE"; break;
    case 4: how = "an invalid rule"; v[r.pick(rules)] = r.chance(50) ? "1 2 -> 5 -> 0.5" : "1 -> 5 -> -0.5"; break;
    case 5: how = "no start section"; v[heads[0]] = "[OTHER]"; break;
    default: how = "a rule among references"; v.insert(v.begin() + refs[0] + 1, "1 -> 5 -> 0.5"); break;
    }
    return join(v);
}
static std::string bad_lexicon(vh::Rng &r, const std::string &good, std::string &how) {
    auto v = lines(good);
    switch (r.below(6)) {
    case 0: how = "empty"; return "";
    case 1: how = "no header"; v.erase(v.begin()); break;
    case 2: how = "a line that is no entry"; v.insert(v.begin() + r.range(1, (int) v.size()), "OAK\tOAK"); break;
    case 3: how = "an entry before the header"; std::swap(v[0], v[1]); break;
    case 4: how = "a number"; return std::to_string(r.range(0, 99)) + " 5";
    default: {
        how = "an archive of an older version";
        char *e = nullptr, *s = serialize_lexicon(c(good), &e);
        if (!s) return "";
        std::string t(s), was = " 0 2 ", now = " 0 1 ";
        free(s);
        size_t p = t.find(was);
        if (p == std::string::npos || p > 60) { was = " 1 2 "; now = " 1 1 "; p = t.find(was); }
        if (p == std::string::npos || p > 60) return "";
        return t.substr(0, p) + now + t.substr(p + was.size());
    }
    }
    return join(v);
}
int main(int argc, char **argv) {
    return vh::run(argc, argv, "random lexicon, grammar and address texts, some that cannot be loaded, some with memory running out at some allocation; non-trivial when something fails",
        [](vh::Rng &r) {
        for (int k = 0; k < vh::scale(900, 9000) && vh::more(); ++k) {
            Case t = gen(r, 4);
            std::string gt = t.gtext, lt = t.lextext, how;
            bool gok = true, lok = true;
            std::string note;
            if (r.chance(30)) { gt = bad_grammar(r, gt, how); gok = false; note += "grammar: " + how + "\n"; }
            if (r.chance(30)) { lt = bad_lexicon(r, lt, how); lok = false; note += "lexicon: " + how + "\n"; }
            else if (r.chance(20)) { char *e = nullptr, *s = serialize_lexicon(c(lt), &e); if (s) { lt = s; note += "lexicon: as an archive\n"; } free(s); }
            bool starve = r.chance(50);
            vh::begin("address '" + t.address + "' locale " + t.locale + " filter '" + t.filter + "'\n" + note + "lexicon:\n" + lt + "grammar:\n" + gt + (starve ? "memory runs out" : ""), starve || !gok || !lok);
            int n = 0;
            void *gp = nullptr, *lp = nullptr;
            char *e0 = nullptr;
            if (gok) gp = getGrammarPtr(c(gt), &e0);
            if (lok) lp = getLexiconPtr(c(lt), &e0);
            struct F { std::string name; bool ok, maybe; Call f; };
            std::vector<F> fs = {
                {"std_standardize", gok && lok, true, [&](char **e) { STDADDR *a = std_standardize(c(t.address), c(gt), c(lt), c(t.locale), c(t.filter), e); return a != nullptr; }},
                {"std_parse_address", lok, false, [&](char **e) { return std_parse_address(c(t.address), c(lt), c(t.locale), c(t.filter), &n, e) != nullptr; }},
                {"std_match_address", gok && lok, false, [&](char **e) { return std_match_address(c(t.address), c(gt), c(lt), c(t.locale), c(t.filter), &n, e) != nullptr; }},
                {"getGrammarPtr", gok, false, [&](char **e) { return getGrammarPtr(c(gt), e) != nullptr; }},
                {"getLexiconPtr", lok, false, [&](char **e) { return getLexiconPtr(c(lt), e) != nullptr; }},
            };
            if (note.find("archive") == std::string::npos)
                fs.push_back({"serialize_lexicon", lok, false, [&](char **e) { char *s = serialize_lexicon(c(lt), e); return s != nullptr; }});
            if (gp && lp) fs.push_back({"std_standardize_ptrs", true, true, [&](char **e) { return std_standardize_ptrs(c(t.address), gp, lp, c(t.locale), c(t.filter), e) != nullptr; }});
            if (lp) fs.push_back({"std_parse_address_ptrs", true, false, [&](char **e) { return std_parse_address_ptrs(c(t.address), lp, c(t.locale), c(t.filter), &n, e) != nullptr; }});
            for (auto &f : fs) {
                news = 0;
                report(f.name, f.ok, f.maybe, f.f, -1);
                long all = news;
                if (!starve || all == 0) continue;
                // everything was set up once, so what fails now is the call itself
                for (int j = 0; j < 3; ++j) report(f.name, f.ok, f.maybe, f.f, j == 0 ? (long) r.below(std::min(all, 40L)) : (long) r.below(all));
            }
            // the small ones give nothing when they fail
            for (int way = 0; way < 3; ++way) {
                if ((way == 1 && !gp) || (way == 2 && !lp)) continue;
                for (long f : {-1L, 0L}) {
                    bool some = false, esc = false;
                    blown = false; fuse = starve ? f : -1;
                    try { char *s = way == 0 ? getMd5(c(lt)) : way == 1 ? getGrammarMd5(gp) : getLexiconMd5(lp); some = s != nullptr; free(s); } catch (...) { esc = true; }
                    fuse = -1;
                    vh::check(!esc, "a digest (exceptions)", "no exception", ESCAPED);
                    vh::check(some || blown, "a digest", "a result", "nothing");
                }
            }
            freeGrammarPtr(gp); freeLexiconPtr(lp);
            freeGrammarPtr(nullptr); freeLexiconPtr(nullptr);
        }
    });
}
