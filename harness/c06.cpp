// C06: the fields of a standardized address
#include "iface.hpp"
using namespace ifc;
typedef std::vector<std::pair<bool, std::string> > Fields;   // 16 fields and the pattern
static std::string show(const Fields &f) { std::string s; for (auto &x : f) s += (x.first ? "\"" + x.second + "\"" : "-") + " "; return s; }
static Fields of(const STDADDR *a) {
    Fields f;
    for (const char *p : {a->building, a->house_num, a->predir, a->qual, a->pretype, a->name, a->suftype, a->sufdir, a->ruralroute, a->extra, a->city, a->prov, a->country, a->postcode, a->box, a->unit, a->pattern})
        f.push_back({p != nullptr, p ? p : ""});
    return f;
}
static int field(int o) {
    static const std::map<int, int> t = {{0, 0}, {1, 1}, {2, 2}, {3, 3}, {4, 4}, {5, 5}, {6, 6}, {7, 7}, {8, 8}, {9, 9}, {-1, 9}, {99, 9}, {10, 10}, {11, 11}, {12, 12}, {13, 13}, {14, 14}, {15, 14}, {16, 15}, {17, 15}};
    auto i = t.find(o);
    return i == t.end() ? -1 : i->second;
}
int main(int argc, char **argv) {
    return vh::run(argc, argv, "random lexicon and grammar texts, addresses with phrases, alternatives, all output classes, ties; non-trivial when there is a match of two tokens or more",
        [](vh::Rng &r) {
        for (int k = 0; k < vh::scale(1200, 12000) && vh::more(); ++k) {
            Case t = gen(r, 4);
            Lexicon lex = lexicon_of(t.lextext);
            auto ps = phrases(lex, t);
            std::vector<ad::OPhrase> ops;
            size_t total = 0;
            for (auto &p : ps) { ops.push_back(classes_of(p)); total += p.size(); }
            if (total > 60) continue;
            std::vector<ad::OMatch> all;
            vh::begin(t.what, false);
            if (!ad::all_matches(t.g, ops, all)) continue;
            double top = -1;
            for (auto &m : all) top = std::max(top, m.avg);
            vh::begin(t.what, !all.empty() && all[0].in.size() > 1);
            std::vector<Fields> want;
            for (auto &m : all) {
                if (!ad::near(m.avg, top)) continue;
                Fields f(17, {false, ""});
                auto &ts = ps[m.phrase];
                for (size_t i = 0; i < ts.size(); ++i) {
                    Token x = ts[i];
                    x.inclass(std::set<InClass::Type>{(InClass::Type) m.in[i]});
                    x.outclass((OutClass::Type) m.out[i]);
                    lex.standardize(x);
                    int d = field(m.out[i]);
                    if (d < 0) continue;
                    f[(size_t) d].second += (f[(size_t) d].first ? " " : "") + x.stdtext();
                    f[(size_t) d].first = true;
                }
                f[16] = {true, m.text};
                want.push_back(f);
            }
            for (int way = 0; way < 2; ++way) {
                char *err = (char *) "unset";
                STDADDR *a;
                if (way == 0) a = std_standardize(c(t.address), c(t.gtext), c(t.lextext), c(t.locale), c(t.filter), &err);
                else {
                    char *e1 = nullptr, *e2 = nullptr;
                    void *g = getGrammarPtr(c(t.gtext), &e1), *l = getLexiconPtr(c(t.lextext), &e2);
                    vh::check(g && l && !e1 && !e2, "objects for the lexicon and the grammar", "two objects", "none");
                    a = std_standardize_ptrs(c(t.address), g, l, c(t.locale), c(t.filter), &err);
                    freeGrammarPtr(g);
                    freeLexiconPtr(l);
                }
                vh::eq("the error text", "nothing", ifc::show(err));
                if (all.empty()) { vh::check(!a, "no match gives no result", "nothing", a ? show(of(a)) : ""); continue; }
                vh::check(a, "a match gives a result", show(want[0]), "nothing");
                Fields got = of(a);
                bool ok = false;
                std::string w;
                for (auto &f : want) { ok = ok || f == got; w += show(f) + " or "; }
                if (!ok) vh::fail("the fields are those of a best match", w, show(got));
                release(a);
            }
        }
    });
}
