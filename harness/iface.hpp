// Cases and oracles for the C interface: a lexicon text, a grammar text and an address that has matches.
#pragma once
#include "addr.hpp"
#include "lexicon.h"
#include "tokenizer.h"
#include "utils.h"
#include "address_standardizer.h"

namespace ifc {
using vh::Rng;
typedef std::vector<std::string> Words;
struct Case {
    std::string lextext, locale, filter, address, what;
    ad::OGrammar g;
    std::string gtext;
};
inline char *c(const std::string &s) { return const_cast<char *>(s.c_str()); }
inline std::string show(const char *p) { return p ? std::string("\"") + p + "\"" : "nothing"; }

inline Lexicon lexicon_of(const std::string &text) { std::istringstream is(text); return Lexicon("query-lex", is); }

// what the tokenizer makes of the address, and the alternatives
inline std::vector<std::vector<Token> > phrases(Lexicon &lex, const Case &k) {
    UErrorCode e;
    Tokenizer z(lex);
    z.filter(InClass::asType(k.filter));
    std::vector<std::vector<Token> > ps;
    ps.push_back(z.getTokens(Utils::upperCaseUTF8(Utils::normalizeUTF8(k.address, e), k.locale)));
    auto alts = z.getAltTokens(ps[0]);
    for (auto &a : alts) ps.push_back(a);
    return ps;
}
inline ad::OPhrase classes_of(const std::vector<Token> &ts) {
    ad::OPhrase p;
    for (auto &t : ts) { ad::Ints v; for (auto x : t.inclass()) v.push_back((int) x); p.push_back(v); }
    return p;
}

inline Case gen(Rng &r, int maxwords = 5) {
    static const Words word = {"OAK", "ELM", "SAINT", "N", "MAIN", "BOX", "UNIT", "LANE", "NEW", "YORK", "LAKE", "RR", "\xC3\x89T\xC3\x89", "GROVE"};
    static const std::vector<int> cls = {1, 2, 3, 6, 7, 8, 10, 11, 12, 14, 16, 17, 19, 22, 24};
    static const Words plain = {"12", "7", "A", "ZED", "3RD", "1/2", "9B", "main", "oak", "itch", "\xC3\xA9t\xC3\xA9"};
    static const Words sep = {" ", " ", " ", " ", ", ", "-", "  ", " & ", "#"};
    Case k;
    Words ws;
    std::string lx = "LEXICON:\tsample\teng\ten_US\n";
    int n = r.range(1, 4);
    for (int i = 0; i < n; ++i) {
        std::string w = r.pick(word);
        if (r.chance(25)) w += " " + r.pick(word);
        ws.push_back(w);
        int defs = r.chance(30) ? 2 : 1;
        for (int d = 0; d < defs; ++d) {
            std::string types = ad::name_of(ad::in_table(), r.pick(cls));
            if (r.chance(20)) types += "," + ad::name_of(ad::in_table(), r.pick(cls));
            lx += "LEXENTRY:\t" + w + "\t" + (r.chance(30) ? w : r.pick(Words{"STD", "ST", "LA NE", "X Y", "Q"}) + std::to_string(d)) + "\t" + types + "\t" + (r.chance(8) ? "ATT_SUF" : r.chance(5) ? "ATT_PRE" : "") + "\n";
        }
    }
    k.lextext = lx;
    int m = r.chance(3) ? 0 : r.range(1, maxwords);
    for (int i = 0; i < m; ++i) {
        std::string w = r.chance(55) ? r.pick(ws) : r.chance(50) ? r.pick(plain) : r.pick(word);
        k.address += w;
        if (i + 1 < m) k.address += r.pick(sep);
    }
    k.locale = r.chance(15) ? "tr_TR" : "en_US";
    k.filter = r.chance(60) ? "PUNCT,DASH" : r.chance(50) ? "" : ad::name_of(ad::in_table(), r.pick(cls));
    // a grammar over the classes the phrases have
    Lexicon lex = lexicon_of(k.lextext);
    auto ps = phrases(lex, k);
    std::set<int> used;
    size_t longest = 1;
    for (auto &p : ps) { if (p.size() <= 9) longest = std::max(longest, p.size()); for (auto &t : p) for (auto x : t.inclass()) used.insert((int) x); }
    static const std::vector<int> outs = {-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 98, 99};
    static const Words scores = {"0.5", "0.25", "0.75", "1.0", "0.1", "0.9", "0.4", "0.33", "2.5", "0.05"};
    ad::OSection top, one, two;
    top.name = "ADDRESS"; top.meta = true;
    one.name = "ONE"; one.meta = false;
    two.name = "TWO"; two.meta = false;
    bool dull = r.chance(8);
    for (int x : used) {
        if (x < 0 || x == 99) continue;
        int u = longest <= 4 && r.chance(30) ? 2 : 1;
        if (dull && r.chance(50)) continue;
        for (int j = 0; j < u; ++j) {
            ad::ORule q; q.in = {x}; q.out = {r.pick(outs)}; q.score = r.chance(50) ? r.pick(scores) : "0." + std::to_string(r.range(1, 9999));
            one.rules.push_back(q);
        }
    }
    if (one.rules.empty()) { ad::ORule q; q.in = {1}; q.out = {5}; q.score = "0.5"; one.rules.push_back(q); }
    std::vector<int> uv(used.begin(), used.end());
    for (int j = r.range(1, 2); j > 0; --j) {
        ad::ORule q;
        for (int i = 0; i < 2; ++i) { int x = uv.empty() ? 1 : r.pick(uv); q.in.push_back(x < 0 || x == 99 ? 1 : x); q.out.push_back(r.pick(outs)); }
        q.score = r.pick(scores);
        two.rules.push_back(q);
    }
    for (size_t i = 1; i <= longest; ++i) top.alts.push_back(Words(i, "ONE"));
    if (longest > 1) { Words a(longest - 1, "ONE"); a[r.below(a.size())] = "TWO"; top.alts.push_back(a); }
    k.g.secs = {top, one, two};
    k.gtext = k.g.text();
    k.what = "address '" + k.address + "' locale " + k.locale + " filter '" + k.filter + "'\nlexicon:\n" + k.lextext + "grammar:\n" + k.gtext;
    return k;
}
inline void release(STDADDR *a) {
    if (!a) return;
    char **f = (char **) a;
    for (size_t i = 0; i < sizeof(STDADDR) / sizeof(char *); ++i) free(f[i]);
    free(a);
}
}
