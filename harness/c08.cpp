// C08: a lexicon maps words to lists of distinct definitions, its expressions follow its content
#include "vh.hpp"
#include "lexicon.h"
#include <boost/regex.hpp>
#include <boost/regex/icu.hpp>
struct Def {
    std::string word, stdword;
    std::set<int> type, att;
    bool operator==(const Def &o) const { return word == o.word && stdword == o.stdword && type == o.type && att == o.att; }
};
static std::string show(const Def &d) { return d.word + "/" + d.stdword + "/" + vh::join(d.type, ",") + "/" + vh::join(d.att, ","); }
static std::string show(const std::vector<Def> &v) { std::string s; for (auto &d : v) s += "[" + show(d) + "]"; return s; }
static LexEntry entry(const Def &d) {
    LexEntry e;
    e.word(d.word);
    e.stdword(d.stdword);
    std::set<InClass::Type> t;
    std::set<InClass::AttachType> a;
    for (int x : d.type) t.insert((InClass::Type) x);
    for (int x : d.att) a.insert((InClass::AttachType) x);
    e.type(t);
    e.attached(a);
    return e;
}
static Def of(const LexEntry &e) {
    Def d;
    d.word = e.word();
    d.stdword = e.stdword();
    for (auto x : e.type()) d.type.insert((int) x);
    for (auto x : e.attached()) d.att.insert((int) x);
    return d;
}
static bool wordy(unsigned char c) { return isalnum(c) || c == '_' || c >= 128; }
static std::vector<std::string> chars(const std::string &s) {
    std::vector<std::string> v;
    for (char c : s) { if (((unsigned char) c & 0xC0) != 0x80) v.push_back(""); v.back() += c; }
    return v;
}
static bool edge(const std::string &t, size_t k) {
    bool a = k > 0 && wordy((unsigned char) t[k - 1]), b = k < t.size() && wordy((unsigned char) t[k]);
    return a != b;
}
typedef std::map<std::string, std::vector<Def>> Model;
static std::set<std::string> words(const Model &m, int att) {
    std::set<std::string> s;
    for (auto &p : m) {
        bool any = att < 0;
        for (auto &d : p.second) any = any || d.att.count(att);
        if (any && !p.first.empty()) s.insert(p.first);
    }
    return s;
}
static void expressions(Lexicon &x, const Model &m, const std::vector<std::string> &texts, int which) {
    if (which & 1) {
        auto ws = words(m, -1);
        std::string s = x.regex();
        auto re = boost::make_u32regex(s);
        for (auto &t : texts) vh::same("the word expression " + s + " on the text '" + t + "'", ws.count(t) > 0 || t.empty(), boost::u32regex_match(t, re));
    }
    if (which & 2) {
        auto ws = words(m, (int) InClass::ATT_PRE);
        if (ws.empty()) ws.insert("");
        std::string s = x.regexPrefixAtt();
        auto re = boost::make_u32regex(s);
        for (auto &t : texts) {
            bool want = false;
            for (auto &w : ws) want = want || (t.compare(0, w.size(), w) == 0 && !edge(t, w.size()));
            vh::same("the attached-prefix expression " + s + " on the text '" + t + "'", want, boost::u32regex_search(t, re));
        }
    }
    if (which & 4) {
        auto ws = words(m, (int) InClass::ATT_SUF);
        if (ws.empty()) ws.insert("");
        std::string s = x.regexSuffixAtt();
        auto re = boost::make_u32regex(s);
        for (auto &t : texts) vh::same("the attached-suffix expression " + s + " on the text '" + t + "'", ws.count(t) > 0, boost::u32regex_match(t, re));
    }
}
static void lookups(Lexicon &x, const Model &m, const std::vector<std::string> &ask) {
    for (auto &w : ask) {
        auto got = x.find(w);
        std::vector<Def> g, want;
        for (auto &e : got) g.push_back(of(e));
        auto it = m.find(w);
        if (it != m.end()) want = it->second;
        vh::eq("the definitions of '" + w + "'", show(want), show(g));
    }
}
int main(int c, char **v) {
    return vh::run(c, v, "random histories of 1 to 30 insertions and removals over 2 to 6 words (prefixes of each other, special and wide characters, the empty word) with 1 to 3 variants of a definition, the three expressions asked for at random moments; non-trivial when a word has two definitions or a removal takes effect",
        [](vh::Rng &r) {
        static const std::vector<std::string> pool = {"A", "AB", "ABC", "ST", "STREET", "ST.", "B", "AVE", "\xC3\x89T", "\xC3\x89", "STRA\xC3\x9F" "E", "N", "N.E", "NO", "1", "A-B", "(X)", "", "C$", "D^", "O'", "TE", "BLVD "};
        for (int k = 0; k < vh::scale(5000, 60000) && vh::more(); ++k) {
            std::vector<std::string> ws;
            int nw = r.range(2, 6);
            for (int i = 0; i < nw; ++i) ws.push_back(r.pick(pool));
            std::vector<Def> defs;
            for (auto &w : ws) {
                int n = r.range(1, 3);
                for (int i = 0; i < n; ++i) {
                    Def d{w, r.chance(50) ? w : r.pick(pool), {}, {}};
                    int nt = r.range(1, 2);
                    for (int q = 0; q < nt; ++q) d.type.insert(r.range(1, 20));
                    int na = (int) r.below(3);
                    for (int q = 0; q < na; ++q) d.att.insert(r.range(0, 3));
                    defs.push_back(d);
                    // the same but for one field
                    if (r.chance(40)) {
                        Def e = d;
                        int f = (int) r.below(3);
                        if (f == 0) e.stdword += "X"; else if (f == 1) e.type.insert(21); else if (e.att.count(2)) e.att.erase(2); else e.att.insert(2);
                        defs.push_back(e);
                    }
                }
            }
            std::vector<std::string> texts(ws);
            texts.push_back("");
            for (auto &w : ws) { texts.push_back(w + "X"); texts.push_back(w + r.pick(pool)); auto cs = chars(w); if (!cs.empty()) { cs.pop_back(); texts.push_back(vh::join(cs, "")); } }
            struct Step { int op, def, ask; };
            std::vector<Step> steps;
            int n = r.range(1, 30), bias = r.range(40, 80);
            std::string in;
            for (int i = 0; i < n; ++i) {
                Step s{r.chance(bias) ? 0 : 1, (int) r.below(defs.size()), r.chance(50) ? (int) r.below(8) : 0};
                steps.push_back(s);
                in += (s.op ? "remove " : "insert ") + show(defs[(size_t) s.def]) + (s.ask ? " ask " + std::to_string(s.ask) : "") + "; ";
            }
            Model m;
            bool interesting = false;
            for (int pass = 0; pass < 2; ++pass) {
                m.clear();
                Lexicon x(std::string("lex"));
                if (pass) vh::begin(in, interesting);
                int at = 0;
                for (auto &s : steps) {
                    const Def &d = defs[(size_t) s.def];
                    auto &l = m[d.word];
                    size_t j = 0;
                    while (j < l.size() && !(l[j] == d)) ++j;
                    if (s.op == 0) { if (j == l.size()) l.push_back(d); interesting = interesting || l.size() > 1; }
                    else if (j < l.size()) { l.erase(l.begin() + (long) j); interesting = true; }
                    if (l.empty()) m.erase(d.word);
                    if (!pass) continue;
                    LexEntry e = entry(d);
                    if (s.op == 0) x.insert(e); else x.remove(e);
                    if (!(e == entry(d))) vh::fail("the definition given is left alone", show(d), show(of(e)));
                    lookups(x, m, ++at % 4 == 0 || at == n ? ws : std::vector<std::string>{d.word});
                    if (s.ask) expressions(x, m, texts, s.ask);
                }
                if (pass) { expressions(x, m, texts, 7); expressions(x, m, {ws[0]}, 7); lookups(x, m, texts); }
            }
        }
    });
}
