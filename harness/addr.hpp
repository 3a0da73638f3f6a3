// Independent tables, generators and oracles shared by the harnesses of the parsing core.
#pragma once
#include "vh.hpp"
#include <algorithm>
#include "search.h"
#include "grammar.h"
#include "token.h"
#include "rule.h"

namespace ad {
using vh::Rng;
typedef std::vector<int> Ints;

// class names, from the documentation
inline const std::map<std::string, int> &in_table() {
    static const std::map<std::string, int> t = {
        {"STOP", -1}, {"NUMBER", 0}, {"WORD", 1}, {"TYPE", 2}, {"QUALIF", 3}, {"ROAD", 6}, {"STOPWORD", 7}, {"RR", 8}, {"DASH", 9}, {"CITY", 10},
        {"PROV", 11}, {"NATION", 12}, {"AMPERS", 13}, {"BOXH", 14}, {"ORD", 15}, {"UNITH", 16}, {"UNITT", 17}, {"SINGLE", 18}, {"BUILDH", 19},
        {"MILE", 20}, {"DOUBLE", 21}, {"DIRECT", 22}, {"MIXED", 23}, {"BUILDT", 24}, {"FRACT", 25}, {"PCT", 26}, {"PCH", 27}, {"QUINT", 28},
        {"QUAD", 29}, {"PUNCT", 30}, {"SPACE", 31}, {"PLACEN", 32}, {"EMDASH", 33}, {"SLASH", 34}, {"ATSIGN", 35}, {"COMMA", 36}, {"BADTOKEN", 99}};
    return t;
}
inline const std::map<std::string, int> &out_table() {
    static const std::map<std::string, int> t = {
        {"STOP", -1}, {"BLDNG", 0}, {"HOUSE", 1}, {"PREDIR", 2}, {"QUALIF", 3}, {"PRETYP", 4}, {"STREET", 5}, {"SUFTYP", 6}, {"SUFDIR", 7}, {"RR", 8},
        {"EXTRA", 9}, {"CITY", 10}, {"PROV", 11}, {"NATION", 12}, {"POSTAL", 13}, {"BOXH", 14}, {"BOXT", 15}, {"UNITH", 16}, {"UNITT", 17}, {"IGNORE", 98},
        {"BADTOKEN", 99}};
    return t;
}
inline std::string name_of(const std::map<std::string, int> &t, int v) {
    for (auto &e : t) if (e.second == v) return e.first;
    return "?" + std::to_string(v);
}
inline std::vector<int> values(const std::map<std::string, int> &t) {
    std::vector<int> v;
    for (auto &e : t) v.push_back(e.second);
    std::sort(v.begin(), v.end());
    return v;
}

// ---- grammars as plain data
struct ORule { Ints in, out; std::string score; };
struct OSection { std::string name; bool meta; std::vector<std::vector<std::string> > alts; std::vector<ORule> rules; };
struct OGrammar {
    std::vector<OSection> secs;
    const OSection *find(const std::string &n) const { for (auto &s : secs) if (s.name == n) return &s; return nullptr; }
    std::string text() const {
        std::string o;
        for (auto &s : secs) {
            o += "[" + s.name + "]\n";
            if (s.meta) for (auto &a : s.alts) { for (auto &r : a) o += "@" + r + " "; o += "\n"; }
            else for (auto &r : s.rules) {
                for (int c : r.in) o += name_of(in_table(), c) + " ";
                o += "->";
                for (int c : r.out) o += " " + name_of(out_table(), c);
                o += " -> " + r.score + "\n";
            }
            o += "\n";
        }
        return o;
    }
};

struct ODeriv { std::vector<const ORule *> rules; };

// every leftmost derivation from a section that consumes the whole pattern and
// performs at most `limit`+1 section expansions (a section is entered at a depth of
// at most `limit` earlier meta expansions)
struct Deriver {
    const OGrammar &g;
    const Ints &pat;
    size_t limit;
    std::vector<ODeriv> found;
    long steps = 0;
    void go(std::vector<std::string> &stack, size_t pos, size_t level, std::vector<const ORule *> &rules) {
        if (++steps > 400000) return;
        if (stack.empty()) { if (pos == pat.size()) found.push_back({rules}); return; }
        if (level > limit) return;
        std::string n = stack.back();
        stack.pop_back();
        const OSection *s = g.find(n);
        if (s->meta) {
            for (auto &a : s->alts) {
                size_t keep = stack.size();
                for (size_t i = a.size(); i-- > 0; ) stack.push_back(a[i]);
                go(stack, pos, level + 1, rules);
                stack.resize(keep);
            }
        } else {
            for (auto &r : s->rules) {
                if (r.in.size() > pat.size() - pos || !std::equal(r.in.begin(), r.in.end(), pat.begin() + (long) pos)) continue;
                rules.push_back(&r);
                std::vector<std::string> copy(stack);
                go(copy, pos + r.in.size(), level, rules);
                rules.pop_back();
            }
        }
        stack.push_back(n);
    }
};

inline std::string rule_str(const Ints &in, const Ints &out, float sc) {
    std::string o;
    for (int c : in) o += std::to_string(c) + ",";
    o += ">";
    for (int c : out) o += std::to_string(c) + ",";
    return o + "@" + vh::str(sc);
}
inline std::string deriv_str(const ODeriv &d) {
    std::string o;
    for (auto r : d.rules) o += rule_str(r->in, r->out, strtof(r->score.c_str(), nullptr)) + " | ";
    return o;
}
inline std::string path_str(const SearchPath &p) {
    std::string o;
    for (auto &r : p.rules) {
        Ints a, b;
        for (auto c : r.in()) a.push_back((int) c);
        for (auto c : r.out()) b.push_back((int) c);
        o += rule_str(a, b, r.score()) + " | ";
    }
    return o;
}

typedef std::vector<std::vector<int> > OPhrase;   // the classes of each token, ascending
inline std::string phrase_str(const OPhrase &p) {
    std::string o;
    for (auto &t : p) { o += "{"; for (int c : t) o += name_of(in_table(), c) + " "; o += "} "; }
    return o;
}
inline std::vector<Token> tokens_of(const OPhrase &p) {
    std::vector<Token> v;
    int n = 0;
    for (auto &t : p) {
        Token k;
        k.text("w" + std::to_string(n));
        k.stdtext("W" + std::to_string(n++));
        std::set<InClass::Type> s;
        for (int c : t) s.insert((InClass::Type) c);
        k.inclass(s);
        v.push_back(k);
    }
    return v;
}
inline std::vector<Ints> choices(const OPhrase &p) {
    std::vector<Ints> r{Ints()};
    for (auto &t : p) {
        std::vector<Ints> n;
        for (auto &x : r) for (int c : t) { Ints y(x); y.push_back(c); n.push_back(y); }
        r = n;
    }
    return r;
}

// all derivations of all class choices of a phrase
inline bool derivations(const OGrammar &g, const std::string &root, const OPhrase &p, std::vector<std::pair<Ints, ODeriv> > &out) {
    out.clear();
    for (auto &c : choices(p)) {
        Deriver d{g, c, p.size() + 2, {}, 0};
        std::vector<std::string> st{root};
        std::vector<const ORule *> rs;
        d.go(st, 0, 0, rs);
        if (d.steps > 400000) return false;
        for (auto &x : d.found) out.push_back({c, x});
    }
    return true;
}

// random grammar over a small alphabet; shapes: chains, right recursion, nested metas, shared prefixes
inline OGrammar gen_grammar(Rng &r, bool ties = true) {
    static const std::vector<int> alpha = {0, 1, 2, 6, 22, 18};
    static const std::vector<int> outs = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 98};
    static const std::vector<std::string> scores = {"0.5", "0.25", "0.75", "1.0", "0.1", "0.9", "0.4", "0.33", "2.5"};
    OGrammar g;
    int nm = r.range(1, 4), nr = r.range(1, 4);
    int na = r.range(1, 3);
    std::vector<std::string> mn, rn;
    for (int i = 0; i < nm; ++i) mn.push_back(i == 0 ? "ADDRESS" : "M" + std::to_string(i));
    for (int i = 0; i < nr; ++i) rn.push_back("R" + std::to_string(i));
    bool recursive = r.chance(40);
    for (int i = 0; i < nm; ++i) {
        OSection s;
        s.name = mn[(size_t) i];
        s.meta = true;
        int alts = r.range(1, 3);
        for (int a = 0; a < alts; ++a) {
            std::vector<std::string> refs;
            int n = r.range(1, 3);
            for (int k = 0; k < n; ++k) {
                if (r.chance(45)) {
                    if (recursive) {
                        // recursion only to the right of a rule section keeps the number of derivations small
                        if (k > 0 || r.chance(8)) { refs.push_back(r.pick(mn)); continue; }
                    } else if (i + 1 < nm) { refs.push_back(mn[(size_t) r.range(i + 1, nm - 1)]); continue; }
                }
                refs.push_back(r.pick(rn));
            }
            s.alts.push_back(refs);
        }
        g.secs.push_back(s);
    }
    for (auto &n : rn) {
        OSection s;
        s.name = n;
        s.meta = false;
        int k = r.range(1, 4);
        for (int a = 0; a < k; ++a) {
            ORule u;
            int len = r.range(1, 3);
            for (int j = 0; j < len; ++j) {
                u.in.push_back(alpha[(size_t) r.range(0, na)]);
                u.out.push_back(r.pick(outs));
            }
            u.score = ties ? r.pick(scores) : "0." + std::to_string(r.range(1, 99999));
            s.rules.push_back(u);
        }
        g.secs.push_back(s);
    }
    if (r.chance(10)) std::reverse(g.secs.begin(), g.secs.end());
    return g;
}
inline bool walk(Rng &r, const OGrammar &g, const std::string &root, Ints &out, int maxlen) {
    std::vector<std::string> st{root};
    for (int step = 0; step < 40 && !st.empty(); ++step) {
        const OSection *s = g.find(st.back());
        st.pop_back();
        if (s->meta) { auto &a = r.pick(s->alts); for (size_t i = a.size(); i-- > 0; ) st.push_back(a[i]); }
        else { auto &u = r.pick(s->rules); out.insert(out.end(), u.in.begin(), u.in.end()); }
        if ((int) out.size() > maxlen) return false;
    }
    return st.empty();
}
inline OPhrase gen_phrase(Rng &r, const OGrammar &g, int maxlen = 5) {
    std::vector<int> used;
    for (auto &s : g.secs) for (auto &u : s.rules) for (int c : u.in) used.push_back(c);
    OPhrase p;
    Ints core;
    if (r.chance(75)) for (int t = 0; t < 8; ++t) { core.clear(); if (walk(r, g, "ADDRESS", core, maxlen + 1)) break; core.clear(); }
    int n = core.size() ? (int) core.size() : r.range(1, maxlen);
    if (r.chance(3)) { n = 0; core.clear(); }
    for (int i = 0; i < n; ++i) {
        std::set<int> cs;
        if (core.size()) { cs.insert(core[(size_t) i]); if (r.chance(30)) cs.insert(r.pick(used)); if (r.chance(10)) cs.insert(r.pick(used)); }
        else { int k = r.chance(60) ? 1 : r.range(1, 3); for (int j = 0; j < k; ++j) cs.insert(r.pick(used)); }
        if (r.chance(3)) cs.insert(30);
        if (r.chance(1)) cs.clear();
        p.push_back(Ints(cs.begin(), cs.end()));
    }
    return p;
}
inline Grammar build(const OGrammar &g) {
    std::string t = g.text();
    return Grammar(t.c_str());
}
}
namespace ad {
// what applying one derivation to a phrase gives, and its score
struct OMatch { std::string text; double avg; size_t n; Ints in, out; size_t phrase; };
inline OMatch match_of(const ODeriv &d, size_t phrase = 0) {
    OMatch m;
    m.phrase = phrase; m.avg = 0; m.n = d.rules.size();
    for (auto r : d.rules) {
        m.in.insert(m.in.end(), r->in.begin(), r->in.end());
        m.out.insert(m.out.end(), r->out.begin(), r->out.end());
        m.avg += (double) strtof(r->score.c_str(), nullptr);
    }
    m.avg /= (double) m.n;
    for (int c : m.in) m.text += name_of(in_table(), c) + " ";
    m.text += "->";
    for (int c : m.out) m.text += " " + name_of(out_table(), c);
    return m;
}
inline bool all_matches(const OGrammar &g, const std::vector<OPhrase> &ps, std::vector<OMatch> &out) {
    out.clear();
    for (size_t k = 0; k < ps.size(); ++k) {
        std::vector<std::pair<Ints, ODeriv> > d;
        if (!derivations(g, "ADDRESS", ps[k], d)) return false;
        for (auto &x : d) out.push_back(match_of(x.second, k));
    }
    return true;
}
inline bool near(double a, double b) { double m = std::max(std::max(a < 0 ? -a : a, b < 0 ? -b : b), 1e-30); double d = a - b; return (d < 0 ? -d : d) <= 4e-6 * m; }
inline std::string phrases_str(const std::vector<OPhrase> &ps) { std::string o; for (auto &p : ps) o += phrase_str(p) + " / "; return o; }
}
