// C21: a word is split at an attached prefix and suffix, a mixed word between digits and letter, and nothing is lost
#include "vh.hpp"
#include "lexicon.h"
#include "tokenizer.h"
typedef std::vector<std::string> Words;
static const Words LET = {"A", "B", "S", "T", "q", "\xC3\x89", "\xC3\xA9", "\xE4\xB8\xAD"}, DIG = {"0", "1", "7"}, OTH = {"-", "'", ".", "/", "_", "(", "\xE2\x80\x94", "\\", "+"};
static bool isin(const Words &v, const std::string &c) { for (auto &x : v) if (x == c) return true; return false; }
static bool W(const std::string &c) { return isin(LET, c) || isin(DIG, c) || c == "_"; }
static Words chars(const std::string &s) {
    Words v;
    for (char c : s) { if (((unsigned char) c & 0xC0) != 0x80) v.push_back(""); v.back() += c; }
    return v;
}
static std::string cat(const Words &v, size_t a, size_t b) { std::string o; for (size_t i = a; i < b; ++i) o += v[i]; return o; }
static std::string show(const Token &t) { return t.text() + "/" + t.stdtext() + "/" + vh::join(t.inclass(), ",") + "/" + vh::join(t.attached(), ",") + "/" + std::to_string((int) t.outclass()) + "/" + std::to_string(t.inLex()); }
static std::string pieces(const Words &ws, const Lexicon &lex) {
    std::string o;
    for (auto &w : ws) { Token t; t.text(w); Lexicon copy(lex); copy.classify(t, InClass::WORD); o += "[" + show(t) + "]"; }
    return o;
}
static std::string some(vh::Rng &r, int lo, int hi, int kind) {
    std::string s;
    for (int n = r.range(lo, hi); n > 0; --n) {
        int k = kind == 3 ? r.range(0, 2) : kind == 4 ? (r.chance(80) ? r.range(0, 1) : 2) : kind;
        s += k == 0 ? r.pick(LET) : k == 1 ? r.pick(DIG) : r.pick(OTH);
    }
    return s;
}
int main(int c, char **v) {
    return vh::run(c, v, "random words and lexicons with 0 to 4 attached prefixes and suffixes cut from the word or not, and mixed words; non-trivial when the word is split",
        [](vh::Rng &r) {
        for (int k = 0; k < vh::scale(3000, 40000) && vh::more(); ++k) {
            bool mixed = r.chance(35);
            std::string t;
            int kind = (int) r.below(6);
            if (mixed) t = kind == 0 ? some(r, 1, 4, 1) + some(r, 1, 1, 0) : kind == 1 ? some(r, 1, 1, 0) + some(r, 1, 4, 1) : kind == 2 ? some(r, 1, 2, 0) + some(r, 1, 2, 1) : some(r, 1, 5, kind == 3 ? 4 : 3);
            else t = some(r, 1, 7, kind < 3 ? 0 : kind < 5 ? 4 : 3);
            auto cs = chars(t);
            size_t n = cs.size();
            Lexicon lex{std::string("lex")};
            Words pre, suf;
            std::string in = std::string(mixed ? "mixed " : "") + "word '" + t + "'";
            for (int side = 0; side < 2; ++side) {
                Words &ws = side ? suf : pre;
                for (int i = r.chance(70) ? r.range(0, 3) : 0; i > 0; --i) {
                    size_t m = (size_t) r.range(1, (int) n);
                    std::string w = r.chance(75) ? (side ? cat(cs, n - m, n) : cat(cs, 0, m)) : some(r, 1, 3, 4);
                    LexEntry e;
                    e.word(w);
                    e.stdword("S" + std::to_string(i));
                    e.type(std::set<InClass::Type>{(InClass::Type) r.range(1, 3)});
                    e.attached(std::set<InClass::AttachType>{side ? InClass::ATT_SUF : InClass::ATT_PRE});
                    if (r.chance(20)) e.attached(std::set<InClass::AttachType>{side ? InClass::ATT_SUF : InClass::ATT_PRE, side ? InClass::DET_SUF : InClass::DET_PRE});
                    lex.insert(e);
                    ws.push_back(w);
                    in += side ? " suffix '" : " prefix '";
                    in += w + "'";
                }
            }
            // words that are attached in no such way do not split
            if (r.chance(30)) { LexEntry e; e.word(cat(cs, 0, (size_t) r.range(1, (int) n))); e.type(std::set<InClass::Type>{InClass::WORD}); e.attached(std::set<InClass::AttachType>{r.chance(50) ? InClass::DET_PRE : InClass::DET_SUF}); lex.insert(e); in += " word '" + e.word() + "'"; }
            std::set<std::string> want;
            if (mixed) {
                bool allw = true;
                for (auto &x : cs) allw = allw && W(x);
                size_t d = 0;
                for (auto &x : cs) d += isin(DIG, x);
                if (allw && n >= 2 && d == n - 1 && isin(LET, cs[n - 1])) want.insert(pieces({cat(cs, 0, n - 1), cs[n - 1]}, lex));
                else if (allw && n >= 2 && d == n - 1 && isin(LET, cs[0])) want.insert(pieces({cs[0], cat(cs, 1, n)}, lex));
                else if (allw) want.insert(pieces({t}, lex));
            } else {
                std::vector<size_t> ps, ss;
                for (size_t m = 1; m < n; ++m) {
                    if (isin(pre, cat(cs, 0, m)) && W(cs[m - 1]) == W(cs[m])) ps.push_back(m);
                    if (isin(suf, cat(cs, m, n))) ss.push_back(m);
                }
                bool np = ps.empty(), ns = ss.empty();
                if (np) ps.push_back(0);
                if (ns) ss.push_back(n);
                for (size_t p : ps) for (size_t s : ss) {
                    Words w;
                    if (np && ns) {}
                    else if (np) w = {cat(cs, 0, s), cat(cs, s, n)};
                    else if (ns || p == s) w = {cat(cs, 0, p), cat(cs, p, n)};
                    else if (p < s) w = {cat(cs, 0, p), cat(cs, p, s), cat(cs, s, n)};
                    else w = {cat(cs, 0, s), cat(cs, s, n)};
                    want.insert(pieces(w, lex));
                }
            }
            if (!vh::begin(in, !want.empty() && !want.count(""))) continue;
            Token tok;
            tok.text(t);
            tok.inclass(std::set<InClass::Type>{mixed ? InClass::MIXED : InClass::WORD});
            if (mixed && r.chance(30)) tok.inclass(InClass::WORD);
            Token was = tok;
            Tokenizer z(lex);
            auto got = z.splitToken(tok);
            std::string g, joined;
            for (auto &x : got) { g += "[" + show(x) + "]"; joined += x.text(); }
            if (!want.empty()) vh::check(want.count(g), "the pieces of the word", vh::join(want, " or "), g);
            else if (joined.find('.') == std::string::npos) { std::string u; for (char ch : t) if (ch != ' ') u += ch; vh::eq("the letters of the pieces", u, joined); }
            vh::eq("the word itself", show(was), show(tok));
            std::string g2;
            for (auto &x : z.splitToken(tok)) g2 += "[" + show(x) + "]";
            vh::eq("the pieces, a second time", g, g2);
        }
    });
}
