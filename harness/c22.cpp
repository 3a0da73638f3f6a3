// C22: the tokens of a text are its words and separators in order
#include "vh.hpp"
#include "lexicon.h"
#include "tokenizer.h"
typedef std::vector<std::string> Words;
static const Words LET = {"A", "B", "S", "T", "N", "\xC3\x89", "a", "t", "\xC3\xA9"}, DIG = {"0", "1", "7"}, SEP = {" ", " ", " ", ",", "-", ".", "/", ";", "#", "&", "|", "(", "_", "\n", "'"};
static bool isin(const Words &v, const std::string &c) { for (auto &x : v) if (x == c) return true; return false; }
static std::string up(const std::string &s) {
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) { unsigned char c = (unsigned char) s[i]; o += (c >= 'a' && c <= 'z') ? (char) (c - 32) : (i && (unsigned char) s[i - 1] == 0xC3 && c == 0xA9) ? (char) 0x89 : (char) c; }
    return o;
}
static Words chars(const std::string &s) {
    Words v;
    for (char c : s) { if (((unsigned char) c & 0xC0) != 0x80) v.push_back(""); v.back() += c; }
    return v;
}
static std::string cat(const Words &v, size_t a, size_t b) { std::string o; for (size_t i = a; i < b; ++i) o += v[i]; return o; }
static std::string show(const Token &t) { return "[" + t.text() + "/" + vh::join(t.inclass(), ",") + "/" + vh::join(t.attached(), ",") + "/" + std::to_string((int) t.outclass()) + "/" + std::to_string(t.inLex()) + "]"; }
static std::string word(vh::Rng &r) {
    std::string s;
    if (r.chance(15)) { for (int i = r.range(1, 2); i > 0; --i) s += r.pick(DIG); s += r.pick(Words{"/", ",", "."}); for (int i = r.range(1, 2); i > 0; --i) s += r.pick(DIG); return s; }
    int k = (int) r.below(4);
    for (int i = r.range(1, 4); i > 0; --i) s += k == 0 ? r.pick(DIG) : k == 3 && r.chance(40) ? r.pick(DIG) : r.pick(LET);
    return s;
}
int main(int c, char **v) {
    return vh::run(c, v, "random texts of words, numbers, fractions and separators in small and capital letters, random lexicons with words of the text, phrases, and filters; non-trivial when the text has two tokens or more",
        [](vh::Rng &r) {
        for (int k = 0; k < vh::scale(3000, 40000) && vh::more(); ++k) {
            std::string text, in;
            Words ws;
            if (r.chance(15)) text += r.pick(SEP);
            for (int i = r.range(0, 5); i > 0; --i) {
                std::string w = word(r);
                ws.push_back(w);
                text += w;
                if (i > 1 || r.chance(30)) for (int j = r.range(1, 2); j > 0; --j) text += r.pick(SEP);
                if (r.chance(2)) text += "\xC2\xA9";
            }
            Lexicon lex{std::string("lex")};
            Words known;
            for (int i = r.range(1, 4); i > 0; --i) {
                std::string w = ws.empty() || r.chance(20) ? word(r) : up(r.pick(ws));
                if (r.chance(25)) w += r.pick(Words{".", " B", "-1", " 7"});
                w = up(w);
                LexEntry e;
                e.word(w);
                e.stdword("S" + std::to_string(i));
                e.type(std::set<InClass::Type>{(InClass::Type) r.range(1, 8)});
                if (r.chance(20)) e.attached(std::set<InClass::AttachType>{r.chance(50) ? InClass::ATT_SUF : InClass::ATT_PRE});
                lex.insert(e);
                known.push_back(w);
                in += " word '" + w + "'";
            }
            std::set<InClass::Type> filter;
            for (int i = r.chance(40) ? r.range(1, 2) : 0; i > 0; --i) filter.insert((InClass::Type) r.range(1, 30));
            in = "text '" + text + "'" + in + " filter " + vh::join(filter, ",");
            // read the text without expressions
            auto cs = chars(up(text));
            size_t n = cs.size(), p = 0;
            std::vector<Token> want;
            auto alnum = [&](size_t i) { return isin(LET, cs[i]) || isin(DIG, cs[i]) || cs[i] == "\xC3\x89"; };
            auto sep = [&](size_t i) { return i >= n || isin(SEP, cs[i]); };
            Lexicon copy(lex);
            Tokenizer other(copy);
            for (;;) {
                // a rest that does not begin with a token is read from its next line on
                size_t best, a, from = p;
                auto here = [&]() {
                a = from;
                while (a < n && (cs[a] == " " || cs[a] == "\n")) ++a;
                size_t b = a; best = a;
                for (auto &w : known) { auto wc = chars(w); if (a + wc.size() <= n && cat(cs, a, a + wc.size()) == w && sep(a + wc.size())) best = std::max(best, a + wc.size()); }
                if (best == a) {
                    while (b < n && isin(DIG, cs[b])) ++b;
                    if (b > a && b < n && (cs[b] == "/" || cs[b] == "," || cs[b] == ".")) {
                        size_t d = b + 1;
                        while (d < n && isin(DIG, cs[d])) ++d;
                        if (d > b + 1 && sep(d)) best = d;
                    }
                }
                if (best == a) { b = a; while (b < n && alnum(b)) ++b; if (sep(b)) best = b; }
                };
                here();
                while (best == a && from < n) { do ++from; while (from < n && cs[from - 1] != "\n"); if (from < n) here(); }
                if (best == a) break;
                size_t d = best;
                while (d < n && isin(SEP, cs[d])) ++d;
                Token t;
                t.text(cat(cs, a, best));
                copy.classify(t, InClass::WORD);
                auto pieces = t.inLex() ? std::vector<Token>() : other.splitToken(t);
                if (pieces.empty()) want.push_back(t);
                for (auto &x : pieces) want.push_back(x);
                if (d > best) {
                    std::string s = cat(cs, best, d);
                    while (!s.empty() && (s.back() == ' ' || s.back() == '\n')) s.pop_back();
                    while (!s.empty() && (s[0] == ' ' || s[0] == '\n')) s.erase(0, 1);
                    Token q;
                    q.text(s.empty() ? " " : s);
                    copy.classify(q, InClass::PUNCT);
                    want.push_back(q);
                }
                p = d;
            }
            std::string e;
            int kept = 0;
            for (auto &t : want) { bool out = false; for (auto f : filter) out = out || t.inclass().count(f); if (!out) { e += show(t); ++kept; } }
            if (!vh::begin(in, kept >= 2)) continue;
            Tokenizer z(lex);
            z.filter(filter);
            std::string g;
            bool bare = false;
            for (auto &t : z.getTokens(text)) { g += show(t); bare = bare || t.inclass().empty(); }
            vh::eq("the tokens of the text", e, g);
            vh::check(!bare, "a token without a class", "every token has a class", g);
            std::string g2;
            for (auto &t : z.getTokens(text)) g2 += show(t);
            vh::eq("the tokens, a second time", g, g2);
        }
    });
}
