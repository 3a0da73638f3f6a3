// C20: the alternatives of a phrase split every non-empty combination of its tokens of several words
#include "vh.hpp"
#include "lexicon.h"
#include "tokenizer.h"
static std::string show(const Token &t) { return t.text() + "/" + t.stdtext() + "/" + vh::join(t.inclass(), ",") + "/" + vh::join(t.attached(), ",") + "/" + std::to_string((int) t.outclass()) + "/" + std::to_string(t.inLex()); }
static std::string show(const std::vector<Token> &v) { std::string o; for (auto &t : v) o += "[" + show(t) + "]"; return o; }
static std::vector<std::string> words(const std::string &s) {
    std::vector<std::string> v;
    std::string w;
    for (char c : s) { if (c == ' ') { if (!w.empty()) v.push_back(w); w.clear(); } else w += c; }
    if (!w.empty()) v.push_back(w);
    return v;
}
int main(int c, char **v) {
    return vh::run(c, v, "random phrases of 0 to 9 tokens of 1 to 4 words separated by 1 to 3 blanks, looked up in random lexicons; non-trivial when the phrase has two tokens of several words",
        [](vh::Rng &r) {
        static const std::vector<std::string> ws = {"NORTH", "EAST", "ST", "MAIN", "5", "12", "AVE", "A", "BC", "1B", "1,5", "\xC3\x89T\xC3\x89", "SAINT", "X-Y", "&", "1234", "@"};
        for (int k = 0; k < vh::scale(2500, 30000) && vh::more(); ++k) {
            Lexicon lex{std::string("lex")};
            std::string in = "lexicon";
            for (int i = r.range(0, 6); i > 0; --i) {
                LexEntry e;
                e.word(r.pick(ws));
                e.stdword("S" + std::to_string(i));
                std::set<InClass::Type> cs;
                for (int j = r.range(1, 3); j > 0; --j) cs.insert((InClass::Type) r.range(0, 3));
                e.type(cs);
                lex.insert(e);
                in += " " + e.word() + "=" + vh::join(cs, ",");
            }
            int n = r.range(0, 9), many = 0, most = r.chance(80) ? 3 : 8;
            std::vector<Token> ts;
            std::vector<std::vector<std::string> > parts;
            for (int i = 0; i < n; ++i) {
                Token t;
                int m = r.chance(55) || many >= most ? 1 : r.range(2, 4);
                std::string s;
                for (int j = 0; j < m; ++j) { if (j) s += std::string(r.chance(80) ? 1 : r.range(2, 3), ' '); s += r.pick(ws); }
                if (r.chance(8)) s = " " + s;
                if (r.chance(8)) s += " ";
                if (r.chance(3)) { s = r.chance(50) ? "" : " "; m = 1; }
                many += m > 1;
                t.text(s);
                t.stdtext("T" + std::to_string(i));
                t.inclass((InClass::Type) r.range(0, 20));
                t.outclass((OutClass::Type) r.range(0, 17));
                t.attached((InClass::AttachType) r.range(0, 3));
                t.inLex(r.chance(50));
                ts.push_back(t);
                parts.push_back(words(s));
            }
            std::multiset<std::string> want;
            // every choice, as a set of positions
            std::vector<int> at;
            for (int i = 0; i < n; ++i) if (parts[i].size() > 1) at.push_back(i);
            std::function<void(size_t, std::set<int>)> go = [&](size_t i, std::set<int> ch) {
                if (i < at.size()) { go(i + 1, ch); ch.insert(at[i]); go(i + 1, ch); return; }
                if (ch.empty()) return;
                std::vector<Token> one;
                for (int j = 0; j < n; ++j) {
                    if (!ch.count(j)) { one.push_back(ts[j]); continue; }
                    for (auto &w : parts[j]) { Token t; t.text(w); Lexicon copy(lex); copy.classify(t, InClass::WORD); one.push_back(t); }
                }
                want.insert(show(one));
            };
            go(0, {});
            if (!vh::begin(in + " phrase " + show(ts), at.size() > 1)) continue;
            Tokenizer z(lex);
            auto got = z.getAltTokens(ts);
            std::multiset<std::string> have;
            for (auto &p : got) have.insert(show(p));
            vh::same("the number of alternatives", want.size(), got.size());
            for (auto &s : want) vh::check(have.count(s) == want.count(s), "an alternative is as often there as it should be", s, std::to_string(have.count(s)));
            vh::eq("the alternatives, a second time", [&] { std::string o; for (auto &p : got) o += show(p) + "\n"; return o; }(), [&] { std::string o; for (auto &p : z.getAltTokens(ts)) o += show(p) + "\n"; return o; }());
        }
        // many of them
        {
            Lexicon lex{std::string("lex")};
            int many = vh::st().thorough ? 16 : 12;
            std::vector<Token> ts;
            for (int i = 0; i < many; ++i) { Token t; t.text("A" + std::to_string(i) + " B" + std::to_string(i)); t.inclass(InClass::WORD); ts.push_back(t); }
            if (vh::begin("a phrase of " + std::to_string(many) + " tokens of two words")) {
                Tokenizer z(lex);
                std::set<std::string> seen;
                for (auto &p : z.getAltTokens(ts)) { std::string s; for (auto &t : p) s += t.text() + "|"; seen.insert(s); }
                vh::same("the number of different alternatives", (size_t) ((1ul << many) - 1), seen.size());
            }
        }
    });
}
