// C19: filtering keeps, in order and unchanged, the tokens none of whose classes is filtered
#include "vh.hpp"
#include "lexicon.h"
#include "tokenizer.h"
typedef std::vector<int> Ints;
static const std::vector<int> CS = {-1, 0, 1, 2, 3, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 99};
static std::string show(const Token &t) { return t.text() + "/" + t.stdtext() + "/" + vh::join(t.inclass(), ",") + "/" + vh::join(t.attached(), ",") + "/" + std::to_string((int) t.outclass()) + "/" + std::to_string(t.inLex()); }
static std::string show(const std::vector<Token> &v) { std::string o; for (auto &t : v) o += "[" + show(t) + "]"; return o; }
int main(int c, char **v) {
    return vh::run(c, v, "random histories of filter changes and random phrases of 0 to 12 tokens with 0 to 4 classes; non-trivial when some tokens stay and some go",
        [](vh::Rng &r) {
        Lexicon lex{std::string("lex")};
        for (int k = 0; k < vh::scale(6000, 80000) && vh::more(); ++k) {
            std::vector<int> pool;
            for (int i = r.range(1, 10); i > 0; --i) pool.push_back(r.pick(CS));
            if (r.chance(3)) pool = CS;
            Tokenizer z(lex);
            std::set<int> want;
            std::string in = "edits";
            for (int i = r.range(0, 8); i > 0; --i) {
                int what = r.range(0, 9), x = r.pick(pool);
                if (what < 5) { z.addFilter((InClass::Type) x); want.insert(x); in += " +" + std::to_string(x); }
                else if (what < 8) { z.removeFilter((InClass::Type) x); want.erase(x); in += " -" + std::to_string(x); }
                else if (what < 9) {
                    std::set<InClass::Type> s;
                    for (int j = r.range(0, 4); j > 0; --j) s.insert((InClass::Type) r.pick(pool));
                    z.filter(s);
                    want.clear();
                    for (auto q : s) want.insert((int) q);
                    in += " =" + vh::join(s, ",");
                }
                else { z.clearFilter(); want.clear(); in += " clear"; }
            }
            std::vector<Token> ts, left;
            for (int i = r.range(0, 12); i > 0; --i) {
                Token t;
                t.text("T" + std::to_string(r.range(0, 5)));
                t.stdtext("S" + std::to_string(i));
                std::set<InClass::Type> cs;
                for (int j = r.range(0, 4); j > 0; --j) cs.insert((InClass::Type) (r.chance(60) ? r.pick(pool) : r.pick(CS)));
                t.inclass(cs);
                t.outclass((OutClass::Type) r.range(0, 17));
                t.attached((InClass::AttachType) r.range(0, 3));
                t.inLex(r.chance(50));
                ts.push_back(t);
                bool out = false;
                for (auto q : cs) out = out || want.count((int) q);
                if (!out) left.push_back(t);
            }
            if (!vh::begin(in + " tokens " + show(ts), !left.empty() && left.size() < ts.size())) continue;
            std::set<int> got;
            for (auto q : z.filter()) got.insert((int) q);
            vh::eq("the filter after the changes", vh::join(want), vh::join(got));
            auto was = show(ts);
            vh::eq("the tokens that stay", show(left), show(z.applyFilter(ts)));
            vh::eq("the tokens given", was, show(ts));
            vh::eq("the tokens that stay, a second time", show(left), show(z.applyFilter(ts)));
            vh::eq("the tokens that stay, filtered again", show(left), show(z.applyFilter(z.applyFilter(ts))));
        }
        // and in the tokenizer itself
        for (auto w : {"STREET", "NORTH", "N", "ST", "APT"}) {
            LexEntry e;
            e.word(w); e.stdword(w);
            e.type(std::set<InClass::Type>{(InClass::Type) r.range(1, 3), InClass::WORD});
            lex.insert(e);
        }
        static const std::vector<std::string> ps = {"123", "N", "NORTH", "MAIN", "STREET", "ST", ",", " ", "-", "/", "APT", "12B", "#", "1/2", ".", "@", "&", "A1", "\xE2\x80\x94"};
        for (int k = 0; k < vh::scale(60, 600) && vh::more(); ++k) {
            std::string s;
            for (int i = r.range(1, 8); i > 0; --i) { s += r.pick(ps); if (r.chance(60)) s += " "; }
            Tokenizer z(lex), y(lex);
            std::set<InClass::Type> f;
            for (int j = r.range(0, 4); j > 0; --j) f.insert((InClass::Type) r.pick(CS));
            z.filter(f);
            if (!vh::begin("text '" + s + "' filter " + vh::join(f, ","))) continue;
            std::vector<Token> left;
            for (auto &t : y.getTokens(s)) {
                bool out = false;
                for (auto q : t.inclass()) out = out || f.count(q);
                if (!out) left.push_back(t);
            }
            vh::eq("the tokens of the text that stay", show(left), show(z.getTokens(s)));
        }
    });
}
