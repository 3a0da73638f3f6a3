// C10: the standard text is the standard word of the first definition with the matched class
#include "vh.hpp"
#include "lexicon.h"
int main(int c, char **v) {
    return vh::run(c, v, "lexica with 0 to 5 definitions of the text (1 to 3 of 5 classes each, a standard word that may be empty) and tokens tagged with one class; non-trivial when a definition has the class",
        [](vh::Rng &r) {
        static const std::vector<std::string> ws = {"ST", "STREET", "", "SAINT", "\xC3\x89T", "N", "1"};
        for (int k = 0; k < vh::scale(60000, 600000) && vh::more(); ++k) {
            std::string t = r.pick(ws);
            Lexicon x{std::string("lex")};
            int n = (int) r.below(6), cls = r.range(0, 4);
            std::string in = "text '" + t + "' class " + std::to_string(cls) + " definitions", want;
            bool found = false;
            std::vector<LexEntry> es;
            for (int i = 0; i < n; ++i) {
                LexEntry e;
                bool other = r.chance(20);
                e.word(other ? r.pick(ws) : t);
                e.stdword(r.pick(ws));
                std::set<InClass::Type> ts;
                int m = r.range(1, 3);
                for (int q = 0; q < m; ++q) ts.insert((InClass::Type) r.range(0, 4));
                e.type(ts);
                bool again = false;
                for (auto &o : es) again = again || o == e;
                es.push_back(e);
                x.insert(e);
                in += " [" + e.word() + "/" + e.stdword() + "/" + vh::join(ts, ",") + "]";
                if (!again && !found && e.word() == t && ts.count((InClass::Type) cls)) { found = true; want = e.stdword(); }
            }
            if (!found || want.empty()) want = t;
            if (!vh::begin(in, found)) continue;
            Token tok;
            tok.text(t);
            tok.inclass((InClass::Type) cls);
            tok.outclass((OutClass::Type) r.range(0, 10));
            tok.attached((InClass::AttachType) r.range(0, 3));
            tok.inLex(r.chance(50));
            Token was = tok;
            x.standardize(tok);
            vh::eq("the standard text", want, tok.stdtext());
            vh::check(tok.text() == was.text() && tok.inclass() == was.inclass() && tok.outclass() == was.outclass() && tok.attached() == was.attached() && tok.inLex() == was.inLex(), "nothing else about the token changes");
            x.standardize(tok);
            vh::eq("the standard text, a second time", want, tok.stdtext());
        }
    });
}
