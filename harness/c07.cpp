// C07: the records of a parsed address
#include "iface.hpp"
using namespace ifc;
int main(int argc, char **argv) {
    return vh::run(argc, argv, "random lexicon texts, addresses and filters; non-trivial when there is an alternative phrase",
        [](vh::Rng &r) {
        for (int k = 0; k < vh::scale(1500, 15000) && vh::more(); ++k) {
            Case t = gen(r, 7);
            Lexicon lex = lexicon_of(t.lextext);
            auto ps = phrases(lex, t);
            vh::begin(t.what, ps.size() > 1);
            std::string want;
            int n = 0, p = 0;
            for (auto &ph : ps) {
                for (auto &x : ph) {
                    std::string in, at;
                    for (auto q : x.inclass()) in += (in.empty() ? "" : ",") + ad::name_of(ad::in_table(), (int) q);
                    for (auto q : x.attached()) at += (at.empty() ? "" : ",") + InClass::asString(q);
                    want += std::to_string(p) + " " + std::to_string(n++) + " \"" + x.text() + "\" \"" + in + "\" \"" + at + "\"\n";
                }
                ++p;
            }
            for (int way = 0; way < 2; ++way) {
                char *err = (char *) "unset";
                int cnt = -7;
                TOKENS *a;
                void *l = nullptr;
                if (way == 0) a = std_parse_address(c(t.address), c(t.lextext), c(t.locale), c(t.filter), &cnt, &err);
                else {
                    char *e = nullptr;
                    l = getLexiconPtr(c(t.lextext), &e);
                    a = std_parse_address_ptrs(c(t.address), l, c(t.locale), c(t.filter), &cnt, &err);
                    freeLexiconPtr(l);
                }
                vh::eq("the error text", "nothing", show(err));
                vh::check(a, "a result", want, "nothing");
                vh::same("the number of records", n, cnt);
                std::string got;
                for (int i = 0; i < cnt; ++i) {
                    vh::check(a[i].word && a[i].inclass && a[i].attached, "the texts of a record", want, "none in record " + std::to_string(i));
                    got += std::to_string(a[i].pat) + " " + std::to_string(a[i].seq) + " \"" + a[i].word + "\" \"" + a[i].inclass + "\" \"" + a[i].attached + "\"\n";
                    free(a[i].word); free(a[i].inclass); free(a[i].attached);
                }
                free(a);
                vh::eq("the records", want, got);
            }
        }
    });
}
