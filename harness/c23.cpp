// C23: the listing of matches
#include "iface.hpp"
using namespace ifc;
int main(int argc, char **argv) {
    return vh::run(argc, argv, "random lexicon and grammar texts and addresses, ties; non-trivial when there are two matches or more",
        [](vh::Rng &r) {
        for (int k = 0; k < vh::scale(1500, 15000) && vh::more(); ++k) {
            Case t = gen(r, 4);
            Lexicon lex = lexicon_of(t.lextext);
            auto ps = phrases(lex, t);
            std::vector<ad::OPhrase> ops;
            size_t total = 0;
            for (auto &p : ps) { ops.push_back(classes_of(p)); total += p.size(); }
            if (total > 60) continue;
            std::vector<ad::OMatch> all;
            vh::begin(t.what, false);
            if (!ad::all_matches(t.g, ops, all)) continue;
            vh::begin(t.what, all.size() > 1);
            char *err = (char *) "unset";
            int cnt = -7;
            MTOKEN *a = std_match_address(c(t.address), c(t.gtext), c(t.lextext), c(t.locale), c(t.filter), &cnt, &err);
            vh::eq("the error text", "nothing", show(err));
            vh::check(a, "a result", "records", "nothing");
            std::string got;
            for (int i = 0; i < cnt; ++i) got += show(a[i].tokens) + " " + vh::str(a[i].score) + " " + vh::str(a[i].nrules) + "\n";
            if (all.empty()) {
                vh::same("the number of records without a match", 1, cnt);
                vh::check(a[0].tokens && a[0].score == -1 && a[0].nrules == -1, "the record without a match", "a text, -1, -1", got);
                free(a[0].tokens); free(a);
                continue;
            }
            vh::same("the number of records", (int) all.size(), cnt);
            std::vector<bool> used(all.size(), false);
            for (int i = 0; i < cnt; ++i) {
                if (i) vh::check(!(a[i].score > a[i - 1].score), "the order of the scores", "falling", got);
                bool ok = false;
                for (size_t j = 0; j < all.size() && !ok; ++j) {
                    if (used[j] || !a[i].tokens || all[j].text != a[i].tokens || (double) all[j].n != a[i].nrules || !ad::near(all[j].avg, a[i].score)) continue;
                    used[j] = ok = true;
                }
                std::string want;
                for (auto &m : all) want += "\"" + m.text + "\" " + vh::str(m.avg) + " " + std::to_string(m.n) + "\n";
                if (!ok) vh::fail("a record for each match", want, got);
                free(a[i].tokens);
            }
            free(a);
        }
    });
}
