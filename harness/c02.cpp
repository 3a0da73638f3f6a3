// C02: whatever a search returns is a derivation of the grammar over the phrase
#include "addr.hpp"
int main(int c, char **v) {
    return vh::run(c, v, "random grammars (1-4 meta, 1-4 rule sections, also recursive) x random phrases x start sections; non-trivial when the search returns a match",
        [](vh::Rng &r) {
        for (int k = 0; k < vh::scale(900, 12000) && vh::more(); ++k) {
            auto g = ad::gen_grammar(r);
            std::string what = g.text();
            vh::begin("grammar:\n" + what, false);
            Grammar G(what.c_str());
            Search S(G);
            for (int q = 0; q < 6; ++q) {
                auto p = ad::gen_phrase(r, g);
                std::string root = "ADDRESS";
                if (q == 5) root = r.pick(g.secs).name;
                vh::begin("start " + root + " phrase " + ad::phrase_str(p) + "\ngrammar:\n" + what, false);
                std::vector<std::pair<ad::Ints, ad::ODeriv> > want;
                if (!ad::derivations(g, root, p, want)) continue;
                auto toks = ad::tokens_of(p);
                auto got = q == 5 ? S.search(root, toks) : S.search(toks);
                if (got.size()) vh::begin("start " + root + " phrase " + ad::phrase_str(p) + "\ngrammar:\n" + what);
                std::multiset<std::string> w;
                for (auto &d : want) w.insert(ad::deriv_str(d.second));
                for (auto &x : got) {
                    std::string s = ad::path_str(x);
                    if (x.remaining.size()) vh::fail("a result consumes the whole phrase", "nothing remains", std::to_string(x.remaining.size()) + " classes remain");
                    if (!w.count(s)) vh::fail("a returned match is a derivation of the grammar over the phrase", "one of " + std::to_string(want.size()) + " derivations", s);
                    ad::Ints flat;
                    for (auto &u : x.rules) for (auto e : u.in()) flat.push_back((int) e);
                    if (flat.size() != p.size()) vh::fail("rule inputs cover the phrase", std::to_string(p.size()), std::to_string(flat.size()));
                    for (size_t i = 0; i < flat.size(); ++i)
                        if (!std::count(p[i].begin(), p[i].end(), flat[i])) vh::fail("each matched class is a class of its token", ad::phrase_str(p), ad::name_of(ad::in_table(), flat[i]) + " at " + std::to_string(i));
                }
            }
        }
    });
}
