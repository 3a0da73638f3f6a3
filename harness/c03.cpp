// C03: every derivation within the expansion limit is returned, once
#include "addr.hpp"
int main(int c, char **v) {
    return vh::run(c, v, "random grammars (1-4 meta, 1-4 rule sections, also recursive, up to the expansion limit) x random phrases x start sections; non-trivial when a derivation exists",
        [](vh::Rng &r) {
        auto one = [&](const ad::OGrammar &g, Search &S, const std::string &what, const std::string &root, const ad::OPhrase &p, bool plain) {
            std::vector<std::pair<ad::Ints, ad::ODeriv> > want;
            std::string in = "start " + root + " phrase " + ad::phrase_str(p) + "\ngrammar:\n" + what;
            vh::begin(in, false);
            if (!ad::derivations(g, root, p, want)) return;
            vh::begin(in, want.size() > 0);
            auto toks = ad::tokens_of(p);
            auto got = plain ? S.search(toks) : S.search(root, toks);
            std::map<std::string, int> a, b;
            for (auto &d : want) ++a[ad::deriv_str(d.second)];
            for (auto &x : got) ++b[ad::path_str(x)];
            for (auto &e : a) if (b[e.first] != e.second) vh::fail("derivation returned: " + e.first, std::to_string(e.second) + " time(s)", std::to_string(b[e.first]));
            vh::same("number of matches", want.size(), got.size());
        };
        // expansion chains of every length around the limit: ADDRESS -> M1 -> ... -> Mk -> rule
        for (int len = 1; len <= 4; ++len) {
            for (int k = 0; k <= len + 5; ++k) {
                ad::OGrammar g;
                for (int i = 0; i <= k; ++i) {
                    std::string next = i == k ? "R" : "M" + std::to_string(i + 1);
                    g.secs.push_back({i == 0 ? "ADDRESS" : "M" + std::to_string(i), true, {{next}}, {}});
                }
                ad::ORule u;
                for (int j = 0; j < len; ++j) { u.in.push_back(1); u.out.push_back(5); }
                u.score = "0.5";
                g.secs.push_back({"R", false, {}, {u}});
                std::string what = g.text();
                Grammar G(what.c_str());
                Search S(G);
                one(g, S, what, "ADDRESS", ad::OPhrase((size_t) len, ad::Ints{1}), true);
                if (k) one(g, S, what, "M1", ad::OPhrase((size_t) len, ad::Ints{1}), false);
            }
        }
        for (int k = 0; k < vh::scale(900, 12000) && vh::more(); ++k) {
            auto g = ad::gen_grammar(r);
            std::string what = g.text();
            vh::begin("grammar:\n" + what, false);
            Grammar G(what.c_str());
            Search S(G);
            for (int q = 0; q < 6; ++q) {
                auto p = ad::gen_phrase(r, g);
                std::string root = q == 5 ? r.pick(g.secs).name : "ADDRESS";
                one(g, S, what, root, p, q != 5);
            }
        }
    });
}
