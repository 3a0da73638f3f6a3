// C04: the best match over all alternative phrases
#include "addr.hpp"
int main(int c, char **v) {
    return vh::run(c, v, "random grammars with tied, close and tiny scores x lists of 0-4 random phrases; non-trivial when there is a match",
        [](vh::Rng &r) {
        auto one = [&](const ad::OGrammar &g, Search &S, const std::string &what, const std::vector<ad::OPhrase> &ps, bool single) {
            std::vector<ad::OMatch> all;
            std::string in = std::string(single ? "one phrase " : "phrases ") + ad::phrases_str(ps) + "\ngrammar:\n" + what;
            vh::begin(in, false);
            if (!ad::all_matches(g, ps, all)) return;
            vh::begin(in, all.size() > 0);
            std::vector<std::vector<Token> > toks;
            for (auto &p : ps) toks.push_back(ad::tokens_of(p));
            float score = -7.f, nrules = -7.f;
            std::string matched;
            auto best = single ? S.searchAndReclassBest(toks[0], score, matched, nrules) : S.searchAndReclassBest(toks, score, matched, nrules);
            if (all.empty()) {
                vh::same("score without a match", -1.f, score);
                vh::same("tokens without a match", (size_t) 0, best.size());
                vh::eq("text without a match", "", matched);
                vh::same("rule count without a match", -1.f, nrules);
                return;
            }
            double top = -1e300;
            for (auto &m : all) top = std::max(top, m.avg);
            if (!ad::near(top, score)) vh::fail("score is the highest average rule score", vh::str(top), vh::str(score));
            // one of the matches with that score must be the one described
            std::string want;
            for (auto &m : all) {
                if (!ad::near(m.avg, top)) continue;
                want += m.text + " (" + std::to_string(m.n) + " rules, phrase " + std::to_string(m.phrase) + ") or ";
                if (m.text != matched || (float) m.n != nrules || best.size() != m.in.size()) continue;
                bool ok = true;
                for (size_t i = 0; i < best.size() && ok; ++i)
                    ok = best[i].inclass() == std::set<InClass::Type>{(InClass::Type) m.in[i]} && (int) best[i].outclass() == m.out[i];
                if (ok) return;
            }
            vh::fail("text, rule count and tokens are those of a match with the highest average", want, matched + " (" + vh::str(nrules) + " rules, " + std::to_string(best.size()) + " tokens)");
        };
        static const std::vector<std::string> tiny = {"0.00001", "0.000011", "0.0000001", "0.5", "0.500001", "0.49999", "120", "3.5", "0.05"};
        for (int k = 0; k < vh::scale(1500, 15000) && vh::more(); ++k) {
            auto g = ad::gen_grammar(r, k % 2 == 0);
            if (k % 5 == 1) for (auto &s : g.secs) for (auto &u : s.rules) u.score = r.pick(tiny);
            if (k % 7 == 3) for (auto &s : g.secs) for (auto &u : s.rules) u.score = "0." + std::string((size_t) r.range(0, 5), '0') + std::to_string(r.range(1, 9));
            std::string what = g.text();
            vh::begin("grammar:\n" + what, false);
            Grammar G(what.c_str());
            Search S(G);
            for (int q = 0; q < 6; ++q) {
                std::vector<ad::OPhrase> ps;
                int n = q < 2 ? 1 : r.range(0, 4);
                for (int i = 0; i < n; ++i) ps.push_back(ad::gen_phrase(r, g, 4));
                one(g, S, what, ps, q == 0);
            }
        }
    });
}
