// C05: applying a match to a phrase
#include "addr.hpp"
static std::string tok(const Token &t) {
    std::string o = t.text() + "/" + t.stdtext() + "/";
    for (auto e : t.inclass()) o += std::to_string((int) e) + ",";
    o += "/" + std::to_string((int) t.outclass()) + "/";
    for (auto e : t.attached()) o += std::to_string((int) e) + ",";
    return o + "/" + (t.inLex() ? "1" : "0");
}
int main(int c, char **v) {
    return vh::run(c, v, "random phrases x lists of rules that fit, are one position short or long, or have one class the token lacks, and the matches of a search; all non-trivial",
        [](vh::Rng &r) {
        static const std::vector<int> ins = ad::values(ad::in_table()), outs = ad::values(ad::out_table());
        OutClass::Type before = OutClass::BADTOKEN;
        auto apply = [&](Search &S, const std::vector<Token> &toks, const SearchPath &p, const std::string &in) {
            ad::Ints fi, fo;
            for (auto &u : p.rules) {
                for (auto e : u.in()) fi.push_back((int) e);
                for (auto e : u.out()) fo.push_back((int) e);
            }
            vh::begin(in);
            auto got = toks;
            bool ok = S.reclassTokens(got, p);
            bool fits = fi.size() == toks.size();
            for (size_t i = 0; fits && i < toks.size(); ++i) fits = toks[i].inclass().count((InClass::Type) fi[i]) > 0;
            vh::same("success", fits, ok);
            vh::same("number of tokens", toks.size(), got.size());
            for (size_t i = 0; i < toks.size(); ++i) {
                vh::eq("text of token " + std::to_string(i), toks[i].text(), got[i].text());
                if (!ok) continue;
                Token w = toks[i];
                w.inclass(std::set<InClass::Type>{(InClass::Type) fi[i]});
                w.outclass((OutClass::Type) fo[i]);
                vh::eq("token " + std::to_string(i), tok(w), tok(got[i]));
            }
        };
        Grammar empty("[ADDRESS]\n@A\n[A]\nWORD -> STREET -> 0.5\n");
        Search E(empty);
        for (int k = 0; k < vh::scale(12000, 120000) && vh::more(); ++k) {
            int n = r.range(0, 7);
            ad::OPhrase p;
            std::vector<Token> toks;
            SearchPath path;
            ad::Ints fi;
            for (int i = 0; i < n; ++i) {
                std::set<int> s;
                int m = r.range(1, 4);
                for (int j = 0; j < m; ++j) s.insert(r.pick(ins));
                p.push_back(ad::Ints(s.begin(), s.end()));
                fi.push_back(r.pick(p.back()));
            }
            toks = ad::tokens_of(p);
            for (auto &t : toks) { if (r.chance(50)) t.outclass((OutClass::Type) r.pick(outs)); if (r.chance(30)) t.attached((InClass::AttachType) 1); t.inLex(r.chance(50)); if (r.chance(10)) t.text(""); }
            if (n && r.chance(30)) fi[(size_t) r.range(0, n - 1)] = r.pick(ins);
            if (r.chance(10)) fi.push_back(r.pick(ins));
            if (n && r.chance(10)) fi.pop_back();
            if (n && r.chance(4)) toks[(size_t) r.range(0, n - 1)].inclass(std::set<InClass::Type>());
            std::string what;
            for (size_t i = 0; i < fi.size(); ) {
                size_t len = (size_t) r.range(1, 3);
                std::string a, b;
                for (size_t j = 0; j < len && i < fi.size(); ++j, ++i) { a += ad::name_of(ad::in_table(), fi[i]) + " "; b += " " + ad::name_of(ad::out_table(), r.pick(outs)); }
                if (r.chance(3)) path.rules.push_back(Rule());
                path.rules.push_back(Rule(a + "->" + b + " -> 0.5"));
                what += a + "->" + b;
                what += "| ";
            }
            apply(E, toks, path, "rules " + what + "phrase " + ad::phrase_str(p));
        }
        (void) before;
        for (int k = 0; k < vh::scale(500, 5000) && vh::more(); ++k) {
            auto g = ad::gen_grammar(r);
            std::string what = g.text();
            vh::begin("grammar:\n" + what, false);
            Grammar G(what.c_str());
            Search S(G);
            auto p = ad::gen_phrase(r, g);
            auto toks = ad::tokens_of(p);
            for (auto &x : S.search(toks)) {
                std::string in = "match " + ad::path_str(x) + " phrase " + ad::phrase_str(p) + "\ngrammar:\n" + what;
                apply(S, toks, x, in);
                auto t = toks;
                vh::check(S.reclassTokens(t, x), "a match of the phrase itself can be applied", "success", "failure");
                // to another phrase
                auto q = ad::gen_phrase(r, g);
                apply(S, ad::tokens_of(q), x, "match " + ad::path_str(x) + " other phrase " + ad::phrase_str(q));
            }
            // the best-match search reports the tagged phrase with its texts untouched
            float score, nr; std::string m;
            auto best = S.searchAndReclassBest(toks, score, m, nr);
            vh::begin("best of phrase " + ad::phrase_str(p) + "\ngrammar:\n" + what, best.size() > 0);
            if (best.size()) {
                vh::same("number of tokens", toks.size(), best.size());
                for (size_t i = 0; i < best.size(); ++i) {
                    vh::eq("text", toks[i].text(), best[i].text());
                    vh::eq("standard text", toks[i].stdtext(), best[i].stdtext());
                    vh::same("one class", (size_t) 1, best[i].inclass().size());
                    vh::check(toks[i].inclass().count(*best[i].inclass().begin()) > 0, "the class is one the token had");
                }
                vh::check(score > 0, "the best match of the phrase itself never fails to apply", "positive score", vh::str(score));
            }
        }
    });
}
