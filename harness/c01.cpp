// C01: every combination of one class per token is enumerated exactly once
#include "addr.hpp"
int main(int c, char **v) {
    return vh::run(c, v, "random token sequences (0-7 tokens, 0-5 distinct classes each) plus every shape of up to 4 tokens with 0-3 classes; non-trivial when at least two combinations exist",
        [](vh::Rng &r) {
        auto codes = ad::values(ad::in_table());
        auto one = [&](const ad::OPhrase &p) {
            auto want = ad::choices(p);
            vh::begin(ad::phrase_str(p), want.size() > 1);
            auto toks = ad::tokens_of(p);
            auto got = Token::enumerate(toks);
            std::map<std::string, int> a, b;
            for (auto &w : want) ++a[vh::join(w)];
            for (auto &g : got) { std::string s; for (auto e : g) s += (s.size() ? " " : "") + std::to_string((int) e); ++b[s]; }
            for (auto &e : a) if (b[e.first] != 1) vh::fail("combination [" + e.first + "] listed", "exactly once", std::to_string(b[e.first]) + " times");
            for (auto &e : b) if (e.second && !a.count(e.first)) vh::fail("listed sequence is a combination", "one class of each token, in order", e.first);
            vh::same("number of combinations", want.size(), got.size());
        };
        // every shape
        for (int n = 0; n <= 4; ++n) {
            int tot = 1;
            for (int i = 0; i < n; ++i) tot *= 4;
            for (int s = 0; s < tot; ++s) {
                ad::OPhrase p;
                int x = s;
                for (int i = 0; i < n; ++i) {
                    std::set<int> cs;
                    while ((int) cs.size() < x % 4) cs.insert(r.pick(codes));
                    p.push_back(ad::Ints(cs.begin(), cs.end()));
                    x /= 4;
                }
                one(p);
            }
        }
        for (int k = 0; k < vh::scale(600, 6000) && vh::more(); ++k) {
            ad::OPhrase p;
            int n = r.range(0, 7);
            long tot = 1;
            for (int i = 0; i < n; ++i) {
                std::set<int> cs;
                int m = r.chance(2) ? 0 : r.range(1, r.chance(10) ? 9 : 4);
                if (tot * m > 3000) m = 1;
                tot *= m ? m : 1;
                while ((int) cs.size() < m) cs.insert(r.pick(codes));
                p.push_back(ad::Ints(cs.begin(), cs.end()));
            }
            one(p);
            // repeated sets: equal tokens must still be told apart by position
            if (n >= 2 && k % 3 == 0) { p[1] = p[0]; if (ad::choices(p).size() < 4000) one(p); }
        }
        for (int m : {20, 30, 35}) {
            std::set<int> cs;
            while ((int) cs.size() < m) cs.insert(r.pick(codes));
            one({ad::Ints(cs.begin(), cs.end()), ad::Ints(cs.begin(), cs.end())});
        }
    });
}
