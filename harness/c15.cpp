// C15: the prefix tree holds the words added, and its expression matches them and nothing else
#include "vh.hpp"
#include "trieutf8.h"
#include <algorithm>
#include <boost/regex.hpp>
#include <boost/regex/icu.hpp>
static std::string pick_char(vh::Rng &r) {
    static const std::vector<std::string> plain = {"A", "B", "C", "a", "b", "1", "2", " "};
    static const std::vector<std::string> meta = {"-", ".", "+", "*", "^", "$", "(", ")", "[", "]", "{", "}", "\\", "|", "?", "~", "/", "&", "#", "'", ":", "=", ",", "<", ">", "!", "@", "%", "\"", ";", "_"};
    static const std::vector<std::string> wide = {"\xC3\xA9", "\xC3\x89", "\xC3\x9F", "\xE2\x82\xAC", "\xE4\xB8\xAD", "\xF0\x9F\x9A\x97", "\xC2\xBF", "\xEF\xBD\x81"};
    int k = (int) r.below(10);
    return r.pick(k < 5 ? plain : k < 8 ? meta : wide);
}
static std::vector<std::string> chars(const std::string &s) {
    std::vector<std::string> v;
    for (char c : s) { if (((unsigned char) c & 0xC0) != 0x80) v.push_back(""); v.back() += c; }
    return v;
}
static std::string show(const std::set<std::string> &s) { return "{" + vh::join(s, ", ") + "}"; }
int main(int c, char **v) {
    return vh::run(c, v, "random sequences of 1 to 12 words (0 to 5 characters of a small alphabet with all characters that have a meaning in expressions and characters of two to four bytes, many sharing prefixes); non-trivial when two words share a prefix or a word has a special character",
        [](vh::Rng &r) {
        for (int k = 0; k < vh::scale(6000, 80000) && vh::more(); ++k) {
            std::vector<std::string> seq, alphabet;
            int m = r.range(1, 4);
            for (int i = 0; i < m; ++i) alphabet.push_back(pick_char(r));
            int n = r.range(1, 12);
            for (int i = 0; i < n; ++i) {
                std::string w;
                if (!seq.empty() && r.chance(50)) { auto cs = chars(r.pick(seq)); size_t take = r.below(cs.size() + 1); for (size_t q = 0; q < take; ++q) w += cs[q]; }
                int len = r.range(0, 3);
                for (int q = 0; q < len; ++q) w += r.chance(85) ? r.pick(alphabet) : pick_char(r);
                seq.push_back(w);
            }
            std::set<std::string> want(seq.begin(), seq.end());
            want.erase("");
            bool special = want.size() > 1;
            if (!vh::begin("words added: " + vh::join(seq, " | "), special)) continue;
            TrieUtf8 t, u;
            for (auto &w : seq) t.addWord(w);
            auto rev = seq;
            for (size_t i = rev.size(); i > 1; --i) std::swap(rev[i - 1], rev[r.below(i)]);
            for (auto &w : rev) u.addWord(w);
            WordSet got, got2;
            t.getWords(got);
            vh::eq("the words reported", show(want), show(std::set<std::string>(got.begin(), got.end())));
            u.getWords(got2);
            vh::eq("the words reported after another order of addition", show(want), show(std::set<std::string>(got2.begin(), got2.end())));
            // candidates: the words, their prefixes, their mutations
            std::set<std::string> cand(want);
            cand.insert("");
            for (auto &w : want) {
                auto cs = chars(w);
                std::string p;
                for (auto &x : cs) { p += x; cand.insert(p); }
                for (size_t q = 0; q < cs.size(); ++q) {
                    auto d = cs; d[q] = r.chance(60) ? r.pick(alphabet) : pick_char(r);
                    cand.insert(vh::join(d, ""));
                    d = cs; d.erase(d.begin() + (long) q); cand.insert(vh::join(d, ""));
                    d = cs; d.insert(d.begin() + (long) q, r.chance(50) ? cs[q] : pick_char(r)); cand.insert(vh::join(d, ""));
                }
                cand.insert(w + r.pick(alphabet));
                cand.insert(w + w);
                cand.insert(w + "\\");
            }
            if (want.empty()) continue;
            std::string rx = t.getRegexp(), rx2 = u.getRegexp();
            boost::u32regex re, re2;
            try { re = boost::make_u32regex(rx); re2 = boost::make_u32regex(rx2); }
            catch (const std::exception &e) { vh::fail("the expression can be read: " + rx, "an expression", e.what()); }
            for (auto &x : cand) {
                bool is = want.count(x) != 0;
                vh::same("isWord(" + x + ")", is, t.isWord(x));
                bool pre = false;
                for (auto &w : want) pre = pre || w.compare(0, x.size(), x) == 0;
                vh::same("isPrefix(" + x + ")", pre || x.empty(), t.isPrefix(x));
                WordSet ws;
                t.getWordsStartingWith(x, ws);
                std::set<std::string> exp;
                for (auto &w : want) if (w.compare(0, x.size(), x) == 0) exp.insert(w);
                vh::eq("words starting with " + x, show(exp), show(std::set<std::string>(ws.begin(), ws.end())));
                vh::same("the expression " + rx + " matches " + x, is, boost::u32regex_match(x, re));
                vh::same("the expression " + rx2 + " matches " + x, is, boost::u32regex_match(x, re2));
            }
        }
    });
}
