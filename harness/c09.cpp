// C09: the classes of a token come from the lexicon first and from the shape of its text second
#include "vh.hpp"
#include "lexicon.h"
typedef InClass I;
static bool D(const std::string &c) { return c.size() == 1 && isdigit((unsigned char) c[0]); }
static bool A(const std::string &c) { return c.size() == 1 && isalpha((unsigned char) c[0]); }
static bool W(const std::string &c) { return D(c) || A(c) || c == "_" || c == "\xC3\xA9" || c == "\xC3\x89" || c == "\xC3\x9F" || c == "\xE4\xB8\xAD"; }
static bool S(const std::string &c) { return c == " " || c == "\t" || c == "\n" || c == "\r" || c == "\f"; }
static bool P(const std::string &c) { return c == "\xE2\x80\x94" || c.size() == 1 && ispunct((unsigned char) c[0]); }
static std::vector<std::string> chars(const std::string &s) {
    std::vector<std::string> v;
    for (char c : s) { if (((unsigned char) c & 0xC0) != 0x80) v.push_back(""); v.back() += c; }
    return v;
}
template<class F> bool all(const std::vector<std::string> &v, size_t a, size_t b, F f) { if (a >= b) return false; for (size_t i = a; i < b; ++i) if (!f(v[i])) return false; return true; }
static std::set<int> shape(const std::string &t, std::string &text) {
    auto v = chars(t);
    size_t n = v.size();
    text = t;
    for (size_t k = 1; k + 1 < n; ++k) if (all(v, 0, k, D) && all(v, k + 1, n, D)) {
        if (v[k] == "," || v[k] == ".") { text[k] = '.'; return {I::NUMBER}; }
        if (v[k] == "/") return {I::FRACT};
    }
    if (all(v, 0, n, D)) {
        std::set<int> s{I::NUMBER};
        if (n == 4) s.insert(I::QUAD);
        if (n == 5) s.insert(I::QUINT);
        return s;
    }
    if (t == "@") return {I::ATSIGN};
    if (t == "/") return {I::SLASH};
    if (t == "&") return {I::AMPERS};
    for (size_t a = 1; a <= 2; ++a) for (size_t b = 1; b <= 2; ++b)
        if (a + b <= n && n <= a + b + 1 && all(v, 0, a, A) && all(v, a, a + b, D) && (n == a + b || A(v[n - 1]))) return {I::MIXED, I::PCH};
    if (n == 3 && D(v[0]) && A(v[1]) && (D(v[2]) || A(v[2]))) return {I::MIXED, I::PCT};
    if (all(v, 0, n, W)) {
        for (auto &c : v) if (D(c)) return {I::MIXED};
        if (t.size() == 1) return {I::WORD, I::SINGLE};
        if (t.size() == 2) return {I::WORD, I::DOUBLE};
        return {I::WORD};
    }
    if (t == "\xE2\x80\x94") return {I::EMDASH};
    if (all(v, 0, n, [](const std::string &c) { return c == "-"; })) return {I::DASH};
    if (all(v, 0, n, S)) return {I::SPACE};
    if (all(v, 0, n, P)) return {I::PUNCT};
    return {};
}
static std::string text(vh::Rng &r) {
    static const std::vector<std::string> whole = {"@", "/", "&", "-", "--", "---", "\xE2\x80\x94", "\xE2\x80\x94\xE2\x80\x94", "", " ", "\t ", "|", "||", "|.", "A1", "AB12C", "AB12CD", "ABC1", "A123", "A12B", "1A2", "1AB", "1A22", "12A", "1ABC", "a1b", "1a2", "1aB", "1/2", "11/22", "1/", "/2", "1//2", "1/2/3", "1.5", "1,5", "12,345", "1,2,3", "1.2.3", ",5", "5,", ".", ",", "1-2", "A-B", "1234", "12345", "123456", "123", "0", "ab", "A", "a_b", "_", "__", "@@", "&&", "A&B", "\xC3\xA9", "\xC3\xA9t", "\xC3\x89", "1\xC3\xA9", "\xC3\xA9" "1", "x y", "1 2", "A1B2", "ABCD", "Z9Z", "#", "#1", "'", "N.W.", "\xE4\xB8\xAD", "1234A", "A12345"};
    if (r.chance(35)) return r.pick(whole);
    static const std::vector<std::string> cls[] = {{"0", "1", "7", "9"}, {"A", "b", "Z", "q"}, {",", ".", "/", "-"}, {"@", "&", "|", "#", "'", "("}, {" ", "\t"}, {"\xC3\xA9", "\xC3\x89", "\xE4\xB8\xAD"}};
    std::string s;
    int n = r.range(1, 6), a = (int) r.below(6), b = (int) r.below(6);
    for (int i = 0; i < n; ++i) s += r.pick(cls[r.chance(70) ? a : b]);
    return s;
}
int main(int c, char **v) {
    return vh::run(c, v, "random texts of 1 to 6 characters of two kinds and a list of border cases, looked up in a lexicon with 0 to 4 definitions of the text; non-trivial when the text has definitions or a shape",
        [](vh::Rng &r) {
        for (int k = 0; k < vh::scale(2500, 30000) && vh::more(); ++k) {
            std::string t = text(r);
            Lexicon x{std::string("lex")};
            std::set<int> classes;
            int n = r.chance(40) ? r.range(1, 4) : 0;
            std::string in = "text '" + t + "' definitions";
            for (int i = 0; i < n + 2; ++i) {
                LexEntry e;
                bool other = i >= n;
                e.word(other ? t + (i == n ? "X" : " ") : t);
                e.stdword("S" + std::to_string(i));
                std::set<I::Type> ts;
                int m = r.chance(10) ? 0 : r.range(1, 3);
                for (int q = 0; q < m; ++q) ts.insert((I::Type) r.range(0, 34));
                e.type(ts);
                x.insert(e);
                if (other) continue;
                in += " " + vh::join(ts, ",");
                for (auto q : ts) classes.insert((int) q);
            }
            int fb = r.range(0, 34);
            std::string want_text = t;
            std::set<int> want = classes;
            bool known = !classes.empty();
            if (!known) want = shape(t, want_text);
            bool nt = !want.empty();
            if (!known && want.empty()) want.insert(fb);
            if (!vh::begin(in + " fallback " + std::to_string(fb), nt)) continue;
            Token tok;
            tok.text(t);
            tok.inLex(r.chance(50));
            std::set<I::AttachType> att{(I::AttachType) r.range(0, 3)};
            tok.attached(att);
            x.classify(tok, (I::Type) fb);
            std::set<int> got;
            for (auto q : tok.inclass()) got.insert((int) q);
            vh::eq("the classes of the token", vh::join(want), vh::join(got));
            vh::same("the mark of a known word", known, tok.inLex());
            vh::eq("the text of the token", want_text, tok.text());
            vh::check(tok.attached() == att && tok.stdtext().empty(), "nothing else changes");
        }
    });
}
