// C14: code points written and read back, stepping over text in both directions
#include "vh.hpp"
#include "utf8iterator.h"
static std::string enc(unsigned c) {           // written from RFC 3629, table 3-6
    std::string o;
    int n = c < 0x80 ? 0 : c < 0x800 ? 1 : c < 0x10000 ? 2 : 3;
    static const unsigned lead[] = {0, 0xC0, 0xE0, 0xF0};
    o += (char) (unsigned char) (lead[n] + (c >> (6 * n)));
    while (n-- > 0) o += (char) (unsigned char) (0x80 + ((c >> (6 * n)) & 0x3F));
    return o;
}
static std::string num(unsigned c) { char b[16]; snprintf(b, sizeof b, "U+%04X", c); return b; }
static std::string nums(const std::vector<unsigned> &v) { std::string s; for (auto c : v) s += num(c) + " "; return s; }
static unsigned any(vh::Rng &r) {
    static const std::vector<unsigned> edge = {0x7F, 0x80, 0xBF, 0xC0, 0xFF, 0x100, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF, 1, 0x20, 0x41};
    switch (r.below(6)) {
        case 0: return r.pick(edge);
        case 1: return 1 + r.below(0x7F);
        case 2: return 0x80 + r.below(0x800 - 0x80);
        case 3: return 0x800 + r.below(0x10000 - 0x800);
        case 4: return 0x10000 + r.below(0x110000 - 0x10000);
        default: return 1u << r.below(21);
    }
}
static void one(unsigned c) {
    std::string w;
    bool thrown = false;
    try { w = CodePointToUtf8((char32_t) c); } catch (...) { thrown = true; }
    if (c >= 0x110000) { if (!thrown) vh::fail("a number that is no code point is refused", "an exception", "the text " + w); return; }
    if (thrown) { vh::fail("a code point is written", enc(c), "an exception"); return; }
    vh::same("the UTF-8 form of " + num(c), enc(c), w);
    Utf8Iterator it(w.cbegin());
    vh::same("the form of the code point reads back", num(c), num((unsigned) *it));
    ++it;
    if (!(it == w.cend())) vh::fail("one step passes the code point", "the end of the text", "another place");
}
static void text(const std::vector<unsigned> &v, vh::Rng &r) {
    std::string t;
    std::vector<size_t> at;
    for (auto c : v) { at.push_back(t.size()); t += enc(c); }
    at.push_back(t.size());
    Utf8Iterator b(t.cbegin()), e(t.cend()), it(t.cbegin());
    std::vector<unsigned> got;
    for (size_t i = 0; i < v.size() + 1 && !(it == e); ++i, ++it) got.push_back((unsigned) *it);
    vh::same("stepping forward", nums(v), nums(got));
    if (it != e) vh::fail("stepping forward ends at the end of the text", "the end", "another place");
    std::vector<unsigned> back;
    for (size_t i = 0; i < v.size() && it != b; ++i) { --it; back.insert(back.begin(), (unsigned) *it); }
    vh::same("stepping backward", nums(v), nums(back));
    // a random walk
    size_t k = 0;
    Utf8Iterator w(t.cbegin());
    std::string path;
    for (int s = 0; s < 30 && !v.empty(); ++s) {
        bool fwd = k == 0 || (k < v.size() && r.chance(55));
        int form = (int) r.below(3);
        if (fwd) {
            if (form == 0) ++w;
            else if (form == 1) { Utf8Iterator o = w++; vh::same("the value of it++", num(v[k]), num((unsigned) *o)); }
            else { Utf8Iterator c(w); ++c; w = c; }
            ++k;
            path += '+';
        }
        else {
            if (form == 0) --w;
            else if (form == 1) { Utf8Iterator o = w--; if (!(o == (t.cbegin() + (long) at[k]))) vh::fail("it-- returns the place before the step", path, "another place"); }
            else { Utf8Iterator c(w); --c; w = c; }
            --k;
            path += '-';
        }
        if (!(w == (t.cbegin() + (long) at[k]))) { vh::fail("the place after the steps " + path, std::to_string(at[k]), "another place"); return; }
        if (k < v.size() && r.chance(60)) vh::same("the code point after the steps " + path, num(v[k]), num((unsigned) *w));
        vh::same("the text from here to the end", t.substr(at[k]), w.substr(e));
    }
}
int main(int c, char **v) {
    return vh::run(c, v, "every code point (thorough) or a sample with every boundary, numbers above the last code point, random texts of 0 to 12 code points walked forward, backward and at random; non-trivial when the text has a code point outside ASCII",
        [](vh::Rng &r) {
        for (unsigned p = 1; p < 0x110000; p += vh::st().thorough ? 1 : 7) if (vh::begin("code point " + num(p), p > 127)) one(p);
        for (unsigned b = 0; b < 21; ++b) for (int d = -2; d <= 2; ++d) { unsigned p = (1u << b) + (unsigned) d; if (p > 0 && p < 0x110000 && vh::begin("code point " + num(p), true)) one(p); }
        for (unsigned p : {0x110000u, 0x110001u, 0x1FFFFFu, 0x200000u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu}) if (vh::begin("number " + num(p), true)) one(p);
        for (int k = 0; k < vh::scale(40000, 400000) && vh::more(); ++k) {
            std::vector<unsigned> t;
            int n = r.range(0, 12);
            bool wide = false;
            for (int i = 0; i < n; ++i) { t.push_back(any(r)); wide = wide || t.back() > 127; }
            if (vh::begin("text " + nums(t), wide)) text(t, r);
        }
    });
}
