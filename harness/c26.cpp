// C26: lexicon text loads to its entries and dumps back
#include "vh.hpp"
#include "lexicon.h"
#include "lexentry.h"
struct Def {
    std::string word, stdword;
    std::set<int> type, att;
    bool operator==(const Def &o) const { return word == o.word && stdword == o.stdword && type == o.type && att == o.att; }
    bool operator!=(const Def &o) const { return !(*this == o); }
};
static const char *CN[] = {"NUMBER", "WORD", "TYPE", "QUALIF", "ROAD", "STOPWORD", "RR", "DASH", "CITY", "PROV", "NATION", "AMPERS", "BOXH", "ORD", "UNITH", "UNITT", "SINGLE", "BUILDH", "MILE", "DOUBLE", "DIRECT", "MIXED", "BUILDT", "FRACT", "PCT", "PCH", "QUINT", "QUAD", "SPACE", "PUNCT"};
static const int CV[] = {InClass::NUMBER, InClass::WORD, InClass::TYPE, InClass::QUALIF, InClass::ROAD, InClass::STOPWORD, InClass::RR, InClass::DASH, InClass::CITY, InClass::PROV, InClass::NATION, InClass::AMPERS, InClass::BOXH, InClass::ORD, InClass::UNITH, InClass::UNITT, InClass::SINGLE, InClass::BUILDH, InClass::MILE, InClass::DOUBLE, InClass::DIRECT, InClass::MIXED, InClass::BUILDT, InClass::FRACT, InClass::PCT, InClass::PCH, InClass::QUINT, InClass::QUAD, InClass::SPACE, InClass::PUNCT};
static const char *AN[] = {"DET_PRE", "DET_SUF", "ATT_PRE", "ATT_SUF"};
static const int AV[] = {InClass::DET_PRE, InClass::DET_SUF, InClass::ATT_PRE, InClass::ATT_SUF};
static const char *LC[] = {"ENG", "FRE", "GER", "SPA", "ITA", "TUR", "POR", "ENGLISH", "FRENCH", "nonsense", ""};
static const int LV[] = {InClass::ENG, InClass::FRE, InClass::GER, InClass::SPA, InClass::ITA, InClass::TUR, InClass::POR, InClass::ENG, InClass::FRE, InClass::UNKNOWN, InClass::UNKNOWN};
// a piece of text: as written, in normal form, in upper case, in upper case in Turkish
struct Piece { const char *raw, *nfc, *up, *tr; };
static const std::vector<Piece> PIECES = {
    {"a", "a", "A", "A"}, {"B", "B", "B", "B"}, {"i", "i", "I", "\xC4\xB0"}, {"z", "z", "Z", "Z"}, {"7", "7", "7", "7"}, {"-", "-", "-", "-"}, {".", ".", ".", "."},
    {"\xC3\xA9", "\xC3\xA9", "\xC3\x89", "\xC3\x89"}, {"e\xCC\x81", "\xC3\xA9", "\xC3\x89", "\xC3\x89"}, {"A\xCC\x8A", "\xC3\x85", "\xC3\x85", "\xC3\x85"},
    {"\xC3\x9F", "\xC3\x9F", "SS", "SS"}, {"\xD1\x8F", "\xD1\x8F", "\xD0\xAF", "\xD0\xAF"}, {"\xE2\x84\xAB", "\xC3\x85", "\xC3\x85", "\xC3\x85"},
    {"x ", "x ", "X ", "X "}, {"x   ", "x ", "X ", "X "}, {"\xF0\x9F\x98\x80", "\xF0\x9F\x98\x80", "\xF0\x9F\x98\x80", "\xF0\x9F\x98\x80"},
};
static void word(vh::Rng &r, const std::string &locale, std::string &raw, std::string &got, int minlen, int maxlen) {
    int n = r.range(minlen, maxlen);
    raw = got = "";
    for (int i = 0; i < n; ++i) {
        const Piece &p = r.pick(PIECES);
        raw += p.raw;
        got += locale.empty() ? p.nfc : locale.substr(0, 2) == "tr" ? p.tr : p.up;
    }
}
static Def of(const LexEntry &e) {
    Def d;
    d.word = e.word();
    d.stdword = e.stdword();
    for (auto x : e.type()) d.type.insert((int) x);
    for (auto x : e.attached()) d.att.insert((int) x);
    return d;
}
static std::string show(const Def &d) { return d.word + "/" + d.stdword + "/" + vh::join(d.type, ",") + "/" + vh::join(d.att, ","); }
static std::string show(const std::vector<Def> &v) { std::string s; for (auto &d : v) s += "[" + show(d) + "]"; return s; }
static std::vector<Def> defs(Lexicon &l, const std::string &w) { std::vector<Def> v; for (auto &e : l.find(w)) v.push_back(of(e)); return v; }
static void classes(vh::Rng &r, Def &d, std::string &types, std::string &atts) {
    int n = r.chance(10) ? 0 : r.range(1, 3);
    types = atts = "";
    for (int i = 0; i < n; ++i) {
        int k = r.below(30);
        types += (i ? r.chance(20) ? " , " : "," : "") + std::string(CN[k]);
        d.type.insert(CV[k]);
    }
    n = r.chance(50) ? 0 : r.range(1, 2);
    for (int i = 0; i < n; ++i) {
        int k = r.below(4);
        atts += (i ? "," : "") + std::string(AN[k]);
        d.att.insert(AV[k]);
    }
}
typedef std::map<std::string, std::vector<Def>> Model;
static void put(Model &m, const Def &d) {
    auto &v = m[d.word];
    for (auto &x : v) if (x == d) return;
    v.push_back(d);
}
static size_t lines(const std::string &s) { size_t n = 0; for (char c : s) n += c == '\n'; return n; }
static void compare(const std::string &what, Lexicon &l, const Model &m) {
    size_t n = 0;
    for (auto &p : m) {
        n += p.second.size();
        vh::eq(what + ": definitions of '" + p.first + "'", show(p.second), show(defs(l, p.first)));
    }
    std::ostringstream o;
    o << l;
    vh::same<size_t>(what + ": number of lines written", n + 1, lines(o.str()));
}
static bool load(Lexicon &l, const std::string &text) {
    std::istringstream is(text);
    try { l.initialize(is); } catch (const std::runtime_error &) { return false; }
    return true;
}
static void text_case(vh::Rng &r) {
    static const std::vector<std::string> LOC = {"", "", "en_US", "fr_FR", "de_DE", "tr_TR", "es"};
    std::string locale = r.pick(LOC), text;
    int lang = r.below(11), fault = r.chance(35) ? r.range(1, 6) : 0;
    if (r.chance(40)) text += "\xEF\xBB\xBF";
    int junk = r.chance(25) ? r.range(1, 3) : 0;
    for (int i = 0; i < junk; ++i) text += r.chance(30) ? "\n" : r.chance(50) ? "# a comment\n" : " LEXENTRY:\tx\tx\tWORD\t\n";
    if (fault == 1) text += "LEXENTRY:\tab\tab\tWORD\t\n";
    if (fault == 2) text += r.chance(50) ? "LEXICON: x\tENG\n" : "lexicon:\tname\tENG\t\t\n";
    else if (fault != 3) text += std::string("LEXICON:\t") + (r.chance(50) ? "name" : "") + "\t" + LC[lang] + "\t" + locale + (r.chance(70) ? "\t12\n" : "\n");
    bool bad = fault == 1 || fault == 2 || fault == 3;
    Model m;
    int n = r.range(0, 8), at = n ? r.below(n) : 0;
    std::vector<std::string> raws, gots;
    for (int i = 0; i < 4; ++i) { std::string a, b; word(r, locale, a, b, r.chance(4) ? 0 : 1, 3); raws.push_back(a); gots.push_back(b); }
    for (int i = 0; i < n; ++i) {
        if (fault == 4 && i == at) { text += r.chance(30) ? "something else\n" : r.chance(30) ? "Lexentry:\ta\ta\tWORD\t\n" : r.chance(50) ? " LEXENTRY:\ta\ta\tWORD\t\n" : "LEXENTR\n"; bad = true; }
        if (fault == 5 && i == at) { text += std::string("LEXENTRY:\ta\ta\t") + (r.chance(50) ? "WORD,NOTHING" : "BADTOKEN") + "\t\n"; bad = true; }
        Def d;
        std::string raw, got, types, atts;
        int k = r.below(4);
        d.word = gots[k];
        word(r, locale, raw, got, 0, 3);
        d.stdword = got;
        classes(r, d, types, atts);
        text += std::string(r.chance(70) ? "LEXENTRY:" : "LexEntry:") + "\t" + raws[k] + "\t" + raw + "\t" + types + "\t" + atts + "\n";
        put(m, d);
        if (r.chance(10)) text += "\n";
    }
    if (!n && (fault == 4 || fault == 5)) bad = false;
    if (r.chance(30) && !text.empty() && text.back() == '\n') text.pop_back();
    // two blanks next to each other over the edge of two pieces become one in the text and in what is expected
    auto squeeze = [](std::string s) { std::string o; for (char c : s) if (!(c == ' ' && !o.empty() && o.back() == ' ')) o += c; return o; };
    Model q;
    for (auto &p : m) for (auto d : p.second) { d.word = squeeze(d.word); d.stdword = squeeze(d.stdword); put(q, d); }
    // the order of words that become the same is that of the text
    if (q.size() != m.size()) return;
    for (auto &p : q) if (p.second.size() > 1) { std::vector<Def> all; for (auto &x : m) if (squeeze(x.first) == p.first) { Model one; for (auto d : x.second) { d.word = squeeze(d.word); d.stdword = squeeze(d.stdword); put(one, d); } all = one[p.first]; } p.second = all; }
    vh::begin("load: " + text, n > 0);
    Lexicon l(std::string("own"));
    bool ok = load(l, text);
    vh::check(ok == !bad, "the text is " + std::string(bad ? "refused" : "loaded"), bad ? "refused" : "loaded", ok ? "loaded" : "refused");
    if (bad) return;
    vh::same<int>("language", LV[lang], (int) l.lang());
    vh::eq("locale", locale, l.locale());
    vh::eq("name", "own", l.name());
    compare("loaded", l, q);
    // and back
    std::ostringstream o;
    o << l;
    Lexicon b(std::string("own"));
    vh::check(load(b, o.str()), "what was written is loaded", "loaded", "refused: " + o.str());
    vh::same<int>("language after writing and reading", (int) l.lang(), (int) b.lang());
    vh::eq("locale after writing and reading", locale, b.locale());
    compare("after writing and reading", b, q);
    std::ostringstream o2;
    o2 << b;
    vh::eq("written again", o.str(), o2.str());
    // the other way of reading
    std::vector<char> z(text.begin(), text.end());
    z.push_back(0);
    Lexicon c(z.data());
    vh::same<int>("language (text)", LV[lang], (int) c.lang());
    compare("loaded (text)", c, q);
}
static void entry_case(vh::Rng &r) {
    Def d;
    std::string raw, types, atts;
    word(r, "", raw, d.word, 0, 4);
    word(r, "", raw, d.stdword, 0, 4);
    classes(r, d, types, atts);
    LexEntry e;
    e.word(d.word);
    e.stdword(d.stdword);
    std::set<InClass::Type> t;
    std::set<InClass::AttachType> a;
    for (int x : d.type) t.insert((InClass::Type) x);
    for (int x : d.att) a.insert((InClass::AttachType) x);
    e.type(t);
    e.attached(a);
    vh::begin("entry: " + show(d));
    std::ostringstream o;
    o << e;
    LexEntry b(o.str());
    vh::eq("entry written as " + o.str() + " and read", show(d), show(of(b)));
    // without the keyword
    std::string line = o.str().substr(o.str().find('\t') + 1);
    if (!d.word.empty()) vh::eq("entry read from " + line, show(d), show(of(LexEntry(line))));
}
int main(int c, char **v) {
    return vh::run(c, v, "a lexicon text with byte order mark, lines before the header, languages, locales, entries in several spellings, and faults; written and read again; entries written and read", [](vh::Rng &r) {
        int n = vh::scale(6000, 60000);
        for (int i = 0; i < n && vh::more(); ++i) { text_case(r); entry_case(r); }
    });
}
