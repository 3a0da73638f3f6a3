// C25: a lexicon saved and loaded is the same lexicon
#include "iface.hpp"
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
using namespace ifc;
// everything a lexicon holds, as text
static std::string content(const Lexicon &l) {
    std::string s = "name " + vh::esc(l.name_) + " lang " + std::to_string((int) l.lang_) + " locale " + vh::esc(l.locale_) + "\nexpressions " + vh::esc(l.regex_) + " | " + vh::esc(l.regexPrefix_) + " | " + vh::esc(l.regexSuffix_) + "\ndigest " + l.md5_ + "\n";
    for (auto &w : l.lex_) {
        s += vh::esc(w.first) + ":";
        for (auto &e : w.second) {
            s += " (" + vh::esc(e.word_) + "," + vh::esc(e.stdword_) + ",";
            for (auto t : e.type_) s += std::to_string((int) t) + " ";
            s += ",";
            for (auto t : e.attached_) s += std::to_string((int) t) + " ";
            s += ")";
        }
        s += "\n";
    }
    return s;
}
static std::string saved(const Lexicon &l) { std::ostringstream os; { boost::archive::text_oarchive oa(os); oa << l; } return os.str(); }
static std::string load(const std::string &t, Lexicon &l) {
    try { std::istringstream is(t); boost::archive::text_iarchive ia(is); ia >> l; return "loads"; }
    catch (const std::exception &e) { return e.what(); }
}
// the class version in the text of an archive
static bool older(std::string &t) {
    for (const char *b : {" 0 ", " 1 "}) {
        std::string was = std::string(b) + "2 ", now = std::string(b) + "1 ";
        size_t p = t.find(was);
        if (p != std::string::npos && p < 60) { t.replace(p, was.size(), now); return true; }
    }
    return false;
}
static std::string fields(const STDADDR *a) {
    if (!a) return "nothing";
    std::string s;
    char *const *f = (char *const *) a;
    for (size_t i = 0; i < sizeof(STDADDR) / sizeof(char *); ++i) s += show(f[i]) + " ";
    return s;
}
static Lexicon fresh(const std::string &name) { std::istringstream is("LEXICON:\tsample\teng\ten_US\n"); return Lexicon(name, is); }
// a lexicon with words of any letters, as the library builds one
static Lexicon any(vh::Rng &r) {
    static const Words w = {"OAK", "N", "", " ", "A B", "22", "0", "\xC3\x89T\xC3\x89", "A-B", "x", "STREET", "q\tq", "l\nl", "\"", "()"};
    Lexicon l = fresh(r.pick(Words{"sample", "", "a b", "7"}));
    l.lang_ = (InClass::Lang) r.range(0, 4);
    l.locale_ = r.pick(Words{"en_US", "", "tr_TR", "x y", "C", "POSIX", "en", "de_DE.UTF-8"});
    for (int n = r.below(6); n > 0; --n) {
        LexEntry e;
        e.word_ = r.pick(w); e.stdword_ = r.pick(w);
        for (int k = r.below(4); k > 0; --k) e.type_.insert((InClass::Type) r.range(-1, 30));
        for (int k = r.below(3); k > 0; --k) e.attached_.insert((InClass::AttachType) r.range(0, 3));
        l.lex_[r.pick(w)].push_back(e);
    }
    l.regex_ = r.pick(w); l.regexPrefix_ = r.pick(w); l.regexSuffix_ = r.pick(w); l.md5_ = r.pick(w);
    return l;
}
int main(int argc, char **argv) {
    return vh::run(argc, argv, "random lexicons, saved and loaded, and random lexicon texts through serialize_lexicon and the interface; non-trivial when the lexicon has a word",
        [](vh::Rng &r) {
        for (int k = 0; k < vh::scale(500, 6000) && vh::more(); ++k) {
            {
                Lexicon l = any(r);
                vh::begin("a lexicon built in memory\n" + content(l), !l.lex_.empty());
                std::string t = saved(l);
                Lexicon m = any(r);                // what was in it before goes away
                vh::eq("loading the archive", "loads", load(t, m));
                vh::eq("the loaded lexicon", content(l), content(m));
                vh::eq("the archive of the loaded lexicon", t, saved(m));
                if (older(t)) { Lexicon o = fresh(""); vh::eq("loading an archive of an older version", "Re-compile-lexicon", load(t, o)); }
                else vh::check(false, "the class version in the archive", "2", "not found");
            }
            Case t = gen(r, 4);
            vh::begin(t.what, true);
            char *err = nullptr;
            char *s = serialize_lexicon(c(t.lextext), &err);
            vh::eq("serialize_lexicon", "an archive, no error text", std::string(s ? "an archive" : "nothing") + (err ? ", an error text" : ", no error text"));
            if (!s) { free(err); continue; }
            std::string text = s;
            Lexicon want = lexicon_of(t.lextext);
            want.regex(); want.regexPrefixAtt(); want.regexSuffixAtt();
            Lexicon *got = (Lexicon *) getLexiconPtr(s, &err);
            vh::check(got != nullptr, "the archive handed to getLexiconPtr", "a lexicon", "nothing");
            if (got) {
                vh::eq("the lexicon of the archive", content(want), content(*got));
                char *d = getLexiconMd5(got);
                vh::eq("its digest", want.md5_, show(d).substr(1, want.md5_.size()));
                free(d);
            }
            freeLexiconPtr(got);
            // the same answers
            char *e1 = nullptr, *e2 = nullptr;
            STDADDR *a = std_standardize(c(t.address), c(t.gtext), c(t.lextext), c(t.locale), c(t.filter), &e1);
            STDADDR *b = std_standardize(c(t.address), c(t.gtext), s, c(t.locale), c(t.filter), &e2);
            vh::eq("standardizing with the archive", fields(a) + show(e1), fields(b) + show(e2));
            release(a); release(b); free(e1); free(e2);
            if (older(text)) {
                err = nullptr;
                void *p = getLexiconPtr(c(text), &err);
                vh::eq("an archive of an older version handed to getLexiconPtr", "nothing, \"Re-compile-lexicon\"", std::string(p ? "a lexicon, " : "nothing, ") + show(err));
                freeLexiconPtr(p); free(err);
            }
            free(s);
        }
    });
}
