// C13: class names and class sets survive the trip through text
#include "addr.hpp"
int main(int c, char **v) {
    return vh::run(c, v, "all class, output-class, attachment and language codes, codes outside the tables, random subsets of classes and random text lists; non-trivial: sets of two or more classes",
        [](vh::Rng &r) {
        auto &in = ad::in_table();
        auto &out = ad::out_table();
        for (int i = -5; i < 130; ++i) {
            vh::begin("input class code " + std::to_string(i), false);
            bool known = false;
            for (auto &e : in) known |= e.second == i;
            vh::same("class of code", known ? i : 99, (int) InClass::asType(i));
            if (known) {
                std::string n = InClass::asString((InClass::Type) i);
                vh::eq("name of class", ad::name_of(in, i), n);
                vh::same("class of its name", i, (int) InClass::asOneType(n));
            }
            known = false;
            for (auto &e : out) known |= e.second == i;
            vh::begin("output class code " + std::to_string(i), false);
            vh::same("output class of code", known ? i : 99, (int) OutClass::asType(i));
            if (known) {
                std::string n = OutClass::asString((OutClass::Type) i);
                vh::eq("name of output class", ad::name_of(out, i), n);
                vh::same("output class of its name", i, (int) OutClass::asType(n));
            }
        }
        auto words = [&]() {
            static const std::vector<std::string> w = {"", "number", "WORDS", "WOR", "NUMBER ", " TYPE", "99", "->", "TYPES", "R", "RRR", "DET_PRE", "HOUSE", "STREET", "EXTRA", "SUFTYP", "POSTAL", "WORD,TYPE"};
            return r.chance(50) ? r.pick(w) : std::string(1, (char) ('A' + r.range(0, 25))) + r.pick(w);
        };
        for (int k = 0; k < 3000; ++k) {
            std::string w = words();
            vh::begin("word '" + w + "'", false);
            vh::same("input class of word", in.count(w) ? in.at(w) : 99, (int) InClass::asOneType(w));
            vh::same("output class of word", out.count(w) ? out.at(w) : 99, (int) OutClass::asType(w));
        }
        auto codes = ad::values(in);
        for (int k = 0; k < vh::scale(20000, 200000) && vh::more(); ++k) {
            std::set<InClass::Type> s;
            int n = r.range(0, k % 5 == 0 ? 30 : 4);
            for (int i = 0; i < n; ++i) s.insert((InClass::Type) r.pick(codes));
            std::string txt = InClass::asString(s);
            vh::begin("class set '" + txt + "'", s.size() > 1);
            std::string want;
            for (auto e : s) want += (want.size() ? "," : "") + ad::name_of(in, (int) e);
            vh::eq("class set as text", want, txt);
            auto back = InClass::asType(txt);
            if (s.size()) vh::check(back == s, "class set read back", want, InClass::asString(back));
            // any order, repeated names and blanks around names give the same set
            std::vector<int> ord;
            for (auto e : s) ord.push_back((int) e);
            if (ord.size()) {
                ord.push_back(r.pick(ord));
                for (size_t i = ord.size(); i-- > 1; ) std::swap(ord[i], ord[r.below(i + 1)]);
                std::string t;
                for (int e : ord) t += (t.size() ? "," : "") + std::string(r.chance(20) ? " " : "") + ad::name_of(in, e) + (r.chance(20) ? " " : "");
                vh::begin("class list '" + t + "'", s.size() > 1);
                vh::check(InClass::asType(t) == s, "class list read", want, InClass::asString(InClass::asType(t)));
            }
        }
        static const std::vector<std::string> an = {"DET_PRE", "DET_SUF", "ATT_PRE", "ATT_SUF"};
        for (int m = 0; m < 16; ++m) {
            std::set<InClass::AttachType> s;
            std::string want;
            for (int i = 0; i < 4; ++i) if (m >> i & 1) { s.insert((InClass::AttachType) i); want += (want.size() ? "," : "") + an[(size_t) i]; }
            vh::begin("attachment set " + want, m > 0);
            std::string t = InClass::asString(s);
            if (m) vh::eq("attachment set as text", want, t);
            vh::check(InClass::asAttachType(t) == s, "attachment set read back", want, InClass::asString(InClass::asAttachType(t)));
            vh::check(InClass::asAttachType(want) == s, "attachment set read", want, InClass::asString(InClass::asAttachType(want)));
        }
        for (int l = 0; l < 78; ++l) {
            vh::begin("language code " + std::to_string(l), false);
            std::string n = InClass::asString((InClass::Lang) l);
            vh::same("language read back from its code name", l, (int) InClass::asLang(n));
        }
    });
}
