// C11: reading, validating, matching and joining rules
#include "addr.hpp"
#include <cmath>
static std::string show(const Rule &u) {
    ad::Ints a, b;
    for (auto e : u.in()) a.push_back((int) e);
    for (auto e : u.out()) b.push_back((int) e);
    return ad::rule_str(a, b, u.score());
}
int main(int c, char **v) {
    return vh::run(c, v, "random rule lines (0-6 classes a side, names and unknown words, separators, missing or odd scores), patterns and pairs of rules; non-trivial when the line is a valid rule",
        [](vh::Rng &r) {
        std::vector<std::string> in, out;
        for (auto &e : ad::in_table()) in.push_back(e.first);
        for (auto &e : ad::out_table()) out.push_back(e.first);
        std::vector<std::string> sc = {"0.5", "1", "0.25", "2.5", "1e-3", "0.0001", "0", "-1", "x", "", "0.0", "-0.5", "1e3", "0.3", ".7", "+0.2", "nan", "-nan", "inf", "-inf", "NaN(1)"};
        std::vector<std::pair<std::string, Rule> > good;
        for (int k = 0; k < vh::scale(20000, 300000) && vh::more(); ++k) {
            int n = r.range(0, 6), m = r.chance(70) ? n : r.range(0, 6);
            ad::Ints a, b;
            std::string line, s = r.pick(sc), want;
            auto gap = [&]() { return std::string(r.chance(80) ? " " : r.chance(50) ? "\t" : "   "); };
            if (r.chance(10)) line += gap();
            for (int i = 0; i < n; ++i) {
                if (r.chance(3)) { a.push_back(99); line += "Xy" + gap(); continue; }
                auto w = r.pick(in);
                a.push_back(ad::in_table().at(w));
                line += w + gap();
            }
            int arrows = r.chance(92) ? 2 : r.range(0, 3);
            if (arrows) line += "->" + gap();
            if (!arrows) m = 0;
            for (int i = 0; i < m; ++i) {
                if (r.chance(3)) { b.push_back(99); line += "zZ" + gap(); continue; }
                auto w = r.pick(out);
                b.push_back(ad::out_table().at(w));
                line += w + gap();
            }
            if (arrows >= 2) line += "->" + gap();
            if (arrows != 2) continue;   // handled below as plain invalid lines
            if (s == "") continue;
            line += s;
            if (r.chance(15)) line += gap();
            float f = strtof(s.c_str(), nullptr);
            f = static_cast<float>(atof(s.c_str()));
            bool valid = a.size() == b.size() && f > 0;
            vh::begin("line '" + line + "'", valid);
            try {
                Rule u(line);
                if (!valid) vh::fail("an unbalanced or non-positive rule is refused", "Rule-Not-Valid", show(u));
                vh::eq("rule read", ad::rule_str(a, b, f), show(u));
                vh::check(u.isValid(), "a rule read from a line is valid", "true", "false");
                vh::same("sizes", a.size(), (size_t) u.inSize());
                vh::same("sizes", b.size(), (size_t) u.outSize());
                for (size_t i = 0; i < a.size() + 2; ++i) {
                    vh::same("input class at position", i < a.size() ? a[i] : 99, (int) u.in(i));
                    vh::same("output class at position", i < b.size() ? b[i] : 99, (int) u.out(i));
                }
                if (good.size() < 400 || r.chance(5)) good.push_back({line, u});
            } catch (const std::runtime_error &e) {
                if (valid) vh::fail("a balanced rule with a positive score is read", "rule", e.what());
                vh::eq("refusal", "Rule-Not-Valid(" + line + ")", e.what());
            }
        }
        for (int k = 0; k < vh::scale(20000, 200000) && vh::more() && good.size(); ++k) {
            auto &x = good[r.below(good.size())], &y = good[r.below(good.size())];
            vh::begin("join '" + x.first + "' with '" + y.first + "'");
            Rule z = x.second + y.second;
            Rule z2 = x.second.concat(y.second);
            ad::Ints a, b;
            for (auto &q : {x.second, y.second}) { for (auto e : q.in()) a.push_back((int) e); for (auto e : q.out()) b.push_back((int) e); }
            vh::eq("joined rule", ad::rule_str(a, b, static_cast<float>((x.second.score() + y.second.score()) / 2.0)), show(z));
            vh::eq("joined rule", show(z), show(z2));
            // matching a pattern: exactly when the input side is a prefix
            ad::Ints p;
            for (auto e : x.second.in()) p.push_back((int) e);
            int mode = r.range(0, 4);
            if (mode == 1 && p.size()) p.pop_back();
            if (mode == 2) p.push_back(r.range(0, 3));
            if (mode == 3 && p.size()) p[r.below(p.size())] = 30;
            if (mode == 4) { p.clear(); for (auto e : y.second.in()) p.push_back((int) e); }
            std::vector<InClass::Type> pat;
            bool want = p.size() >= x.second.inSize();
            for (size_t i = 0; want && i < x.second.inSize(); ++i) want = p[i] == (int) x.second.in(i);
            for (int e : p) pat.push_back((InClass::Type) e);
            vh::begin("match '" + x.first + "' against " + vh::join(p));
            vh::same("pattern matched", want, x.second.match(pat));
            Rule w(x.second);
            w.clear();
            vh::check(w.isEmpty() && !w.isValid() && w.inSize() == 0 && w.outSize() == 0, "a cleared rule is empty", "empty", show(w));
        }
    });
}
